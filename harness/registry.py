"""Which laws decide which property."""

import importlib

MODULES = {
    "laws_options": ["C34"],
    "laws_cross": ["C32", "C33"],
    "laws_plot": ["C31"],
    "laws_history": ["C30"],
    "laws_post": ["C27", "C28"],
    "laws_gabor": ["C26"],
    "laws_reassigned": ["C24", "C25"],
    "laws_affine": ["C21", "C22", "C23"],
    "laws_moments": ["C13", "C14"],
    "laws_cohen": ["C15", "C16", "C17", "C18", "C19", "C20"],
    "laws_validation": ["C04"],
    "laws_utils": ["C12", "C29"],
    "laws_generators": ["C01", "C02", "C03", "C05", "C06", "C07", "C08", "C09", "C10", "C11"],
}
META = {}


def load(prop):
    for module, props in MODULES.items():
        if prop in props:
            mod = importlib.import_module(module)
            return getattr(mod, prop), META.get(prop, {})
    raise SystemExit("unknown property %s" % prop)
