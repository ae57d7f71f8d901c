"""C34: an argument means the same left out, by position and by name."""

import math

import numpy as np
from hypothesis import strategies as st

import gens as G
from core import Law, require, sut

import tftb.generators as T
import tftb.processing as P
from tftb import utils as U
from tftb.processing import affine, ambiguity, cohen, linear, postprocessing as PP
from tftb.processing import reassigned as R
from tftb.processing import utils as PU


def half(n):
    return round(n / 2.0)


def spread(n):
    return 2 * math.sqrt(n)


def hamming(length):
    m = int(length)
    m += 1 - m % 2
    if m == 1:
        return np.ones(1)
    return 0.54 - 0.46 * np.cos(2 * np.pi * np.arange(m) / (m - 1.0))


def factors(n):
    """The divisor of n closest to its square root, from the square root
    rounded up downwards."""
    i = math.isqrt(n - 1) + 1
    while n % i:
        i -= 1
    return i


# name -> (function, number of required arguments, [(parameter, default(c), other(c))])
# c has n, rs, x, y and whatever the required arguments need.

def need_n(c):
    return (c["n"],)


def need_x(c):
    return (c["x"],)


# (the default windows are a quarter of the number of bins; the reassigned
# spectrogram's is a quarter of the signal)
WINDOW = ("fwindow", lambda c: hamming(c["bins"] // 4), lambda c: 0.2 + c["rs"].rand(5))
BINS = ("n_fbins", lambda c: c["n"], lambda c: c["n"] + 5)
LABELS = ("timestamps", lambda c: np.arange(c["n"]), lambda c: np.arange(c["n"]) * 0.5)
INSTANTS = ("timestamps", lambda c: np.arange(c["n"]), lambda c: np.arange(1, c["n"], 2))
ENVELOPE = [("t0", lambda c: half(c["n"]), lambda c: 3.0),
            ("spread", lambda c: spread(c["n"]), lambda c: 4.0)]


def keying(parts):
    return [("n_comp", lambda c: max(1, int(round(c["n"] / parts))), lambda c: 3),
            ("f0", lambda c: 0.25, lambda c: 0.1)]


def run(cls):
    def f(*a, **k):
        return cls(*a, **k).run()
    f.__name__ = f.__qualname__ = cls.__name__
    return f


def cohen_class(cls):
    return (run(cls), need_x, [LABELS, BINS, WINDOW])


def affine_class(cls, first=()):
    # (the band and the number of voices depend on the signal: they are given)
    return (run(cls), need_x, list(first) + [
        ("fmin", None, lambda c: 0.1), ("fmax", None, lambda c: 0.4),
        ("n_voices", None, lambda c: 10)])


def reassigned_fun(f):
    return (f, need_x, [INSTANTS, BINS, WINDOW])


ENTRIES = {
    "amgauss": (T.amgauss, need_n, ENVELOPE),
    "amexpos": (T.amexpos, need_n, ENVELOPE + [("kind", lambda c: "bilateral",
                                                lambda c: "unilateral")]),
    "amrect": (T.amrect, need_n, ENVELOPE),
    "amtriang": (T.amtriang, need_n, ENVELOPE),
    "fmconst": (T.fmconst, need_n, [("fnorm", lambda c: 0.25, lambda c: -0.13),
                                    ("t0", lambda c: half(c["n"]), lambda c: 2)]),
    "fmlin": (T.fmlin, need_n, [("fnormi", lambda c: 0.0, lambda c: 0.4),
                                ("fnormf", lambda c: 0.5, lambda c: -0.1),
                                ("t0", lambda c: half(c["n"]), lambda c: 3)]),
    "fmsin": (T.fmsin, need_n, [("fnormin", lambda c: 0.05, lambda c: 0.11),
                                ("fnormax", lambda c: 0.45, lambda c: 0.33),
                                ("period", lambda c: c["n"], lambda c: 7.0),
                                ("t0", lambda c: c["n"] / 2.0, lambda c: 3.0),
                                ("fnorm0", None, lambda c: 0.2),
                                ("pm1", lambda c: 1, lambda c: -1)]),
    "fmodany": (T.fmodany, lambda c: (0.5 * c["rs"].rand(c["n"]),),
                [("t0", lambda c: 1, lambda c: 4)]),
    "anaask": (T.anaask, need_n, keying(2.0)),
    "anabpsk": (T.anabpsk, need_n, keying(5.0)),
    "anaqpsk": (T.anaqpsk, need_n, keying(5.0)),
    "anafsk": (T.anafsk, need_n, [("n_comp", lambda c: max(1, int(round(c["n"] / 5.0))),
                                   lambda c: 3), ("Nbf", lambda c: 4, lambda c: 3)]),
    "anapulse": (T.anapulse, need_n, [("ti", lambda c: half(c["n"]), lambda c: 1)]),
    "anastep": (T.anastep, need_n, [("ti", lambda c: half(c["n"]), lambda c: 1)]),
    "anasing": (T.anasing, need_n, [("t0", lambda c: c["n"] / 2.0, lambda c: 3.0),
                                    ("h", lambda c: 0.0, lambda c: 0.5)]),
    "altes": (T.altes, need_n, [("fmin", lambda c: 0.05, lambda c: 0.1),
                                ("fmax", lambda c: 0.5, lambda c: 0.4),
                                ("alpha", lambda c: 300, lambda c: 50)]),
    "klauder": (T.klauder, need_n, [("attenuation", lambda c: 10.0, lambda c: 6.0),
                                    ("f0", lambda c: 0.2, lambda c: 0.3)]),
    "mexhat": (T.mexhat, lambda c: (), [("nu", lambda c: 0.05, lambda c: 0.11)]),
    "gdpower": (T.gdpower, need_n, [("degree", lambda c: 0.0, lambda c: 0.5),
                                    ("rate", lambda c: 1.0, lambda c: 0.7)]),
    "doppler": (T.doppler, lambda c: (c["n"], 200.0, 50.0, 10.0, 30.0),
                [("t0", lambda c: c["n"] / 2.0, lambda c: 3.0),
                 ("v_wave", lambda c: 340.0, lambda c: 500.0)]),
    "dopnoise": (T.dopnoise, lambda c: (c["n"], 200.0, 50.0, 10.0, 30.0),
                 [("time_center", lambda c: c["n"] // 2, lambda c: 3.0),
                  ("c", lambda c: 340, lambda c: 500.0)]),
    "noisecg": (T.noisecg, need_n, [("a1", lambda c: None, None), ("a2", lambda c: None, None)]),
    "sigmerge": (T.sigmerge, lambda c: (c["x"], c["y"]), [("ratio", lambda c: 0.0,
                                                           lambda c: -4.0)]),
    "is_linear": (U.is_linear, lambda c: (np.cumsum(1 + 1e-4 * c["rs"].rand(c["n"])),),
                  [("decimals", lambda c: 5, lambda c: 2)]),
    "stft": cohen_class(P.ShortTimeFourierTransform),
    "wvd": (run(P.WignerVilleDistribution), need_x, [LABELS, BINS]),
    "pwvd": cohen_class(P.PseudoWignerVilleDistribution),
    "pmh": cohen_class(cohen.PseudoMargenauHillDistribution),
    "ppage": cohen_class(cohen.PseudoPageRepresentation),
    "spectrogram": (run(P.Spectrogram), need_x, [INSTANTS, BINS, WINDOW]),
    "mh": (run(P.MargenauHillDistribution), need_x, [INSTANTS, BINS]),
    "page": (run(cohen.PageRepresentation), need_x, [INSTANTS, BINS]),
    "spwv": (cohen.smoothed_pseudo_wigner_ville, need_x,
             [INSTANTS, ("freq_bins", BINS[1], BINS[2]),
              ("twindow", lambda c: hamming(c["bins"] // 10), lambda c: 0.2 + c["rs"].rand(3)),
              WINDOW]),
    "r_pwv": reassigned_fun(R.pseudo_wigner_ville),
    "r_pmh": reassigned_fun(R.pseudo_margenau_hill),
    "r_ppage": reassigned_fun(R.pseudo_page),
    "r_spwv": (R.smoothed_pseudo_wigner_ville, need_x,
               [INSTANTS, BINS, ("twindow", WINDOW[1], lambda c: 0.2 + c["rs"].rand(3)), WINDOW]),
    "r_spectrogram": (R.spectrogram, need_x,
                      [("time_samples", INSTANTS[1], INSTANTS[2]), BINS,
                       ("window", lambda c: hamming(c["n"] // 4), WINDOW[2])]),
    "r_morlet": (R.morlet_scalogram, need_x, [INSTANTS, BINS, ("tbp", lambda c: 0.25,
                                                               lambda c: 0.3)]),
    "gabor": (linear.gabor, need_x,
              [("n_coeff", lambda c: factors(c["n"]), None),
               ("q_oversample", lambda c: factors(factors(c["n"])), None),
               ("window", None, None)]),
    "narrow_band": (ambiguity.narrow_band, need_x,
                    [("lag", lambda c: np.arange(-(c["n"] // 2) + (c["n"] % 2 == 0),
                                                 (c["n"] + 1) // 2), lambda c: np.arange(-2, 3)),
                     BINS]),
    "wide_band": (ambiguity.wide_band, need_x, [("fmin", None, lambda c: 0.1),
                                                ("fmax", None, lambda c: 0.4),
                                                ("N", None, lambda c: 10)]),
    "inst_freq": (P.inst_freq, need_x, [("t", lambda c: np.arange(2, c["n"]),
                                         lambda c: np.array([5, 3])),
                                        ("L", lambda c: 1, None)]),
    "group_delay": (P.group_delay, need_x, [("fnorm", lambda c: None,
                                             lambda c: np.array([0.1, 0.3]))]),
    "hough": (PP.hough_transform, lambda c: (c["image"],),
              [("m", lambda c: c["image"].shape[0], lambda c: 9),
               ("n", lambda c: c["image"].shape[1], lambda c: 11)]),
    "renyi": (PP.renyi_information, lambda c: (c["image"],),
              [("timestamps", lambda c: np.arange(c["image"].shape[1]) + 1,
                lambda c: np.arange(c["image"].shape[1]) * 0.5),
               ("freq", lambda c: np.arange(c["image"].shape[0]),
                lambda c: np.linspace(0, 0.5, c["image"].shape[0])),
               ("alpha", lambda c: 3.0, lambda c: 2.0)]),
    "ideal": (PP.ideal_tfr, lambda c: (0.5 * c["rs"].rand(2, c["n"]),),
              [INSTANTS, BINS]),
    "friedman": (PP.friedman_density, lambda c: (c["image"], c["hat"]),
                 [("timestamps", lambda c: np.arange(c["image"].shape[1]), None)]),
    "ridges": (PP.ridges, lambda c: (c["image"], c["hat"]),
               [("timestamps", lambda c: np.arange(c["image"].shape[1]),
                 lambda c: 3 + 2 * np.arange(c["image"].shape[1])),
                ("method", lambda c: "rsp", lambda c: "RSPWV")]),
    "integrate": (PU.integrate_2d, lambda c: (c["image"],),
                  [("x", lambda c: np.arange(c["image"].shape[1]),
                    lambda c: np.arange(c["image"].shape[1]) * 0.3),
                   ("y", lambda c: np.arange(c["image"].shape[0]),
                    lambda c: np.cumsum(0.1 + c["rs"].rand(c["image"].shape[0])))]),
    "scalogram": (run(P.Scalogram), need_x,
                  [("fmin", None, lambda c: 0.1), ("fmax", None, lambda c: 0.4),
                   ("n_voices", lambda c: c["n"], lambda c: 9),
                   ("waveparams", lambda c: np.sqrt(c["n"]), lambda c: 3.0)]),
    "unterberger": affine_class(P.UnterbergerDistribution,
                                [("form", lambda c: "A", lambda c: "P")]),
    "bertrand": affine_class(P.BertrandDistribution),
    "dflandrin": affine_class(P.DFlandrinDistribution),
}
BAND = ("scalogram", "unterberger", "bertrand", "dflandrin", "wide_band")


def context(c):
    n, rs = c["n"], np.random.RandomState(c["seed"])
    x = rs.randn(n) + 1j * rs.randn(n)
    if c["name"] in BAND:
        x = np.real(x).copy()
    m = 6
    hat = rs.randint(0, m, (m, n)) + 1j * rs.randint(0, n, (m, n))
    same = rs.rand(m, n) < 0.4
    hat[same] = (np.arange(m).reshape(-1, 1) + 1j * np.arange(n))[same]
    return dict(n=n, rs=rs, x=x, y=rs.randn(n) + 1j * rs.randn(n), image=rs.rand(m, n) + 0.05,
                hat=hat)


@st.composite
def option_cases(draw):
    name = draw(st.sampled_from(sorted(ENTRIES)))
    params = ENTRIES[name][2]
    how = []
    full = draw(st.booleans())                   # all the options, by position
    for p, default, other in params:
        choices = ["omit"] + (["default"] if default else []) + (["other", "other"] if other else [])
        if full and len(choices) > 1:
            choices = choices[1:]
        if name in BAND and p in ("fmin", "fmax") or (name in BAND and p in ("n_voices", "N")
                                                      and default is None):
            choices = ["other"]
        how.append(draw(st.sampled_from(choices)))
    return dict(name=name, n=draw(st.one_of(st.integers(20, 36), st.integers(20, 36),
                                      st.sampled_from((64, 99, 128)))), seed=draw(G.SEEDS), how=how,
                by=len(params) if full else draw(st.integers(0, len(params))))


def flat(v):
    if isinstance(v, (tuple, list)):
        return [a for u in v for a in flat(u)]
    return [np.asarray(v)]


def same(a, b, what):
    require(len(a) == len(b), what + ": another number of results", got=len(a), expected=len(b))
    for u, v in zip(a, b):
        require(u.shape == v.shape, what + ": another shape", got=u.shape, expected=v.shape)
        fin = np.isfinite(v)
        require(bool(np.array_equal(np.isfinite(u), fin)), what + ": other infinite values")
        if np.any(fin):
            err = float(np.max(np.abs(u[fin].astype(complex) - v[fin])))
            require(err <= 1e-9 * float(np.max(np.abs(v[fin]))) + 1e-300, what, error=err)


def check_options(c):
    func, required, params = ENTRIES[c["name"]]
    ctx = context(c)
    args = required(ctx)
    ctx["bins"] = c["n"]
    if ("n_fbins", "other") in [(p[0], h) for p, h in zip(params, c["how"])] or \
            ("freq_bins", "other") in [(p[0], h) for p, h in zip(params, c["how"])]:
        ctx["bins"] = BINS[2](ctx)
    chosen = []                                    # (name, value, is it just the default)
    for (p, default, other), how in zip(params, c["how"]):
        if how == "omit":
            chosen.append((p, None, how))
        else:
            chosen.append((p, default(ctx) if how == "default" else other(ctx), how))

    def call(positional, explicit):
        """The first options by position (as far as they are all there), others by name."""
        pos, kw = [], {}
        for k, (p, v, how) in enumerate(chosen):
            if how == "omit" or (how == "default" and not explicit):
                continue
            if len(pos) == k and k < positional and explicit:
                pos.append(v)
            else:
                kw[p] = v
        np.random.seed(c["seed"] % 1000)
        return flat(sut(func, *(tuple(args) + tuple(pos)), **kw))

    base = call(0, False)
    same(call(0, True), base, "%s: an option given its default value changes the result" % c["name"])
    same(call(c["by"], True), base, "%s: an option given by position differs from the same by name"
         % c["name"])
    return c["name"]


# -- options that have an effect -----------------------------------------------------

EFFECT = [(name, k) for name, e in sorted(ENTRIES.items())
          for k, (p, default, other) in enumerate(e[2]) if other is not None
          and (name, p) not in (("is_linear", "decimals"), ("friedman", "timestamps"))]


@st.composite
def effect_cases(draw):
    k = draw(st.integers(0, len(EFFECT) - 1))
    return dict(name=EFFECT[k][0], option=EFFECT[k][1], n=draw(st.integers(20, 36)),
                seed=draw(G.SEEDS))


def check_effect(c):
    """Changing an option changes the result (none is silently ignored)."""
    func, required, params = ENTRIES[c["name"]]
    ctx = context(c)
    args = required(ctx)
    kw = {}
    for p, default, other in params:
        if c["name"] in BAND and other and (p in ("fmin", "fmax") or default is None):
            kw[p] = other(ctx)
    p, default, other = params[c["option"]]
    changed = dict(kw)
    changed[p] = other(ctx)
    if p in kw:
        changed[p] = {"fmin": 0.15, "fmax": 0.35, "n_voices": 12, "N": 12}[p]
    np.random.seed(c["seed"] % 1000)
    a = flat(sut(func, *args, **kw))
    np.random.seed(c["seed"] % 1000)
    b = flat(sut(func, *args, **changed))
    equal = len(a) == len(b) and all(u.shape == v.shape and np.array_equal(u, v)
                                     for u, v in zip(a, b))
    if c["name"] in ("anabpsk", "anaqpsk", "anafsk") and p in ("n_comp", "Nbf"):
        return "may coincide"
    require(not equal, "%s: the option %s has no effect" % (c["name"], p))
    return c["name"] + " " + p


# -- a number is a number --------------------------------------------------------------

# name -> (function of a context and numbers, kinds of the numbers): n a whole number
# (a length, a count), r a real number (also given as a whole number)

def _env(f, **k):
    return lambda c, n, t0, s: f(n, t0, s, **k)


def _law(c):
    return 0.05 + 0.4 * c["rs"].rand(24)


LEN, ANY = st.integers(8, 40), st.one_of(st.integers(1, 12).map(float), G.reals(1.0, 12.0))
FRQ = G.reals(0.02, 0.48)
POWER = st.sampled_from((2.0, 3.0, 0.5, 1.5, 4.0))
NUMBERS = {
    "amgauss": (_env(T.amgauss), (LEN, ANY, ANY)),
    "amexpos": (_env(T.amexpos), (LEN, ANY, ANY)),
    "amexpos one sided": (_env(T.amexpos, kind="unilateral"), (LEN, ANY, ANY)),
    "amrect": (_env(T.amrect), (LEN, ANY, ANY)),
    "amtriang": (_env(T.amtriang), (LEN, ANY, ANY)),
    "fmconst": (lambda c, n, f, t: T.fmconst(n, f, t), (LEN, FRQ, ANY)),
    "fmlin": (lambda c, n, f, g, t: T.fmlin(n, f, g, t), (LEN, FRQ, FRQ, st.integers(1, 8))),
    "fmsin": (lambda c, n, f, p, t, g, s: T.fmsin(n, f / 2, 0.25 + f / 2, p, t, f / 2 + g / 2, s),
              (LEN, FRQ, ANY, ANY, G.reals(0.0, 0.5), st.sampled_from((1, -1)))),
    "fmhyp": (lambda c, n, t, f, g: T.fmhyp(n, (t, f), (t + 20, g)), (LEN, ANY, FRQ, FRQ)),
    "fmpower": (lambda c, n, k, t, f, g: T.fmpower(n, k, (t, f, t + 20, g)),
                (LEN, POWER, ANY, FRQ, FRQ)),
    "fmpower coefficients": (lambda c, n, k, f, g: T.fmpower(n, k, (f, g)), (LEN, POWER, FRQ, FRQ)),
    "fmpar": (lambda c, n, f, g: T.fmpar(n, (f, g / 100, 0.0)), (LEN, FRQ, FRQ)),
    "fmodany": (lambda c, t: T.fmodany(_law(c), t), (st.integers(1, 24),)),
    "anaask": (lambda c, n, m, f: T.anaask(n, m, f), (LEN, st.integers(1, 9), FRQ)),
    "anabpsk": (lambda c, n, m, f: T.anabpsk(n, m, f), (LEN, st.integers(1, 9), FRQ)),
    "anaqpsk": (lambda c, n, m, f: T.anaqpsk(n, m, f), (LEN, st.integers(1, 9), FRQ)),
    "anafsk": (lambda c, n, m, k: T.anafsk(n, m, k), (LEN, st.integers(1, 9), st.integers(2, 6))),
    "anapulse": (lambda c, n, t: T.anapulse(n, t), (LEN, st.integers(1, 8))),
    "anastep": (lambda c, n, t: T.anastep(n, t), (LEN, st.integers(1, 8))),
    "anasing": (lambda c, n, t, h: T.anasing(n, t, h), (LEN, ANY, G.reals(-0.9, 0.9))),
    "altes": (lambda c, n, f, a: T.altes(n, f / 4, 0.2 + f / 2, a), (LEN, FRQ, ANY.map(
        lambda v: v + 1))),
    "klauder": (lambda c, n, a, f: T.klauder(n, a, f), (LEN, ANY, FRQ)),
    "mexhat": (lambda c, f: T.mexhat(f), (FRQ,)),
    "gdpower": (lambda c, n, d, r: T.gdpower(n, d, r), (LEN, G.reals(-2.0, 3.0), FRQ)),
    "gdpower whole": (lambda c, n, d, r: T.gdpower(n, d, r),
                      (LEN, st.integers(-2, 3).map(float), ANY)),
    "doppler": (lambda c, n, fs, f, d, v, t, w: T.doppler(n, 50 * fs, fs, d, v, t, 100 + w),
                (LEN, ANY, ANY, ANY, ANY, st.integers(1, 8).map(float), ANY)),
    "dopnoise": (lambda c, n, fs, f, d, v, t, w: T.dopnoise(n, 50 * fs, fs, d, v, t, 100 + w),
                 (LEN, ANY, ANY, ANY, ANY, st.integers(1, 8).map(float), ANY)),
    "noisecg": (lambda c, n: T.noisecg(n), (LEN,)),
    "noisecu": (lambda c, n: T.noisecu(n), (LEN,)),
    "sigmerge": (lambda c, r: T.sigmerge(c["x"], c["y"], r), (st.one_of(G.reals(-20.0, 20.0), ANY),)),
    "scale": (lambda c, a, n: T.scale(np.real(c["x"]), a, 0.1, 0.4, n),
              (G.reals(0.6, 2.0), st.integers(10, 30))),
    "scale whole": (lambda c, a, n: T.scale(np.real(c["x"]), a, 0.1, 0.4, n),
                    (st.integers(1, 3).map(float), st.integers(10, 30))),
    "atoms": (lambda c, n, t, f, s, a: T.atoms(n, np.array([[t, f, s, a]])),
              (LEN, ANY, FRQ, ANY, ANY)),
    "divider": (lambda c, n: U.divider(n), (st.integers(1, 10 ** 6),)),
    "nearest_odd": (lambda c, v: U.nearest_odd(v), (st.one_of(ANY, st.integers(1, 99)),)),
    "nextpow2": (lambda c, v: U.nextpow2(v), (st.one_of(ANY, st.integers(1, 10 ** 6)),)),
    "modulo": (lambda c, v, n: U.modulo(np.array([v]), n), (ANY, st.integers(1, 9))),
    "stft": (lambda c, n: run(P.ShortTimeFourierTransform)(c["x"], n_fbins=n), (LEN,)),
    "wvd": (lambda c, n: run(P.WignerVilleDistribution)(c["x"], n_fbins=n), (LEN,)),
    "pwvd": (lambda c, n: run(P.PseudoWignerVilleDistribution)(c["x"], n_fbins=n), (LEN,)),
    "pmh": (lambda c, n: run(cohen.PseudoMargenauHillDistribution)(c["x"], n_fbins=n), (LEN,)),
    "ppage": (lambda c, n: run(cohen.PseudoPageRepresentation)(c["x"], n_fbins=n), (LEN,)),
    "spectrogram": (lambda c, n: run(P.Spectrogram)(c["x"], n_fbins=n), (LEN,)),
    "mh": (lambda c, n: run(P.MargenauHillDistribution)(c["x"], n_fbins=n + 16), (LEN,)),
    "page": (lambda c, n: run(cohen.PageRepresentation)(c["x"], n_fbins=n + 16), (LEN,)),
    "spwv": (lambda c, n: cohen.smoothed_pseudo_wigner_ville(c["x"], freq_bins=n), (LEN,)),
    "r_pwv": (lambda c, n: R.pseudo_wigner_ville(c["x"], n_fbins=n), (LEN,)),
    "r_pmh": (lambda c, n: R.pseudo_margenau_hill(c["x"], n_fbins=n), (LEN,)),
    "r_ppage": (lambda c, n: R.pseudo_page(c["x"], n_fbins=n), (LEN,)),
    "r_spwv": (lambda c, n: R.smoothed_pseudo_wigner_ville(c["x"], n_fbins=n), (LEN,)),
    "r_spectrogram": (lambda c, n: R.spectrogram(c["x"], n_fbins=n), (LEN,)),
    "r_morlet": (lambda c, n, b: R.morlet_scalogram(c["x"], n_fbins=n, tbp=b),
                 (LEN, G.reals(0.2, 0.4))),
    "gabor": (lambda c, n: linear.gabor(c["x"], 12, n), (st.sampled_from((1, 2, 3, 4)),)),
    "gabor coefficients": (lambda c, n: linear.gabor(c["x"], n, 1),
                           (st.sampled_from((3, 4, 6, 8, 12)),)),
    "narrow_band": (lambda c, n: ambiguity.narrow_band(c["x"], n_fbins=n), (st.integers(24, 40),)),
    "wide_band": (lambda c, f, g, n: ambiguity.wide_band(np.real(c["x"]), f / 4, 0.2 + g / 2, n),
                  (FRQ, FRQ, st.integers(8, 20))),
    "hough": (lambda c, m, n: PP.hough_transform(c["image"], m, n), (LEN, LEN)),
    "renyi": (lambda c, a: PP.renyi_information(c["image"], alpha=a), (ANY,)),
    "ideal": (lambda c, n: PP.ideal_tfr(np.array([_law(c)]), n_fbins=n), (LEN,)),
    "scalogram": (lambda c, f, g, n, w: run(P.Scalogram)(
        c["x"], fmin=f / 4, fmax=0.2 + g / 2, n_voices=n, waveparams=w),
        (FRQ, FRQ, st.integers(4, 20), ANY)),
    "unterberger": (lambda c, f, g, n: run(P.UnterbergerDistribution)(
        np.real(c["x"]), fmin=f / 4, fmax=0.2 + g / 2, n_voices=n),
        (FRQ, FRQ, st.integers(6, 20))),
    "bertrand": (lambda c, f, g, n: run(P.BertrandDistribution)(
        np.real(c["x"]), fmin=f / 4, fmax=0.2 + g / 2, n_voices=n),
        (FRQ, FRQ, st.integers(6, 20))),
    "dflandrin": (lambda c, f, g, n: run(P.DFlandrinDistribution)(
        np.real(c["x"]), fmin=f / 4, fmax=0.2 + g / 2, n_voices=n),
        (FRQ, FRQ, st.integers(6, 20))),
}
AS = ("int64", "int32", "float64", "int")


@st.composite
def number_cases(draw):
    name = draw(st.sampled_from(sorted(NUMBERS)))
    values = [draw(s) for s in NUMBERS[name][1]]
    return dict(name=name, values=values, seed=draw(G.SEEDS),
                types=[draw(st.sampled_from(AS)) for _ in values])


def spelt(v, kind):
    """The same number in another type, when that type can hold it."""
    if isinstance(v, float):
        if kind == "float64":
            return np.float64(v)
        if v != int(v):
            return np.float64(v)
        return int(v) if kind == "int" else getattr(np, kind)(int(v))
    if kind in ("float64", "int") or not abs(v) < 2 ** 31:
        return np.int64(v)
    return getattr(np, kind)(v)


def check_numbers(c):
    f = NUMBERS[c["name"]][0]

    def call(values):
        rs = np.random.RandomState(c["seed"])
        x = rs.randn(24) + 1j * rs.randn(24)
        ctx = dict(x=x, y=rs.randn(24), image=rs.rand(6, 8) + 0.1, rs=rs)
        np.random.seed(c["seed"] % 1000)
        return flat(sut(f, ctx, *values))

    other = [spelt(v, k) for v, k in zip(c["values"], c["types"])]
    same(call(other), call(c["values"]),
         "%s: the type of a number changes the result" % c["name"])
    return c["name"]


# -- no number is special ----------------------------------------------------------------

# name -> (function of a context and the number, values of it worth a try)
TIMES = (0.0, 1.0, -1.0, 2.0, "half", "last", "n")
FREQS = (0.0, 0.25, 0.5, -0.5, 0.125, 0.1)
SMOOTH = {
    "amgauss t0": (lambda c, v: T.amgauss(c["n"], v, 5.0), TIMES),
    "amgauss spread": (lambda c, v: T.amgauss(c["n"], 7.0, v), (1.0, 2.0, "half", "n")),
    "amexpos t0": (lambda c, v: T.amexpos(c["n"], v, 5.0), TIMES),
    "amexpos spread": (lambda c, v: T.amexpos(c["n"], 7.0, v), (1.0, 2.0, "half", "n")),
    "amtriang t0": (lambda c, v: T.amtriang(c["n"], v, 5.0), TIMES),
    "amtriang spread": (lambda c, v: T.amtriang(c["n"], 7.0, v), (1.0, 2.0, "half", "n")),
    "fmconst fnorm": (lambda c, v: T.fmconst(c["n"], v, 3.0), FREQS[:2] + FREQS[4:]),
    "fmconst t0": (lambda c, v: T.fmconst(c["n"], 0.2, v), TIMES),
    "fmlin fnormi": (lambda c, v: T.fmlin(c["n"], v, 0.3, 4), FREQS[:2] + FREQS[4:]),
    "fmlin fnormf": (lambda c, v: T.fmlin(c["n"], 0.3, v, 4), FREQS[:2] + FREQS[4:]),
    "fmlin equal": (lambda c, v: T.fmlin(c["n"], 0.2, 0.2 + v, 4), (0.0, 0.25)),
    "fmsin fnormin": (lambda c, v: T.fmsin(c["n"], v, 0.45, 9.0, 4.0, 0.2, 1), (0.0, 0.05, 0.1)),
    "fmsin fnormax": (lambda c, v: T.fmsin(c["n"], 0.05, v, 9.0, 4.0, 0.1, 1), (0.25, 0.45, 0.3)),
    "fmsin period": (lambda c, v: T.fmsin(c["n"], 0.05, 0.45, v, 4.0, 0.2, 1), (1.0, 2.0, "half", "n")),
    "fmsin t0": (lambda c, v: T.fmsin(c["n"], 0.05, 0.45, 9.0, v, 0.2, 1), TIMES),
    "fmsin fnorm0": (lambda c, v: T.fmsin(c["n"], 0.05, 0.45, 9.0, 4.0, v, 1), (0.1, 0.25, 0.3)),
    "fmhyp time": (lambda c, v: T.fmhyp(c["n"], (v, 0.1), (11.0, 0.3)), TIMES[1:4]),
    "fmhyp frequency": (lambda c, v: T.fmhyp(c["n"], (3.0, v), (11.0, 0.3)), (0.1, 0.125, 0.25, 0.5)),
    "fmpar": (lambda c, v: T.fmpar(c["n"], (0.1, v / c["n"], 0.0)), (0.0, 0.1, 0.25)),
    "fmpar third": (lambda c, v: T.fmpar(c["n"], (0.1, 0.1 / c["n"], v / c["n"] ** 2)), (0.0, 0.1)),
    "fmpower degree": (lambda c, v: T.fmpower(c["n"], v, (0.1, 0.2)), (2.0, 3.0, 0.5, 1.5)),
    "fmpower frequency": (lambda c, v: T.fmpower(c["n"], 2.0, (v, 0.1)), (0.0, 0.1, 0.25)),
    "fmpower slope": (lambda c, v: T.fmpower(c["n"], 2.0, (0.1, v)), (0.0, 0.1, 0.25)),
    "anasing t0": (lambda c, v: T.anasing(c["n"], v, 0.5), TIMES[:2] + TIMES[3:]),
    "anasing h": (lambda c, v: T.anasing(c["n"], 4.0, v), (1.0, 0.5, -0.5, 2.0)),
    "altes fmin": (lambda c, v: T.altes(c["n"], v, 0.45, 50.0), (0.05, 0.1, 0.125)),
    "altes fmax": (lambda c, v: T.altes(c["n"], 0.05, v, 50.0), (0.25, 0.4, 0.45)),
    "altes alpha": (lambda c, v: T.altes(c["n"], 0.05, 0.45, v), (2.0, 10.0, 300.0)),
    "klauder attenuation": (lambda c, v: T.klauder(c["n"], v, 0.2), (1.0, 2.0, 10.0, 0.5)),
    "klauder f0": (lambda c, v: T.klauder(c["n"], 5.0, v), (0.1, 0.2, 0.25)),
    "gdpower rate": (lambda c, v: T.gdpower(c["n"], 2.0, v), (1.0, -1.0, 2.0, 0.5)),
    "gdpower degree": (lambda c, v: T.gdpower(c["n"], v, 1.0), (2.0, 0.5, -1.0, 3.0)),
    "doppler frequency": (lambda c, v: T.doppler(c["n"], 200.0, v, 10.0, 30.0, 4.0),
                          (1.0, 10.0, 50.0)),
    "doppler distance": (lambda c, v: T.doppler(c["n"], 200.0, 50.0, v, 30.0, 4.0), (1.0, 2.0, 10.0)),
    "doppler speed": (lambda c, v: T.doppler(c["n"], 200.0, 50.0, 10.0, v, 4.0), (0.0, 1.0, 30.0)),
    "doppler t0": (lambda c, v: T.doppler(c["n"], 200.0, 50.0, 10.0, 30.0, v), TIMES[1:2] + TIMES[3:5]),
    "doppler waves": (lambda c, v: T.doppler(c["n"], 200.0, 50.0, 10.0, 30.0, 4.0, v),
                      (100.0, 340.0, 300.0)),
    "dopnoise centre": (lambda c, v: T.dopnoise(c["n"], 200.0, 50.0, 10.0, 30.0, v), TIMES),
    "dopnoise speed": (lambda c, v: T.dopnoise(c["n"], 200.0, 50.0, 10.0, v, 4.0), (0.0, 1.0, 30.0)),
    "dopnoise waves": (lambda c, v: T.dopnoise(c["n"], 200.0, 50.0, 10.0, 30.0, 4.0, v),
                       (100.0, 340.0, 300.0)),
    "sigmerge": (lambda c, v: T.sigmerge(c["x"], c["y"], v), (0.0, 1.0, -1.0, 10.0, 20.0, -10.0)),
    "scale": (lambda c, v: T.scale(np.real(c["x"]), v, 0.1, 0.4, 24), (1.0, 2.0, 0.5)),
    "atoms time": (lambda c, v: T.atoms(c["n"], np.array([[v, 0.2, 9.0, 2.0]])), TIMES),
    "atoms frequency": (lambda c, v: T.atoms(c["n"], np.array([[7.0, v, 9.0, 2.0]])),
                        FREQS[:2] + FREQS[4:]),
    "atoms width": (lambda c, v: T.atoms(c["n"], np.array([[7.0, 0.2, v, 2.0]])), (1.0, 2.0, "n")),
    "atoms amplitude": (lambda c, v: T.atoms(c["n"], np.array([[7.0, 0.2, 9.0, v],
                                                               [9.0, 0.1, 5.0, 1.0]])),
                        (0.0, 1.0, -1.0, 2.0)),
    "renyi order": (lambda c, v: PP.renyi_information(c["image"], alpha=v), (2.0, 3.0, 0.5, 4.0)),
    "renyi near one": (lambda c, v: PP.renyi_information(c["image"], alpha=1.0 + v * 1e3),
                       (0.0,)),
    "group_delay": (lambda c, v: P.group_delay(c["x"], np.array([v])), (0.0, 0.25, 0.1, 0.125)),
    "integrate": (lambda c, v: PU.integrate_2d(c["image"], np.r_[np.arange(7) - 7.0, v]),
                  (0.0, 1.0, 2.0)),
    "ambiguity fmin": (lambda c, v: ambiguity.wide_band(np.real(c["x"]), v, 0.45, 12), (0.1, 0.125, 0.2)),
    "ambiguity fmax": (lambda c, v: ambiguity.wide_band(np.real(c["x"]), 0.1, v, 12), (0.25, 0.4, 0.5)),
    "bertrand fmin": (lambda c, v: _band(P.BertrandDistribution, c, v, 0.43), (0.1, 0.13, 0.2)),
    "bertrand fmax": (lambda c, v: _band(P.BertrandDistribution, c, 0.11, v), (0.25, 0.4)),
    "unterberger fmin": (lambda c, v: _band(P.UnterbergerDistribution, c, v, 0.43), (0.1, 0.13, 0.2)),
    "unterberger fmax": (lambda c, v: _band(P.UnterbergerDistribution, c, 0.11, v), (0.25, 0.4)),
    "dflandrin fmin": (lambda c, v: _band(P.DFlandrinDistribution, c, v, 0.43), (0.1, 0.13, 0.2)),
    "dflandrin fmax": (lambda c, v: _band(P.DFlandrinDistribution, c, 0.11, v), (0.25, 0.4)),
}


def _band(cls, c, fmin, fmax):
    return run(cls)(np.real(c["x"]), fmin=fmin, fmax=fmax, n_voices=12)[0]


@st.composite
def smooth_cases(draw):
    name = draw(st.sampled_from(sorted(SMOOTH)))
    return dict(name=name, v=draw(st.sampled_from(SMOOTH[name][1])), n=draw(st.integers(16, 40)),
                seed=draw(G.SEEDS), whole=draw(st.booleans()))


def check_smooth(c):
    """Numbers which vary continuously have no value that means something
    else: just beside it the result is about the same."""
    f, n = SMOOTH[c["name"]][0], c["n"]

    def call(v, beside=False):
        rs = np.random.RandomState(c["seed"])
        ctx = dict(n=n, x=rs.randn(24) + 1j * rs.randn(24), y=rs.randn(24) + 1j * rs.randn(24),
                   image=rs.rand(6, 8) + 0.1, rs=rs)
        np.random.seed(c["seed"] % 1000)
        try:
            out = f(ctx, v) if beside else sut(f, ctx, v)
        except (TypeError, ValueError):
            return None                             # the end of a range, which others check
        return [u.astype(complex) for u in flat(out)]

    v = {"half": n / 2.0, "last": n - 1.0, "n": float(n)}.get(c["v"], c["v"])
    at = call(int(v) if c["whole"] and v == int(v) else v)
    eps = 1e-8
    beside = [(call(v + e, True), call(v + 200 * e, True)) for e in (eps, -eps) if v > 0 or e > 0]
    if not all(np.all(np.isfinite(u)) for u in at):
        return False
    a = np.concatenate([u.ravel() for u in at])
    differ = []
    for near, more in beside:
        if near is None or more is None or any([u.shape for u in at] != [u.shape for u in w]
                                               for w in (near, more)):
            continue                                # (or a length which is rounded)
        b, d = [np.concatenate([u.ravel() for u in w]) for w in (near, more)]
        size = float(np.max(np.abs(b), initial=0)) + 1e-300
        if not np.all(np.isfinite(b)) or not np.max(np.abs(d - b), initial=0) <= 1e-2 * size:
            continue                                # a jump beside the value, not at it
        differ.append(bool(np.max(np.abs(a - b), initial=0) > 2e-2 * size))
    if not differ:
        return False
    require(not all(differ), "%s: a value means something else than those beside it" % c["name"],
            value=v)
    return c["name"]


# -- what is documented and does not work ---------------------------------------------

def check_works(c):
    rs = np.random.RandomState(c["seed"])
    x = T.altes(c["n"], 0.1, 0.45) + 1e-3 * rs.randn(c["n"])
    if c["what"] == "affine_spw":
        tfr, t, f = sut(affine.smoothed_pseudo_wigner, x, fmin=0.1, fmax=0.4, n_voices=12)
        require(tfr.shape == (len(f), len(t)) and bool(np.all(np.isfinite(tfr))),
                "affine smoothed pseudo Wigner: not a distribution")
    else:
        h = T.mexhat(0.2).reshape(-1, 1)
        tfr, t, f, wt = sut(P.Scalogram(x, fmin=0.1, fmax=0.4, n_voices=12, waveparams=h).run)
        require(tfr.shape == (len(f), len(t)) and bool(np.all(np.isfinite(tfr))),
                "scalogram with a wavelet given by its samples: not a distribution")
    return c["what"]


C34 = [Law("options", option_cases(), check_options, 500),
       Law("numbers", number_cases(), check_numbers, 500),
       Law("smooth", smooth_cases(), check_smooth, 300),
       Law("effect", effect_cases(), check_effect, 200),
       Law("works", st.fixed_dictionaries(dict(what=st.sampled_from(("affine_spw", "own_wavelet")),
                                               n=st.integers(48, 80), seed=G.SEEDS)),
           check_works, 12, 60)]
