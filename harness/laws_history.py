"""C30: the result of a call does not depend on what was called before it.

Each case is a history of operations on a few objects and functions sharing
their inputs.  It is run in a child process; each of its operations is also
run alone, in a child process of its own in which nothing of tftb has run, and
must give the same result.  (The process that forks the children never runs
tftb, so each child starts from the same state.)"""

import os
import pickle
import random
import signal
import sys
import threading
import traceback
import warnings

import numpy as np
from hypothesis import strategies as st

import gens as G
import laws_options as O
from core import Law, Violation, require, sut

import matplotlib
import matplotlib.pyplot as plt
import mpl_toolkits.axes_grid1  # noqa: F401  (children share the import)
import mpl_toolkits.mplot3d  # noqa: F401
import tftb.generators as T
import tftb.processing as P
from tftb import utils as U
from tftb.processing import ambiguity, cohen, linear, postprocessing as PP
from tftb.processing import reassigned as R
from tftb.processing import utils as PU

plt.close(plt.subplots()[0])                      # load the fonts once


def in_child(func):
    """Run func() in a forked child; its result, or the Violation it raised."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            signal.alarm(0)
            try:
                out = ("ok", func())
            except Violation as v:
                out = ("violation", str(v))
            except BaseException as e:
                out = ("error", "".join(traceback.format_exception(type(e), e, e.__traceback__)))
            with os.fdopen(wr, "wb") as fh:
                pickle.dump(out, fh)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        raise Violation("the process died")
    kind, value = pickle.loads(data)
    if kind == "violation":
        raise Violation(value)
    if kind == "error":
        raise RuntimeError(value)
    return value


def settings():
    """The settings of the process that a call has no business to change."""
    return dict(errors=np.geterr(), filters=list(warnings.filters),
                printing=sorted(np.get_printoptions().items(), key=str),
                random=random.getstate(), pictures=dict(matplotlib.rcParams),
                interactive=plt.isinteractive(), folder=os.getcwd(),
                environment=dict(os.environ))


def watched(name, func, *args, **kwargs):
    """Call the code under test on valid input; the settings stay as they are."""
    def go():
        with np.errstate(divide="warn", over="warn", under="ignore", invalid="warn"):
            before = settings()
            out = func(*args, **kwargs)
            after = settings()
        for k in before:
            require(before[k] == after[k], "%s changes the settings of the process" % name,
                    which=k)
        return out
    return sut(go)


# -- the objects and functions ---------------------------------------------------

CLASSES = {
    "stft": P.ShortTimeFourierTransform, "spectrogram": P.Spectrogram,
    "wvd": P.WignerVilleDistribution, "pwvd": P.PseudoWignerVilleDistribution,
    "mh": P.MargenauHillDistribution, "pmh": cohen.PseudoMargenauHillDistribution,
    "page": cohen.PageRepresentation, "ppage": cohen.PseudoPageRepresentation,
    "scalogram": P.Scalogram, "bertrand": P.BertrandDistribution,
    "unterberger": P.UnterbergerDistribution, "dflandrin": P.DFlandrinDistribution,
}
AFFINE = ("scalogram", "bertrand", "unterberger", "dflandrin")


def make(op, pool):
    kw = {}
    if op["cls"] in AFFINE:
        kw.update(fmin=0.1, fmax=0.4, n_voices=op["bins"] or 12)
        if op["cls"] == "scalogram" and op["win"]:
            kw["waveparams"] = 4.0
        if op["cls"] == "unterberger" and op["win"]:
            kw["form"] = "P"
    else:
        if op["bins"]:
            kw["n_fbins"] = len(pool["x"][op["sig"]]) + op["bins"]
        if op["win"]:
            kw["fwindow"] = pool["win"]
        if op["ts"]:
            kw["timestamps"] = pool["ts"]
    return CLASSES[op["cls"]](pool["x"][op["sig"]], **kw)


def _rt(f):
    """A post-processing of a reassigned spectrogram."""
    def g(p, x, y):
        tfr, _, hat = R.spectrogram(x)
        return f(tfr, hat)
    return g


FUNCTIONS = {
    "spwv": lambda p, x, y: cohen.smoothed_pseudo_wigner_ville(x, fwindow=p["win"]),
    "spwv_default": lambda p, x, y: cohen.smoothed_pseudo_wigner_ville(x),
    "r_pwv": lambda p, x, y: R.pseudo_wigner_ville(x, fwindow=p["win"]),
    "r_pmh": lambda p, x, y: R.pseudo_margenau_hill(x, fwindow=p["win"]),
    "r_pmh_default": lambda p, x, y: R.pseudo_margenau_hill(x),
    "r_ppage": lambda p, x, y: R.pseudo_page(x, fwindow=p["win"]),
    "r_spwv": lambda p, x, y: R.smoothed_pseudo_wigner_ville(x, fwindow=p["win"]),
    "r_spectrogram": lambda p, x, y: R.spectrogram(x, window=p["win"]),
    "r_spectrogram_default": lambda p, x, y: R.spectrogram(x),
    "r_morlet": lambda p, x, y: R.morlet_scalogram(x),
    "gabor": lambda p, x, y: linear.gabor(x),
    "narrow_band": lambda p, x, y: ambiguity.narrow_band(x),
    "wide_band": lambda p, x, y: ambiguity.wide_band(x, fmin=0.1, fmax=0.4, N=12),
    "loctime": lambda p, x, y: P.loctime(x),
    "locfreq": lambda p, x, y: P.locfreq(x),
    "inst_freq": lambda p, x, y: P.inst_freq(x),
    "group_delay": lambda p, x, y: P.group_delay(x),
    "sigmerge": lambda p, x, y: T.sigmerge(x, y, 3.0),
    "scale": lambda p, x, y: T.scale(np.real(x), 1.5, 0.05, 0.45, 32),
    "hough": lambda p, x, y: PP.hough_transform(p["image"]),
    "renyi": lambda p, x, y: PP.renyi_information(p["image"], timestamps=p["tx"], freq=p["fx"]),
    "ideal": lambda p, x, y: PP.ideal_tfr(p["laws"]),
    "friedman": _rt(lambda t, h: PP.friedman_density(t, h)),
    "ridges": _rt(lambda t, h: PP.ridges(t, h)),
    "integrate": lambda p, x, y: PU.integrate_2d(p["image"], p["tx"], np.sort(p["fx"])),
    "derive": lambda p, x, y: PU.derive_window(p["win"]),
    "izak": lambda p, x, y: U.izak(x),
    "modulo": lambda p, x, y: U.modulo(p["ts"] + 1, 7),
    "nearest_odd": lambda p, x, y: U.nearest_odd(p["ts"] + 0.5),
    "atoms": lambda p, x, y: T.atoms(len(x), p["coords"]),
    "fmodany": lambda p, x, y: T.fmodany(p["laws"][0]),
    "fmlin": lambda p, x, y: T.fmlin(len(x), 0.1, 0.4),
    "fmsin": lambda p, x, y: T.fmsin(len(x)),
    "fmhyp": lambda p, x, y: T.fmhyp(len(x), (1, 0.4), (len(x), 0.1)),
    "fmpar": lambda p, x, y: T.fmpar(len(x), p["coef"]),
    "fmpower": lambda p, x, y: T.fmpower(len(x), 0.5, (0.2, 0.1)),
    "fmconst": lambda p, x, y: T.fmconst(len(x)),
    "amgauss": lambda p, x, y: T.amgauss(len(x)),
    "amexpos": lambda p, x, y: T.amexpos(len(x), kind="unilateral"),
    "amrect": lambda p, x, y: T.amrect(len(x)),
    "amtriang": lambda p, x, y: T.amtriang(len(x)),
    "anapulse": lambda p, x, y: T.anapulse(len(x)),
    "anastep": lambda p, x, y: T.anastep(len(x)),
    "anasing": lambda p, x, y: T.anasing(len(x), h=-0.5),
    "altes": lambda p, x, y: T.altes(len(x)),
    "klauder": lambda p, x, y: T.klauder(len(x)),
    "mexhat": lambda p, x, y: T.mexhat(),
    "gdpower": lambda p, x, y: T.gdpower(len(x)),
    "doppler": lambda p, x, y: T.doppler(len(x), 200.0, 50.0, 10.0, 30.0),
}
RANDOM = {
    "noisecg": lambda p, x, y: T.noisecg(len(x)),
    "noisecu": lambda p, x, y: T.noisecu(len(x)),
    "dopnoise": lambda p, x, y: T.dopnoise(len(x), 200.0, 50.0, 10.0, 30.0),
    "anaask": lambda p, x, y: T.anaask(len(x)),
    "anabpsk": lambda p, x, y: T.anabpsk(len(x)),
    "anafsk": lambda p, x, y: T.anafsk(len(x)),
    "anaqpsk": lambda p, x, y: T.anaqpsk(len(x)),
}


def make_pool(c):
    rs = np.random.RandomState(c["seed"])
    n = c["n"]
    x = [G.expand(dict(d, n=n)) for d in c["signals"]]
    half = 1 + rs.randint(3)
    win = 0.3 + rs.rand(2 * half + 1)
    m = 6
    return dict(x=x, win=win, ts=np.arange(n), image=rs.rand(m, n) + 0.1,
                tx=np.arange(n) * 0.5, fx=np.fft.fftfreq(m), laws=0.5 * rs.rand(2, n),
                coords=np.c_[1 + rs.rand(2) * n, 0.5 * rs.rand(2), 2 + rs.rand(2) * n, rs.rand(2)],
                coef=[0.1, 0.2 / n, 0.1 / n ** 2])


def flatten(v):
    """The arrays in a result, in order."""
    if isinstance(v, (tuple, list)):
        return [a for u in v for a in flatten(u)]
    return [v]


def copies(v):
    return [np.array(a) for a in flatten(v)]


def picture(fig):
    """What a figure shows."""
    out = []
    for ax in fig.axes:
        out.append(np.array(ax.get_xlim() + ax.get_ylim()))
        out.append(np.array([len(ax.images), len(ax.lines), len(ax.collections)]))
        for im in ax.images:
            out.append(np.ma.filled(im.get_array(), np.nan).astype(float))
            out.append(np.array(im.get_extent(), dtype=float))
        for ln in ax.lines:
            out.append(np.array(ln.get_data(), dtype=float))
        for col in ax.collections:
            for path in col.get_paths()[:50]:
                out.append(np.array(path.vertices, dtype=float))
    return out


def plot(obj, kw):
    def go():
        plt.close("all")
        before = dict(matplotlib.rcParams)
        obj.plot(show=False, **kw)
        require(dict(matplotlib.rcParams) == before, "plotting changes the settings of matplotlib")
        out = [p for k in plt.get_fignums() for p in picture(plt.figure(k))]
        plt.close("all")
        return out
    return sut(go)


def plot_kw(op):
    kw = dict(kind=op["kind"])
    if op.get("tf"):
        kw["show_tf"] = True
    elif op["kind"] in ("cmap", "contour"):
        kw["show_tf"] = False
    return kw


def seeded(op):
    np.random.seed(op["seed"])


def call(op, pool):
    table = RANDOM if op["fn"] in RANDOM else FUNCTIONS
    seeded(op)
    x, y = pool["x"][op["sig"]], pool["x"][(op["sig"] + 1) % len(pool["x"])]
    return watched(op["fn"], lambda: table[op["fn"]](pool, x, y))


def alone(c, i):
    """Operation i of the history, and what it needs, in a process of its own."""
    pool = make_pool(c)
    op = c["ops"][i]
    if op["op"] == "call":
        return copies(call(op, pool))
    if op["op"] == "discard":
        return []
    cls = c["objects"][op["slot"]]["cls"]
    obj = watched(cls, make, c["objects"][op["slot"]], pool)
    res = watched(cls, obj.run)
    if op["op"] == "plot":
        return plot(obj, plot_kw(op))
    return copies(res)


def same(a, b, what, tol=1e-9):
    require(len(a) == len(b), what + ": another number of results", got=len(a), expected=len(b))
    for k, (u, v) in enumerate(zip(a, b)):
        u, v = np.asarray(u), np.asarray(v)
        require(u.shape == v.shape, what + ": another shape", result=k, got=u.shape,
                expected=v.shape)
        require(u.dtype.kind == v.dtype.kind, what + ": another type", result=k)
        fin = np.isfinite(v)
        require(bool(np.array_equal(np.isfinite(u), fin)), what, result=k)
        if u.size and np.any(fin):
            scale = float(np.max(np.abs(v[fin]))) if v.dtype.kind in "fciub" else 1
            err = float(np.max(np.abs(u[fin].astype(complex) - v[fin].astype(complex))))
            require(err <= tol * scale, what, result=k, error=err, scale=scale)


def history(c):
    pool = make_pool(c)
    kept = pickle.loads(pickle.dumps(pool))
    slots = {}
    given = []                                   # (what, arrays handed out, their copies)
    results = []
    for i, op in enumerate(c["ops"]):
        if op["op"] == "call":
            name = op["fn"]
        else:
            name = op["op"] + " " + c["objects"][op["slot"]]["cls"]
            slot = op["slot"]
            if slot not in slots:
                slots[slot] = [sut(make, c["objects"][slot], pool), None]
        np.random.seed(op["seed"])
        state = np.random.get_state()
        err = np.geterr()
        if op["op"] == "discard":
            # the caller overwrites what belongs to an object, and drops it
            if op["scribble"] and slots[slot][1] is None:
                sut(slots[slot][0].run)
            inputs = [a for v in pool.values() for a in flatten(v) if isinstance(a, np.ndarray)]
            given = [g for g in given if g[1] != ("slot", slot)]
            for a in list(vars(slots.pop(slot)[0]).values()):
                if isinstance(a, np.ndarray) and a.flags.writeable and not any(
                        np.shares_memory(a, b) for b in inputs):
                    a[...] = 7
            mine = []
        elif op["op"] == "call":
            out = call(op, pool)
            mine = copies(out)
            if op["fn"] not in RANDOM:
                now = np.random.get_state()
                require(now[0] == state[0] and np.array_equal(now[1], state[1]) and
                        now[2:] == state[2:], name + " disturbs the random generator")
            if op.get("scribble"):
                # the caller overwrites what it was given
                inputs = [a for v in pool.values() for a in flatten(v) if isinstance(a, np.ndarray)]
                for a in flatten(out):
                    if isinstance(a, np.ndarray) and a.flags.writeable and not any(
                            np.shares_memory(a, b) for b in inputs):
                        a[...] = 7
            else:
                given.append((name, i, flatten(out), mine))
        elif op["op"] == "run":
            if slots[slot][1] is None or not op.get("scribble"):
                out = sut(slots[slot][0].run)
            else:
                # the caller overwrites what an earlier run gave it
                for a in slots[slot][1]:
                    if isinstance(a, np.ndarray) and a.ndim == 2 and a.flags.writeable:
                        a[...] = 7
                given = [g for g in given if g[1] != ("slot", slot)]
                out = sut(slots[slot][0].run)
                name += " after its result was overwritten"
            mine = copies(out)
            slots[slot][1] = flatten(out)
            given.append((name, ("slot", slot), flatten(out), mine))
        else:
            if slots[slot][1] is None:
                out = sut(slots[slot][0].run)
                slots[slot][1] = flatten(out)
                given.append((name, ("slot", slot), flatten(out), copies(out)))
            mine = plot(slots[slot][0], plot_kw(op))
        if op["op"] != "call":
            now = np.random.get_state()
            require(np.array_equal(now[1], state[1]) and now[2:] == state[2:],
                    name + " disturbs the random generator")
        require(np.geterr() == err, name + " changes numpy's error handling")
        results.append(mine)
        for k in pool:
            same(flatten(pool[k]), flatten(kept[k]), "%s changes its input" % name, 0.0)
        for what, _, arrays, then in given:
            same(arrays, then, "%s changes the result of %s" % (name, what), 0.0)
    return results


def describe(c, i):
    op = c["ops"][i]
    return op["fn"] if op["op"] == "call" else op["op"] + " " + c["objects"][op["slot"]]["cls"]


def check_history(c):
    got = in_child(lambda: history(c))
    fresh = []
    for i, op in enumerate(c["ops"]):
        if op in c["ops"][:i]:
            fresh.append(fresh[c["ops"].index(op)])
        else:
            fresh.append(in_child(lambda: alone(c, i)))
        same(got[i], fresh[i], "%s depends on what was done before" % describe(c, i))
    return "plots" if any(o["op"] == "plot" for o in c["ops"]) else len(c["ops"]) > 1


SIG = st.fixed_dictionaries(dict(
    kind=st.sampled_from(("noise", "chirp", "atom", "two_tones")), seed=G.SEEDS,
    dtype=st.sampled_from(("complex128", "complex128", "float64")),
    layout=st.sampled_from(("C", "readonly", "strided")), amp=st.just(1.0)))


@st.composite
def histories(draw, plots):
    objects = draw(st.lists(st.fixed_dictionaries(dict(
        cls=st.sampled_from(sorted(CLASSES)), sig=st.integers(0, 1),
        bins=st.sampled_from((0, 0, 8)), win=st.booleans(), ts=st.booleans())),
        min_size=1, max_size=3))
    slots = st.integers(0, len(objects) - 1)
    call_op = st.fixed_dictionaries(dict(
        op=st.just("call"), fn=st.sampled_from(sorted(FUNCTIONS) + sorted(RANDOM)),
        sig=st.integers(0, 1), seed=st.integers(0, 3), scribble=st.booleans()))
    run_op = st.fixed_dictionaries(dict(op=st.just("run"), slot=slots, scribble=st.booleans(),
                                        seed=st.integers(0, 3)))
    discard_op = st.fixed_dictionaries(dict(op=st.just("discard"), slot=slots,
                                            scribble=st.booleans(), seed=st.integers(0, 3)))
    plot_op = st.fixed_dictionaries(dict(
        op=st.just("plot"), slot=slots, seed=st.integers(0, 3), tf=st.booleans(),
        kind=st.sampled_from(("cmap", "contour", "cmap", "contour", "surf", "wireframe"))))
    if plots:
        ops = draw(st.lists(st.one_of(run_op, plot_op), min_size=2, max_size=4))
    else:
        ops = draw(st.lists(st.one_of(call_op, call_op, run_op, run_op, discard_op), min_size=1, max_size=5))
        again = draw(st.lists(st.integers(0, len(ops) - 1), min_size=1, max_size=3))
        ops = ops + [ops[k] for k in again]
    return dict(n=draw(st.integers(18, 34)), seed=draw(G.SEEDS), objects=objects, ops=ops,
                signals=[draw(SIG), draw(SIG)])


# -- every array a call can be given, untouched -----------------------------------

def entries(rs, n, x, y):
    """Entry points with every array argument they document: name -> (call, arrays)."""
    w, v = 0.3 + rs.rand(2 * rs.randint(1, 4) + 1), 0.3 + rs.rand(2 * rs.randint(1, 4) + 1)
    ts = np.arange(n)
    some = np.arange(1 + rs.randint(3), n + 1, 1 + rs.randint(3))
    image, tx, fx = rs.randn(7, n), np.cumsum(0.2 + rs.rand(n)), np.sort(rs.rand(7))
    hat = rs.randint(0, 7, (7, n)) + 1j * rs.randint(0, n, (7, n))
    coords = np.c_[rs.rand(3) * n, rs.rand(3) * 0.5, 1 + rs.rand(3) * n, rs.randn(3)]
    two = np.ascontiguousarray(np.c_[np.real(x), np.real(y)])
    out = {}
    for name, cls in CLASSES.items():
        if name in AFFINE:
            for shape, sig in (("", np.real(x).copy()), ("_cross", two)):
                if name == "scalogram" and shape:
                    continue
                out[name + shape] = (lambda cls, sig, ts: cls(
                    sig, timestamps=ts, fmin=0.1, fmax=0.4, n_voices=10).run(), (cls, sig, ts))
        else:
            out[name] = (lambda cls, x, ts, w: cls(x, timestamps=ts, n_fbins=n + 3,
                                                   fwindow=w).run(), (cls, x, ts, w))
    for name, f in (("r_pwv", R.pseudo_wigner_ville), ("r_pmh", R.pseudo_margenau_hill),
                    ("r_ppage", R.pseudo_page)):
        t = ts if name != "r_pwv" else ts + 1
        out[name] = (lambda f, x, t, w: f(x, t, n + 4, w), (f, x, t, w))
    out.update({
        "spwv": (cohen.smoothed_pseudo_wigner_ville, (x, some, n, v, w)),
        "r_spwv": (R.smoothed_pseudo_wigner_ville, (x, some, n, v, w)),
        "r_spectrogram": (R.spectrogram, (x, some, n, w)),
        "r_morlet": (R.morlet_scalogram, (x, ts, n)),
        "gabor": (linear.gabor, (x,)),
        "narrow_band": (ambiguity.narrow_band, (x, np.arange(-3, 4), n)),
        "wide_band": (ambiguity.wide_band, (x, 0.1, 0.4, 10)),
        "loctime": (P.loctime, (x,)), "locfreq": (P.locfreq, (x,)),
        "inst_freq": (P.inst_freq, (x, np.arange(2, n))),
        "group_delay": (P.group_delay, (x, np.linspace(0.05, 0.45, 5))),
        "sigmerge": (T.sigmerge, (x, y, 2.0)),
        "scale": (T.scale, (np.real(x).copy(), np.array([0.5, 2.0]), 0.05, 0.45, 16)),
        "atoms": (T.atoms, (n, coords)), "atoms_one": (T.atoms, (n, coords[0].copy())),
        "fmodany": (T.fmodany, (rs.rand(n) * 0.5, 3)),
        "fmpar": (T.fmpar, (n, np.array([0.1, 0.1 / n, 0.1 / n ** 2]))),
        "fmpower": (T.fmpower, (n, 0.5, np.array([2.0, 0.4, n, 0.1]))),
        "fmhyp": (T.fmhyp, (n, np.array([1.0, 0.4]), np.array([float(n), 0.1]))),
        "hough": (PP.hough_transform, (image, 9, 11)),
        "renyi": (PP.renyi_information, (image ** 2 + 0.1, tx, fx[::-1].copy(), 2.0)),
        "renyi_1": (PP.renyi_information, (image ** 2 + 0.1, np.arange(n), fx, 1)),
        "ideal": (PP.ideal_tfr, (np.where(rs.rand(2, n) < 0.1, np.nan, rs.rand(2, n) * 0.5),
                                 np.arange(0, n, 2), 9)),
        "friedman": (PP.friedman_density, (image ** 2, hat, np.arange(n))),
        "ridges": (PP.ridges, (image ** 2, hat, np.arange(n), "rsp")),
        "ridges_spwv": (PP.ridges, (image ** 2, hat, np.arange(n), "rspwv")),
        "ridges_pwv": (PP.ridges, (image ** 2, np.real(hat).copy(), np.arange(n), "rpwv")),
        "integrate": (PU.integrate_2d, (image, np.arange(n) * 0.5, fx)),
        "derive": (PU.derive_window, (w,)), "spectrum": (PU.get_spectrum, (x,)),
        "izak": (U.izak, (rs.randn(4, 3) + 1j * rs.randn(4, 3),)), "izak_1d": (U.izak, (x,)),
        "modulo": (U.modulo, (np.arange(1, n), 5)), "is_linear": (U.is_linear, (tx,)),
        "nearest_odd": (U.nearest_odd, (tx * 3,)), "nextpow2": (U.nextpow2, (tx + 1,)),
    })
    return out


@st.composite
def input_cases(draw):
    return dict(name=draw(st.sampled_from(NAMES)), n=draw(st.integers(18, 30)), seed=draw(G.SEEDS),
                frozen=draw(st.booleans()), real=draw(st.booleans()))


def check_inputs(c):
    """No array handed to a call is changed by it, and a second call with the
    same arrays gives the same result; arrays that cannot be written work."""
    rs = np.random.RandomState(c["seed"])
    x, y = rs.randn(c["n"]) + 1j * rs.randn(c["n"]), rs.randn(c["n"]) + 1j * rs.randn(c["n"])
    if c["real"]:
        x, y = np.real(x).copy(), np.real(y).copy()
    func, args = entries(rs, c["n"], x, y)[c["name"]]
    kept = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
    if c["frozen"]:
        for a in args:
            if isinstance(a, np.ndarray):
                a.flags.writeable = False
    first = copies(sut(func, *args))
    for k, (a, b) in enumerate(zip(args, kept)):
        if isinstance(a, np.ndarray):
            require(a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes(),
                    "%s changes its input" % c["name"], argument=k)
    same(copies(sut(func, *args)), first, "%s called twice" % c["name"])
    return c["name"]


# -- the same entry point again, with other arguments ------------------------------

def _coords(rs, n):
    return np.c_[1 + rs.rand(2) * n, 0.5 * rs.rand(2), 2 + rs.rand(2) * n, rs.rand(2)]


def _moving(c):
    r = c["rs"].rand(4)
    return (c["n"], 100.0 + 100 * r[0], 50.0 * r[1], 5 + 10 * r[2], 40 * r[3])


MORE = {
    "fmpar": (T.fmpar, lambda c: (c["n"], tuple(c["rs"].rand(3) * (0.1, 0.1 / c["n"],
                                                                 0.1 / c["n"] ** 2))), []),
    "fmhyp": (T.fmhyp, lambda c: (c["n"], (1 + c["rs"].rand(), 0.3), (c["n"], 0.1)), []),
    "fmpower": (T.fmpower, lambda c: (c["n"], 0.5 + c["rs"].rand() / 3,
                                      tuple(0.2 * c["rs"].rand(2))), []),
    "atoms": (T.atoms, lambda c: (c["n"], _coords(c["rs"], c["n"])), []),
    "scale": (T.scale, lambda c: (np.real(c["x"]), 0.6 + c["rs"].rand(), 0.05 + 0.1 *
                                  c["rs"].rand(), 0.3 + 0.2 * c["rs"].rand(), 16), []),
    "doppler": (T.doppler, _moving, O.ENTRIES["doppler"][2]),
    "dopnoise": (T.dopnoise, _moving, O.ENTRIES["dopnoise"][2]),
    "loctime": (P.loctime, O.need_x, []),
    "locfreq": (P.locfreq, O.need_x, []),
    "noisecu": (T.noisecu, O.need_n, []),
    "izak": (U.izak, lambda c: (c["rs"].randn(4, c["n"] // 4),), []),
    "divider": (U.divider, lambda c: (int(c["rs"].randint(2, 500)),), []),
    "nextpow2": (U.nextpow2, lambda c: (int(c["rs"].randint(1, 500)),), []),
    "nearest_odd": (U.nearest_odd, lambda c: (100 * c["rs"].rand(5),), []),
    "modulo": (U.modulo, lambda c: (c["rs"].randint(-50, 50, 9), int(c["rs"].randint(2, 9))), []),
    "derive": (PU.derive_window, lambda c: (c["rs"].rand(2 * (c["n"] // 4) + 1),), []),
    "spectrum": (PU.get_spectrum, O.need_x, []),
    "cross_bertrand": (O.run(P.BertrandDistribution), lambda c: (np.real(np.c_[c["x"], c["y"]]),),
                       O.ENTRIES["bertrand"][2]),
    "cross_unterberger": (O.run(P.UnterbergerDistribution),
                          lambda c: (np.real(np.c_[c["x"], c["y"]]),), O.ENTRIES["unterberger"][2]),
    "cross_dflandrin": (O.run(P.DFlandrinDistribution),
                        lambda c: (np.real(np.c_[c["x"], c["y"]]),), O.ENTRIES["dflandrin"][2]),
}
AGAIN = dict(O.ENTRIES, **MORE)
ROUND = sorted(AGAIN)


def alter(v):
    """Another value of the same kind."""
    if isinstance(v, np.ndarray):
        return v - 1 if v.dtype.kind in "iu" else v * np.linspace(0.8, 1.2, len(v))
    if isinstance(v, (int, np.integer)) and not isinstance(v, bool):
        return v + 1
    if isinstance(v, float):
        return v * 0.9375
    return v


@st.composite
def again_cases(draw):
    name = draw(st.integers(0, len(ROUND) - 1).map(lambda k: ROUND[k]))
    params = AGAIN[name][2]
    band = name in O.BAND or name.startswith("cross")

    def variant():
        how = []
        for p, default, other in params:
            choices = (["omit"] if default else []) + (["other", "alter"] if other else [])
            how.append(draw(st.sampled_from(choices or ["omit"])))
        return dict(how=how, n=0, seed=0)

    first = variant()
    calls = [first]
    for _ in range(draw(st.integers(1, 3))):
        v = dict(calls[0], how=list(calls[0]["how"]))
        what = draw(st.sampled_from(("option", "option", "signal", "length") if params else
                                    ("signal", "length")))
        if what == "option":
            k = draw(st.integers(0, len(params) - 1))
            v["how"][k] = variant()["how"][k]
        elif what == "signal":
            v["seed"] = draw(st.integers(1, 2))
        else:
            v["n"] = draw(st.integers(1, 2))
        calls.append(v)
    if draw(st.booleans()):
        calls.append(calls[0])
    return dict(name=name, n=draw(st.integers(24 if band else 18, 34)),
                seed=draw(G.SEEDS), calls=calls, scribble=draw(st.booleans()))


def variant_call(c, v):
    func, required, params = AGAIN[c["name"]]
    base = c["name"].split("_")[-1] if c["name"].startswith("cross") else c["name"]
    ctx = O.context(dict(name=base, n=c["n"] + v["n"], seed=(c["seed"] + v["seed"]) % 2 ** 31))
    args = required(ctx)
    ctx["bins"] = ctx["n"]
    kw = {}
    for (p, default, other), how in zip(params, v["how"]):
        if how != "omit":
            kw[p] = other(ctx) if how == "other" else alter(other(ctx))
    np.random.seed(5)
    return watched(c["name"], func, *args, **kw)


def check_again(c):
    """Calls of one entry point that share some arguments and not others:
    each gives what it gives in a fresh process."""
    def sequence():
        out = []
        for v in c["calls"]:
            r = variant_call(c, v)
            out.append(copies(r))
            if c["scribble"]:
                for a in flatten(r):
                    if isinstance(a, np.ndarray) and a.flags.writeable:
                        a[...] = 3
        return out

    got = in_child(sequence)
    for i, v in enumerate(c["calls"]):
        if v in c["calls"][:i]:
            continue
        fresh = in_child(lambda: copies(variant_call(c, v)))
        for j in range(i, len(c["calls"])):
            if c["calls"][j] == v:
                same(got[j], fresh, "%s depends on its earlier calls" % c["name"])
    return c["name"] if any(v != c["calls"][0] for v in c["calls"]) else False


# -- calls that overlap ------------------------------------------------------------

def _jobs(c):
    """The same entry point in each thread with another signal, or two of them."""
    out = []
    for k, name in enumerate(c["names"]):
        rs = np.random.RandomState((c["seed"] + k) % 2 ** 31)
        n = c["n"] + (k if c["lengths"] else 0)
        x, y = rs.randn(n) + 1j * rs.randn(n), rs.randn(n) + 1j * rs.randn(n)
        out.append(entries(rs, n, x, y)[name])
    return out


@st.composite
def thread_cases(draw):
    names = draw(st.one_of(st.sampled_from(NAMES).map(lambda a: [a, a]),
                           st.sampled_from(NAMES).map(lambda a: [a, a, a]),
                           st.lists(st.sampled_from(NAMES), min_size=2, max_size=3)))
    return dict(names=names, n=draw(st.integers(18, 30)), seed=draw(G.SEEDS), lengths=draw(st.booleans()))


def check_threads(c):
    """Calls that overlap in time give what they give one after the other."""
    def overlapping():
        jobs = _jobs(c)
        got = [[] for _ in jobs]
        start = threading.Barrier(len(jobs))

        def work(k):
            func, args = jobs[k]
            start.wait()
            try:
                for _ in range(4):
                    got[k].append(copies(func(*args)))
            except Exception as e:
                got[k].append("%s: %s" % (type(e).__name__, e))
        sys.setswitchinterval(2e-6)
        threads = [threading.Thread(target=work, args=(k,)) for k in range(len(jobs))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        return got

    base = in_child(lambda: [copies(sut(f, *a)) for f, a in _jobs(c)])
    got = in_child(overlapping)
    for name, results, expected in zip(c["names"], got, base):
        for r in results:
            require(not isinstance(r, str), "%s fails beside another call" % name, error=r)
            same(r, expected, "%s depends on a call beside it" % name)
    return c["names"][0] if len(set(c["names"])) == 1 else True


NAMES = sorted(entries(np.random.RandomState(0), 20, np.zeros(20), np.zeros(20)))

C30 = [Law("inputs", input_cases(), check_inputs, 500),
       Law("again", again_cases(), check_again, 400),
       Law("calls", histories(False), check_history, 250),
       Law("threads", thread_cases(), check_threads, 100),
       Law("plots", histories(True), check_history, 60)]
