"""Laws of the signal generators (C01 - C11)."""

import warnings

import numpy as np
from hypothesis import strategies as st

import gens as G
import laws_options as O
import ref
from core import Law, close, refused, require, sut, warns

import tftb.generators as T

PI = np.pi


def vector(y, n, what, kinds="fcib"):
    y = np.asarray(y)
    require(y.ndim == 1, what + ": not one dimensional", shape=y.shape)
    require(y.shape[0] == n, what + ": wrong number of samples", got=y.shape[0], expected=n)
    require(y.dtype.kind in kinds, what + ": unexpected type", dtype=y.dtype)
    require(bool(np.all(np.isfinite(y))), what + ": not finite")
    return y


# -- C01 every generator returns the requested number of samples ------------

BIG = 6000


def _opt(s):
    """A parameter that may be left out."""
    return st.one_of(st.none(), s)


def call(func, n, case, names):
    kw = {k: case[k] for k in names if case.get(k) is not None}
    return sut(func, n, **kw)


def _sym(n):
    """Numbers of points per symbol."""
    return st.one_of(st.integers(1, 2 * n + 2), st.integers(1, min(n, 8)),
                     st.integers(1, max(1, n)).map(float))


@st.composite
def length_cases(draw):
    name = draw(st.sampled_from((
        "amgauss", "amexpos", "amrect", "amtriang", "fmconst", "fmlin", "fmsin", "fmpar",
        "fmpower", "fmhyp", "fmodany", "anaask", "anabpsk", "anafsk", "anaqpsk", "anapulse",
        "anastep", "anasing", "noisecg", "noisecu", "dopnoise", "doppler", "altes", "klauder",
        "gdpower", "atoms", "sigmerge", "mexhat", "scale")))
    lo = {"anasing": 4, "klauder": 2, "gdpower": 4, "doppler": 2,
          "dopnoise": 2, "noisecg": 1, "scale": 16}.get(name, 1)
    hi = 60 if name in ("dopnoise", "scale") else 130
    n = draw(G.lengths(lo, hi, 400 if name == "dopnoise" else 90 if name == "scale" else BIG))
    c = dict(name=name, n=n, seed=draw(G.SEEDS))
    if name.startswith("am"):
        c["t0"] = draw(_opt(G.reals(-5.0, n + 5.0)))
        c["spread"] = draw(_opt(G.reals(0.1, 3.0 * n + 1)))
        if name == "amexpos":
            c["kind"] = draw(_opt(st.sampled_from(("bilateral", "unilateral"))))
    elif name == "fmconst":
        c["fnorm"] = draw(_opt(G.freqs(-0.5, 0.5)))
        c["t0"] = draw(_opt(G.reals(-5.0, n + 5.0)))
    elif name == "fmlin":
        c["fnormi"], c["fnormf"] = draw(_opt(G.freqs(-0.5, 0.5))), draw(_opt(G.freqs(-0.5, 0.5)))
        c["t0"] = draw(_opt(st.integers(1, n)))
    elif name == "fmsin":
        c["fnormin"] = draw(_opt(G.reals(0.0, 0.2)))
        c["fnormax"] = draw(_opt(G.reals(0.3, 0.5)))
        c["fnorm0"] = draw(_opt(G.reals(0.2, 0.3)))
        c["period"] = draw(_opt(G.reals(0.5, 2.0 * n)))
        c["t0"] = draw(_opt(G.reals(0.0, float(n))))
        c["pm1"] = draw(_opt(st.sampled_from((-1, 1))))
    elif name in ("anaask", "anabpsk", "anaqpsk"):
        c["n_comp"] = draw(_opt(_sym(n)))
        c["f0"] = draw(_opt(G.freqs()))
    elif name == "anafsk":
        c["n_comp"] = draw(_opt(_sym(n)))
        c["Nbf"] = draw(_opt(st.integers(1, 12)))
    elif name in ("anapulse", "anastep"):
        c["ti"] = draw(_opt(st.integers(0, n - 1)))
    elif name == "anasing":
        c["t0"] = draw(_opt(G.reals(0.0, float(n))))
        c["h"] = draw(_opt(G.reals(-1.5, 2.0)))
    elif name == "altes":
        c["fmin"] = draw(_opt(G.reals(0.01, 0.2)))
        c["fmax"] = draw(_opt(G.reals(0.25, 0.5)))
        c["alpha"] = draw(_opt(G.reals(1.5, 20000.0)))
    elif name == "klauder":
        c["attenuation"] = draw(_opt(G.reals(1.0, 30.0)))
        c["f0"] = draw(_opt(G.reals(0.05, 0.45)))
    elif name == "gdpower":
        c["degree"] = draw(_opt(G.reals(-2.0, 3.0, (0, 1, 2, -1, 0.5))))
        c["rate"] = draw(_opt(G.reals(0.05, 3.0)))
    elif name == "fmpar":
        c["law"] = [draw(G.reals(0.0, 0.5)), draw(G.reals(-0.5, 0.5)), draw(G.reals(-0.5, 0.5))]
    elif name == "fmpower":
        c["k"] = draw(st.one_of(st.sampled_from((0.5, 2.0, 3.0, -1.0)), G.reals(0.1, 0.9)))
        c["law"] = draw(st.one_of(
            st.tuples(G.reals(0.0, 0.4), G.reals(0.01, 0.1)),
            st.tuples(G.reals(1.0, 5.0), G.freqs(), G.reals(6.0, 200.0), G.freqs()))
            .map(list))
    elif name == "fmhyp":
        c["law"] = [draw(G.reals(1.0, 5.0)), draw(G.freqs()), draw(G.reals(6.0, 200.0)),
                    draw(G.freqs())]
    elif name == "fmodany":
        c["column"], c["t0"] = draw(st.booleans()), draw(_opt(st.integers(1, n)))
    elif name in ("doppler", "dopnoise"):
        c["s_freq"] = draw(st.sampled_from((1.0, 200.0, 8000.0)))
        c["part"] = draw(G.reals(0.01, 0.5))
        c["distance"], c["v"] = draw(G.reals(0.5, 100.0)), draw(G.reals(0.0, 500.0))
        c["centre"], c["wave"] = draw(_opt(st.integers(1, n))), draw(_opt(G.reals(100.0, 2000.0)))
    elif name == "atoms":
        c["rows"], c["flat"] = draw(st.integers(1, 5)), draw(st.booleans())
    elif name == "sigmerge":
        c["ratio"] = draw(_opt(G.reals(-30.0, 30.0)))
        c["complex"] = draw(st.booleans())
    elif name == "mexhat":
        c["nu"] = draw(_opt(G.reals(0.005, 0.5)))
    elif name == "scale":
        c["a"] = draw(st.one_of(G.reals(0.5, 2.5),
                                st.lists(G.reals(0.5, 2.5), min_size=1, max_size=3)))
    return c


def check_length(c):
    name, n = c["name"], c["n"]
    np.random.seed(c["seed"])
    f = getattr(T, name)
    outs = None
    if name.startswith("am") or name in ("fmconst", "fmlin", "fmsin", "anaask", "anabpsk",
                                         "anaqpsk", "anafsk", "anapulse", "anastep", "anasing",
                                         "altes", "klauder", "gdpower"):
        outs = call(f, n, c, ("t0", "spread", "kind", "fnormin", "fnormax", "fnorm0", "fnorm", "fnormi", "fnormf", "period", "pm1",
                              "n_comp", "f0", "Nbf", "ti", "h", "fmin", "fmax", "alpha",
                              "attenuation", "degree", "rate"))
    elif name == "fmpar":
        a0, a1, a2 = c["law"]
        outs = sut(f, n, (a0, a1 / n, a2 / n ** 2))
    elif name == "fmpower":
        outs = sut(f, n, c["k"], tuple(c["law"]))
    elif name == "fmhyp":
        outs = sut(f, n, tuple(c["law"][:2]), tuple(c["law"][2:]))
    elif name == "fmodany":
        law = np.random.RandomState(c["seed"]).rand(n) - 0.5
        outs = call(f, law.reshape(-1, 1) if c["column"] else law, c, ("t0",))
    elif name in ("noisecg", "noisecu"):
        outs = sut(f, n)
    elif name in ("dopnoise", "doppler"):
        late = ("time_center", "c") if name == "dopnoise" else ("t0", "v_wave")
        kw = {k: v for k, v in zip(late, (c["centre"], c["wave"])) if v is not None}
        outs = sut(f, n, c["s_freq"], c["part"] * c["s_freq"], c["distance"], c["v"], **kw)
    elif name == "atoms":
        rs = np.random.RandomState(c["seed"])
        rows = np.c_[1 + (n - 1) * rs.rand(c["rows"]), 0.5 * rs.rand(c["rows"]),
                     1 + n * rs.rand(c["rows"]), 0.1 + rs.rand(c["rows"])]
        outs = sut(f, n, rows[0] if c["flat"] else rows)
    elif name == "sigmerge":
        rs = np.random.RandomState(c["seed"])
        x = [rs.randn(n) + (1j * rs.randn(n) if c["complex"] else 0) for k in range(2)]
        outs = sut(f, *x) if c["ratio"] is None else sut(f, x[0], x[1], c["ratio"])
    elif name == "mexhat":
        nu = 0.05 if c["nu"] is None else c["nu"]
        k = 1.5 / nu
        if abs(k - round(k)) < 1e-9:
            return False                            # a rounding may add a sample
        outs = sut(f) if c["nu"] is None else sut(f, nu)
        n = 2 * int(np.ceil(k)) + 1
    elif name == "scale":
        a = np.array(c["a"]) if isinstance(c["a"], list) else c["a"]
        halves = n / 2.0 * np.atleast_1d(a)
        if np.any(np.abs(halves - np.round(halves)) < 1e-9) and np.any(np.atleast_1d(a) % 0.25):
            return False
        outs = sut(f, np.random.RandomState(c["seed"]).randn(n), a, 0.1, 0.4, 32)
        n = 2 * int(np.max(np.ceil(halves)))
        if isinstance(c["a"], list):
            require(np.shape(outs) == (n, len(c["a"])), "scale: shape", got=np.shape(outs))
            require(bool(np.all(np.isfinite(outs))), "scale: not finite")
            return "scales"
    if not isinstance(outs, tuple):
        outs = (outs,)
    for i, y in enumerate(outs):
        expected = n
        if name == "gdpower" and i > 0:
            expected = (n + 1) // 2
        vector(y, expected, "%s output %d" % (name, i))
    return name


SHORTEST = {"fmlin": 1, "anasing": 4, "altes": 1, "klauder": 2, "gdpower": 4, "doppler": 2,
            "dopnoise": 2}
MADE = [k for k in sorted(O.ENTRIES) if hasattr(T, k)]


@st.composite
def default_cases(draw):
    name = draw(st.sampled_from(MADE))
    lo = SHORTEST.get(name, 5)
    params = O.ENTRIES[name][2]
    return dict(name=name, n=draw(G.lengths(lo, 60, 300)), seed=draw(G.SEEDS),
                how=[draw(st.sampled_from(("omit", "omit", "other"))) for p in params])


def check_defaults(c):
    """What is left out takes its documented default, whatever else is given."""
    func, required, params = O.ENTRIES[c["name"]]
    ctx = O.context(c)
    args = required(ctx)
    kw, full = {}, {}
    for (p, default, other), how in zip(params, c["how"]):
        if how == "other" and other is not None and c["n"] >= 5:
            kw[p] = full[p] = other(ctx)
        elif default is not None:
            full[p] = default(ctx)
    if c["name"] == "fmsin" and "fnorm0" not in full:
        full["fnorm0"] = 0.5 * (full["fnormin"] + full["fnormax"])
    if len(kw) == len(full):
        return False
    out = []
    for k in (kw, full):
        np.random.seed(c["seed"] % 1000)
        out.append(O.flat(sut(func, *args, **k)))
    O.same(out[0], out[1], "%s: a parameter left out does not take its default" % c["name"])
    return c["name"]


C01 = [Law("lengths", length_cases(), check_length, 3000),
       Law("defaults", default_cases(), check_defaults, 800)]


# -- C02 amplitude modulations ----------------------------------------------

@st.composite
def am_cases(draw):
    n = draw(G.lengths(1, 90, BIG))
    return dict(kind=draw(st.sampled_from(("gauss", "bilateral", "unilateral", "rect",
                                           "triang"))), n=n,
                t0=draw(st.one_of(st.none(), st.integers(-3, n + 3), G.reals(-n, 2.0 * n))),
                spread=draw(st.one_of(st.none(), G.reals(0.05, 4.0 * n + 1),
                                      st.integers(1, 4 * n))))


def am_reference(kind, n, t0, spread):
    t = np.arange(n, dtype=float)
    c = float(round(n / 2.0)) if t0 is None else float(t0)
    s = 2 * np.sqrt(n) if spread is None else float(spread)
    if kind == "gauss":            # its instants are counted from one
        return np.exp(-PI * ((t + 1 - c) / s) ** 2)
    d = t - c
    if kind == "bilateral":
        return np.exp(-np.sqrt(2 * PI) * np.abs(d) / s)
    if kind == "unilateral":
        return np.where(d >= 0, np.exp(-np.sqrt(PI) * np.maximum(d, 0) / s), 0.0)
    if kind == "rect":
        return (np.abs(d) <= 0.5 * s * np.sqrt(3 / PI)).astype(float)
    L = np.sqrt(10 / PI) * s / 2
    return np.maximum(0.0, 1 - np.abs(d) / L)


def am_call(c):
    kw = {k: c[k] for k in ("t0", "spread") if c[k] is not None}
    f = {"gauss": T.amgauss, "rect": T.amrect, "triang": T.amtriang}.get(c["kind"], T.amexpos)
    if c["kind"] in ("bilateral", "unilateral"):
        if not (c["kind"] == "bilateral" and c["n"] % 2):   # also as the default
            kw["kind"] = c["kind"]
    return sut(f, c["n"], **kw)


def check_am(c):
    y = vector(am_call(c), c["n"], c["kind"]).astype(float)
    e = am_reference(c["kind"], c["n"], c["t0"], c["spread"])
    if c["kind"] == "rect":
        s = 2 * np.sqrt(c["n"]) if c["spread"] is None else float(c["spread"])
        t0 = float(round(c["n"] / 2.0)) if c["t0"] is None else float(c["t0"])
        edge = np.abs(np.abs(np.arange(c["n"]) - t0) - 0.5 * s * np.sqrt(3 / PI)) < 1e-9 * (1 + s)
        y, e = y[~edge], e[~edge]
        require(set(np.unique(y)) <= {0.0, 1.0}, "rectangle takes other values than 0 and 1")
    close(y, e, "envelope " + c["kind"], 1e-10, scale=1.0)
    require(bool(np.all(y >= 0) and np.all(y <= 1 + 1e-12)), "envelope leaves [0, 1]")
    return c["kind"] if np.any(e > 1e-12) and c["n"] > 2 else False


@st.composite
def am_moment_cases(draw):
    n = draw(st.integers(60, 300))
    return dict(kind=draw(st.sampled_from(("gauss", "bilateral", "rect", "triang"))), n=n,
                t0=draw(st.integers(-6, 6).map(lambda k: n // 2 + k)),
                spread=draw(G.reals(n / 12.0 + 3, n / 8.0 + 3)), shift=draw(st.integers(-5, 5)))


def check_am_moments(c):
    """The documented meaning of the centre and the spread, measured."""
    y = am_call(c).astype(float)
    t = np.arange(c["n"]) + (1 if c["kind"] == "gauss" else 0)
    w = y ** 2 / np.sum(y ** 2)
    tm = np.sum(w * t)
    spread = 2 * np.sqrt(PI * np.sum(w * (t - tm) ** 2))
    require(abs(tm - c["t0"]) < 0.05 * c["spread"] + 0.1, "centre of the envelope",
            got=tm, expected=c["t0"])
    # the four shapes agree with their nominal spread to discretisation error
    require(abs(spread - c["spread"]) < 0.25 * c["spread"], "spread of the envelope",
            got=spread, expected=c["spread"])
    moved = am_call(dict(c, t0=c["t0"] + c["shift"])).astype(float)
    k = c["shift"]
    a = y[max(0, -k):c["n"] - max(0, k)]
    b = moved[max(0, k):c["n"] + min(0, k)]
    close(b, a, "translated envelope", 1e-10, scale=1.0)
    return c["kind"]


C02 = [Law("closed_form", am_cases(), check_am, 3000),
       Law("centre_and_spread", am_moment_cases(), check_am_moments, 800)]


# -- C03 frequency modulations ------------------------------------------------

def unit(y, what):
    require(bool(np.all(np.abs(np.abs(y) - 1) < 1e-9)), what + ": modulus is not one",
            worst=np.max(np.abs(np.abs(y) - 1)))


def cycles(y, phase, what, scale=1.0):
    """y = exp(2 i pi phase), with the rounding a phase of that size has."""
    tol = 1e-9 + 1e-13 * 2 * PI * scale * max(1.0, float(np.max(np.abs(phase))))
    close(y, np.exp(2j * PI * (phase - np.floor(phase))), what, tol, scale=1.0)


@st.composite
def fmconst_cases(draw):
    n = draw(G.lengths(1, 80, BIG))
    return dict(n=n, f=draw(_opt(G.freqs(-0.5, 0.5))),
                t0=draw(st.one_of(st.none(), st.integers(-2, n + 2), G.reals(0.0, float(n)),
                                     G.reals(-2.0 * n, 4.0 * n))))


def check_fmconst(c):
    kw = {k: v for k, v in (("fnorm", c["f"]), ("t0", c["t0"])) if v is not None}
    y, law = sut(T.fmconst, c["n"], **kw)
    vector(y, c["n"], "fmconst"), vector(law, c["n"], "fmconst law")
    f = 0.25 if c["f"] is None else c["f"]
    t0 = round(c["n"] / 2.0) if c["t0"] is None else c["t0"]
    close(law, np.full(c["n"], f), "fmconst law", 1e-12, scale=1.0)
    unit(y, "fmconst")
    cycles(y, f * (np.arange(c["n"]) - t0), "fmconst")
    return c["n"] > 2 and f != 0


@st.composite
def fmlin_cases(draw):
    n = draw(G.lengths(1, 80, BIG))
    return dict(n=n, fi=draw(G.freqs(-0.5, 0.5)), ff=draw(G.freqs(-0.5, 0.5)),
                t0=draw(_opt(st.one_of(st.integers(1, n), G.reals(1.0, float(n))))),
                default=draw(st.integers(0, 9)) == 9)


def check_fmlin(c):
    n = c["n"]
    fi, ff = (0.0, 0.5) if c["default"] else (c["fi"], c["ff"])
    kw = {} if c["t0"] is None else {"t0": c["t0"]}
    if not c["default"]:
        kw.update(fnormi=fi, fnormf=ff)
    y, law = sut(T.fmlin, n, **kw)
    vector(y, n, "fmlin"), vector(law, n, "fmlin law")
    k = np.arange(n)
    close(law, fi + (ff - fi) * k / max(n - 1.0, 1.0), "fmlin law", 1e-12, scale=1.0)
    unit(y, "fmlin")
    step = 0.5 * (law[1:] + law[:-1])          # exact for a linear law
    close(y[1:] * np.conj(y[:-1]), np.exp(2j * PI * step), "fmlin phase advance", 1e-7,
          scale=1.0)
    t0 = round(n / 2.0) if c["t0"] is None else c["t0"]
    close(y[int(t0) - 1], 1.0, "fmlin phase at the time centre", 1e-9, scale=1.0)
    phase = fi * k + (ff - fi) / (2.0 * max(n - 1, 1)) * k ** 2
    cycles(y, phase - phase[int(t0) - 1], "fmlin")
    return n > 3 and fi != ff


@st.composite
def fmodany_cases(draw):
    n = draw(G.lengths(1, 60, 2000))
    return dict(n=n, seed=draw(G.SEEDS), t0=draw(_opt(st.integers(1, n))),
                law=draw(st.sampled_from(("random", "edge", "ramp", "const"))),
                column=draw(st.booleans()))


def check_fmodany(c):
    rs = np.random.RandomState(c["seed"])
    n = c["n"]
    law = {"random": lambda: rs.rand(n) - 0.5,
           "edge": lambda: rs.choice([-0.5, 0.5, 0.0, 0.25], n),
           "ramp": lambda: np.linspace(-0.5, 0.5, n),
           "const": lambda: np.full(n, rs.rand() - 0.5)}[c["law"]]()
    arg = law.reshape(-1, 1) if c["column"] else law.copy()
    kw = {} if c["t0"] is None else {"t0": c["t0"]}
    y = vector(sut(T.fmodany, arg, **kw), n, "fmodany")
    unit(y, "fmodany")
    close(arg.ravel(), law, "fmodany changed its input", 0.0)
    close(y[1:] * np.conj(y[:-1]), np.exp(2j * PI * law[1:]), "fmodany phase advance", 1e-8,
          scale=1.0)
    close(y[(c["t0"] or 1) - 1], 1.0, "fmodany phase at the time centre", 1e-9, scale=1.0)
    return n > 2


@st.composite
def fmpar_cases(draw):
    n = draw(G.lengths(1, 60, 2000))
    return dict(n=n, v=[draw(G.reals(-0.2, 0.7)) for _ in range(3)],
                type=draw(st.sampled_from((tuple, list, np.array)).map(
                    lambda f: f.__name__)))


def _seq(name):
    return {"tuple": tuple, "list": list, "array": np.array}[name]


def check_fmpar(c):
    """The parabola is given by its values at 0, n/2 and n."""
    n = c["n"]
    v0, v1, v2 = c["v"]
    a2 = 2 * (v2 - 2 * v1 + v0) / float(n) ** 2
    a1 = (v2 - v0) / n - a2 * n
    y, law = sut(T.fmpar, n, _seq(c["type"])([v0, a1, a2]))
    vector(y, n, "fmpar"), vector(law, n, "fmpar law")
    t = np.arange(n, dtype=float)
    close(law, v0 + a1 * t + a2 * t * t, "fmpar law", 1e-9, scale=1.0)
    unit(y, "fmpar")
    mid = t[1:] - 0.5
    close(y[1:] * np.conj(y[:-1]), np.exp(2j * PI * (v0 + a1 * mid + a2 * (mid ** 2 + 1 / 12.0))),
          "fmpar phase advance", 1e-7, scale=1.0)
    close(y[0], 1.0, "fmpar phase at the origin", 1e-9, scale=1.0)
    return n > 2 and abs(a2) > 1e-12


@st.composite
def fmpower_cases(draw):
    n = draw(G.lengths(1, 60, 2000))
    two = draw(st.booleans())
    k = draw(st.one_of(G.reals(0.1, 0.9), G.reals(1.1, 3.0), st.sampled_from((2, 3, 0.5)),
                       G.reals(-1.0, -0.1)))
    t1 = draw(st.integers(1, max(2, n)))
    t2 = draw(st.integers(1, max(2, n)).filter(lambda v: v != t1))
    if draw(st.integers(0, 2)) == 2:               # between two samples, or beyond the signal
        t1 = draw(G.reals(1.0, 1.5 * n + 1))
        t2 = draw(G.reals(1.0, 1.5 * n + 1).filter(lambda v: abs(v - t1) > 0.3))
    return dict(n=n, k=k, two=two, f1=draw(G.freqs(-0.1, 0.6)), f2=draw(G.freqs(-0.1, 0.6)),
                t1=t1, t2=t2, c=draw(G.reals(-0.4, 0.4)))


def check_fmpower(c):
    n, k = c["n"], c["k"]
    t = np.arange(1, n + 1, dtype=float)
    if c["two"]:
        f0, amp = c["f1"], c["c"] * (n ** k if k < 0 else 1.0)
        y, law = sut(T.fmpower, n, k, (f0, amp))
    else:
        y, law = sut(T.fmpower, n, k, (c["t1"], c["f1"], c["t2"], c["f2"]))
        amp = (c["f2"] - c["f1"]) / (c["t2"] ** -float(k) - c["t1"] ** -float(k))
        f0 = c["f1"] - amp * c["t1"] ** -float(k)
    vector(y, n, "fmpower"), vector(law, n, "fmpower law")
    scale = 1 + abs(f0) + abs(amp)
    e = f0 + amp * t ** -float(k)
    close(law, e, "fmpower law", 1e-9, scale=scale * max(1.0, float(np.max(np.abs(e)))))
    if not c["two"]:
        for tt, ff in ((c["t1"], c["f1"]), (c["t2"], c["f2"])):
            if tt <= n and tt == int(tt):
                require(abs(law[int(tt) - 1] - ff) < 1e-8 * scale, "fmpower law misses a point",
                        got=law[int(tt) - 1], expected=ff)
    unit(y, "fmpower")
    phase = f0 * t + amp / (1 - k) * t ** (1 - float(k))
    if np.max(np.abs(phase)) + np.abs(f0) * n < 1e5:
        cycles(y, phase, "fmpower", scale)
    return n > 2 and abs(amp) > 1e-9


@st.composite
def fmhyp_cases(draw):
    n = draw(G.lengths(1, 60, 2000))
    t1 = draw(st.integers(1, max(2, n)))
    t2 = draw(st.integers(1, max(2, n)).filter(lambda v: v != t1))
    if draw(st.integers(0, 2)) == 2:               # between two samples, or beyond the signal
        t1 = draw(G.reals(1.0, 1.5 * n + 1))
        t2 = draw(G.reals(1.0, 1.5 * n + 1).filter(lambda v: abs(v - t1) > 0.3))
    return dict(n=n, t1=t1, t2=t2, f1=draw(G.freqs(-0.1, 0.6)), f2=draw(G.freqs(-0.1, 0.6)))


def check_fmhyp(c):
    n = c["n"]
    y, law = sut(T.fmhyp, n, (c["t1"], c["f1"]), (c["t2"], c["f2"]))
    vector(y, n, "fmhyp"), vector(law, n, "fmhyp law")
    t = np.arange(1, n + 1, dtype=float)
    amp = (c["f2"] - c["f1"]) / (1.0 / c["t2"] - 1.0 / c["t1"])
    f0 = c["f1"] - amp / c["t1"]
    scale = 1 + abs(f0) + abs(amp)
    close(law, f0 + amp / t, "fmhyp law", 1e-9, scale=scale)
    for tt, ff in ((c["t1"], c["f1"]), (c["t2"], c["f2"])):
        if tt <= n and tt == int(tt):
            require(abs(law[int(tt) - 1] - ff) < 1e-8 * scale, "fmhyp law misses a point",
                    got=law[int(tt) - 1], expected=ff)
    unit(y, "fmhyp")
    cycles(y, f0 * t + amp * np.log(t), "fmhyp", scale)
    return n > 2 and abs(amp) > 1e-9


@st.composite
def fmsin_cases(draw):
    n = draw(G.lengths(1, 80, 3000))
    lo = draw(G.freqs(-0.5, 0.44))
    hi = draw(G.reals(lo + 0.02, 0.5))
    return dict(n=n, lo=lo, hi=hi, period=draw(_opt(G.reals(0.5, 3.0 * n + 1, (1.0, 2.0, float(n))))),
                t0=draw(_opt(st.one_of(st.integers(0, n), G.reals(0.0, float(n)),
                                       st.integers(-n, 3 * n)))),
                r=draw(_opt(G.reals(0.0, 1.0, (0.0, 1.0)))), pm1=draw(_opt(st.sampled_from((1, -1)))),
                default=draw(st.integers(0, 9)) == 9)


def check_fmsin(c):
    n = c["n"]
    kw = {}
    lo, hi = c["lo"], c["hi"]
    if c["default"]:
        lo, hi = 0.05, 0.45
    else:
        kw.update(fnormin=lo, fnormax=hi)
    mid, dev = 0.5 * (lo + hi), 0.5 * (hi - lo)
    f0 = mid
    if c["r"] is not None:
        f0 = min(max(mid + dev * (2 * c["r"] - 1) * (1 - 1e-9), lo), hi)
        if c["r"] in (0.0, 1.0):
            f0 = hi if c["r"] else lo
        kw["fnorm0"] = f0
    for k in ("period", "t0", "pm1"):
        if c[k] is not None:
            kw[k] = c[k]
    y, law = sut(T.fmsin, n, **kw)
    vector(y, n, "fmsin"), vector(law, n, "fmsin law")
    T0 = float(n) if c["period"] is None else c["period"]
    t0 = n / 2.0 if c["t0"] is None else c["t0"]
    sign = 1 if c["pm1"] is None else c["pm1"]
    a = np.arccos(np.clip((f0 - mid) / dev, -1, 1))
    t = np.arange(n) - t0
    # starts at f0 and rises (pm1 = 1) or falls (pm1 = -1) at the reference
    e = mid + dev * np.cos(2 * PI * t / T0 - sign * a)
    close(law, e, "fmsin law", 1e-6, scale=1.0)
    require(bool(np.all(law >= lo - 1e-9) and np.all(law <= hi + 1e-9)),
            "fmsin law leaves its bounds")
    unit(y, "fmsin")
    phase = mid * t + dev * T0 / (2 * PI) * (np.sin(2 * PI * t / T0 - sign * a) +
                                             np.sin(sign * a))
    # (at its limits the angle is known to the square root of the precision)
    close(y, np.exp(2j * PI * phase), "fmsin phase", 1e-5 + 1e-7 * T0 * dev, scale=1.0)
    if float(t0).is_integer() and 0 <= t0 < n:
        require(abs(law[int(t0)] - f0) < 1e-7, "fmsin frequency at the time reference",
                got=law[int(t0)], expected=f0)
        close(y[int(t0)], 1.0, "fmsin phase at the time reference", 1e-9, scale=1.0)
    return n > 2


C03 = [Law("fmconst", fmconst_cases(), check_fmconst, 900),
       Law("fmlin", fmlin_cases(), check_fmlin, 1200),
       Law("fmodany", fmodany_cases(), check_fmodany, 900),
       Law("fmpar", fmpar_cases(), check_fmpar, 900),
       Law("fmpower", fmpower_cases(), check_fmpower, 900),
       Law("fmhyp", fmhyp_cases(), check_fmhyp, 900),
       Law("fmsin", fmsin_cases(), check_fmsin, 1200)]


# -- C05 digital modulations -----------------------------------------------

@st.composite
def digital_cases(draw):
    n = draw(G.lengths(1, 120, 4000))
    name = draw(st.sampled_from(("anaask", "anabpsk", "anafsk", "anaqpsk")))
    return dict(name=name, n=n, seed=draw(G.SEEDS), n_comp=draw(_opt(_sym(n))),
                f0=draw(_opt(G.freqs())),
                Nbf=draw(_opt(st.one_of(st.integers(1, 9), st.integers(1, 9).map(float)))))


def digital(c):
    np.random.seed(c["seed"])
    names = ("n_comp", "Nbf") if c["name"] == "anafsk" else ("n_comp", "f0")
    return call(getattr(T, c["name"]), c["n"], c, names)


def check_digital(c):
    n, name = c["n"], c["name"]
    y, mod = digital(c)
    vector(y, n, name), vector(mod, n, name + " modulation")
    sym = c["n_comp"]
    if sym is None:
        sym = max(1, round(n / (2.0 if name == "anaask" else 5.0)))
    sym = int(sym)
    k = np.arange(n)
    first = (k // sym) * sym
    require(bool(np.all(mod == mod[first])), name + ": modulation changes inside a symbol")
    carrier = np.exp(2j * PI * (0.25 if c["f0"] is None else c["f0"]) * (k - 1))
    levels = mod[::sym]
    if name == "anaask":
        require(bool(np.all((mod >= 0) & (mod <= 1))), "ASK amplitude outside [0, 1]")
        close(y, mod * carrier, "ASK signal", 1e-8, scale=1.0)
        if len(levels) > 1:
            require(len(np.unique(levels)) == len(levels), "ASK levels are repeated")
    elif name == "anabpsk":
        require(set(np.unique(mod)) <= {-1.0, 1.0}, "BPSK modulation is not +-1")
        close(y, mod * carrier, "BPSK signal", 1e-8, scale=1.0)
    elif name == "anaqpsk":
        q = mod / (PI / 2)
        require(bool(np.all(np.abs(q - np.round(q)) < 1e-9)) and set(
            np.round(q).astype(int)) <= {0, 1, 2, 3}, "QPSK phase is not a quarter turn")
        close(y, np.exp(1j * mod) * carrier, "QPSK signal", 1e-8, scale=1.0)
    else:
        m = 4 if c["Nbf"] is None else int(c["Nbf"])
        alphabet = 0.25 + 0.25 * (np.arange(m) / float(m) - (m - 1) / (2.0 * m))
        d = np.min(np.abs(mod[:, None] - alphabet[None, :]), axis=1)
        require(bool(np.all(d < 1e-9)), "FSK frequency outside the alphabet")
        unit(y, "FSK")
        close(y, np.exp(2j * PI * np.cumsum(mod)), "FSK signal", 1e-8, scale=1.0)
    y2, mod2 = digital(c)
    require(bool(np.array_equal(y, y2) and np.array_equal(mod, mod2)),
            name + ": not reproducible from the random seed")
    return name if n > sym else False


@st.composite
def alphabet_cases(draw):
    return dict(name=draw(st.sampled_from(("anaask", "anabpsk", "anafsk", "anaqpsk"))),
                n=draw(st.integers(3000, 6000)), n_comp=draw(st.integers(1, 3)),
                seed=draw(G.SEEDS), f0=0.1, Nbf=draw(st.integers(2, 6)))


def check_alphabet(c):
    """Symbols are independent and equally likely (seven standard errors)."""
    y, mod = digital(c)
    levels = np.asarray(mod)[::c["n_comp"]]
    m = len(levels)
    if c["name"] == "anaask":
        u = np.floor(levels * 4).clip(0, 3).astype(int)
        size = 4
    elif c["name"] == "anabpsk":
        u, size = (levels > 0).astype(int), 2
    elif c["name"] == "anaqpsk":
        u, size = np.round(levels / (PI / 2)).astype(int), 4
    else:
        size = c["Nbf"]
        alphabet = 0.25 + 0.25 * (np.arange(size) / float(size) - (size - 1) / (2.0 * size))
        u = np.argmin(np.abs(levels[:, None] - alphabet[None, :]), axis=1)
    p = 1.0 / size
    counts = np.bincount(u, minlength=size)
    require(len(counts) == size and bool(np.all(
        np.abs(counts - m * p) < 7 * np.sqrt(m * p * (1 - p)))),
        c["name"] + ": symbols are not equally likely", counts=counts)
    pairs = np.mean(u[1:] == u[:-1])
    require(abs(pairs - p) < 7 * np.sqrt(p * (1 - p) / m),
            c["name"] + ": consecutive symbols depend on each other", got=pairs, expected=p)
    return c["name"]


C05 = [Law("structure", digital_cases(), check_digital, 2500),
       Law("alphabet", alphabet_cases(), check_alphabet, 300)]


# -- C06 analytic elementary signals ----------------------------------------

@st.composite
def analytic_cases(draw):
    name = draw(st.sampled_from(("anapulse", "anastep", "anasing", "anasing")))
    n = draw(G.lengths(4 if name == "anasing" else 1, 70, 1200))
    c = dict(name=name, n=n)
    if name == "anasing":
        c["t0"] = draw(_opt(st.one_of(st.integers(0, n), G.reals(0.0, float(n)))))
        c["h"] = draw(_opt(G.reals(-1.8, 2.5, (0, -1, 1, 2, 0.5, -0.5))))
    else:
        c["ti"] = draw(_opt(st.one_of(st.integers(-1, n), G.reals(0.0, float(n)))))
    return c


def check_analytic(c):
    n, name = c["n"], c["name"]
    y = vector(call(getattr(T, name), n, c, ("ti", "t0", "h")), n, name)
    t = np.arange(n, dtype=float)
    if name == "anasing":
        t0 = n / 2.0 if c["t0"] is None else c["t0"]
        h = 0.0 if c["h"] is None else c["h"]
        if h <= 0:
            k = np.arange(1, n // 2)
            f = k / float(n)
            x = np.array([np.sum(f ** (-1 - h) * np.cos(2 * PI * f * (tt - t0 + 1)))
                          for tt in t])
            x = x / x.max()
            x = x - x.min()
        else:
            x = np.abs(t - t0) ** h
            x = x.max() - x
    else:
        ti = round(n / 2) if c["ti"] is None else c["ti"]
        x = (t == ti).astype(float) if name == "anapulse" else (t > ti).astype(float)
    e = ref.analytic(x)
    s = max(1.0, float(np.max(np.abs(x))))
    close(np.real(y), x, name + ": real part", 1e-7, scale=s)
    close(y, e, name + ": analytic signal", 1e-7, scale=s)
    return name if np.any(x) and n > 3 else False


C06 = [Law("projection", analytic_cases(), check_analytic, 2500)]


# -- C07 noise ------------------------------------------------------------

@st.composite
def noise_cases(draw):
    return dict(name=draw(st.sampled_from(("noisecg", "noisecu"))),
                n=draw(G.lengths(1, 200, 5000)), seed=draw(G.SEEDS))


def noise(c, n=None):
    np.random.seed(c["seed"])
    return sut(getattr(T, c["name"]), c["n"] if n is None else n)


def check_noise(c):
    n = c["n"]
    y = vector(noise(c), n, c["name"], "c")
    require(bool(np.array_equal(y, noise(c))), c["name"] + ": not reproducible from the seed")
    if n <= 2:
        return False
    p = 1
    while p < n:
        p *= 2
    full = vector(noise(c, p), p, c["name"])
    close(y, full[p - n:], c["name"] + ": tail of the next power of two", 1e-12, scale=1.0)
    require(ref.negative_energy(full) < 1e-20, c["name"] + ": negative frequencies",
            got=ref.negative_energy(full))
    re = np.real(full)
    require(abs(np.var(re) - 0.5) < 1e-9, c["name"] + ": variance of the real part",
            got=np.var(re))
    other = noise(dict(c, seed=(c["seed"] + 1) % 2 ** 31))
    require(not np.allclose(other, y), c["name"] + ": does not depend on the random state")
    return c["name"]


@st.composite
def noise_stats_cases(draw):
    return dict(name=draw(st.sampled_from(("noisecg", "noisecu"))),
                n=draw(st.sampled_from((4096, 8192, 5000, 7000))), seed=draw(G.SEEDS))


def check_noise_stats(c):
    y = noise(c)
    n = len(y)
    se = 1 / np.sqrt(n)
    require(abs(np.mean(y)) < 8 * se, "mean", got=np.mean(y))
    require(abs(np.var(y) - 1) < 12 * se, "variance", got=np.var(y))
    require(abs(np.mean(y ** 2)) < 12 * se, "circularity", got=np.mean(y ** 2))
    re = np.real(y) / np.std(np.real(y))
    kurt = np.mean((re - re.mean()) ** 4)
    require(abs(kurt - (3.0 if c["name"] == "noisecg" else 1.8)) < 0.7,
            c["name"] + ": shape of the distribution", kurtosis=kurt)
    if c["name"] == "noisecu":
        require(np.max(np.abs(re)) < np.sqrt(3) * 1.1, "uniform noise is not bounded")
    else:
        require(np.max(np.abs(re)) > 2.7, "Gaussian noise has no tails")
    r = re - re.mean()
    for lag in (1, 2, 3, 7):
        require(abs(np.mean(r[lag:] * r[:-lag])) < 8 * se, "samples are correlated", lag=lag)
    P = np.abs(np.fft.fft(y)) ** 2
    q = n // 8
    bands = np.array([P[i * q + 1:(i + 1) * q].mean() for i in range(4)])
    require(bands.max() / bands.min() < 1.9, "spectrum is not flat", bands=bands)
    return c["name"]


def check_noise_short(c):
    """One- and two-sample noise, over an ensemble."""
    np.random.seed(c["seed"])
    f = getattr(T, c["name"])
    z = np.array([sut(f, c["n"]) for _ in range(1500)]).ravel()
    require(z.shape[0] == 1500 * c["n"], "wrong number of samples")
    se = 1 / np.sqrt(len(z))
    require(abs(np.mean(z)) < 8 * se, "mean of short noise")
    require(abs(np.mean(np.abs(z) ** 2) - 1) < 12 * se, "variance of short noise",
            got=np.mean(np.abs(z) ** 2))
    require(abs(np.mean(z ** 2)) < 12 * se, "circularity of short noise")
    return c["name"]


def check_noise_filter(c):
    """Noise given the coefficients of a filter is filtered by it."""
    np.random.seed(c["seed"])
    y = sut(T.noisecg, 2048, *c["a"])
    r = np.real(y) - np.mean(np.real(y))
    rho = np.mean(r[1:] * r[:-1]) / np.mean(r * r)
    require(abs(rho) > 0.3, "noisecg ignores the coefficients of its filter", rho=rho)
    return True


C07 = [Law("block", noise_cases(), check_noise, 1500),
       Law("statistics", noise_stats_cases(), check_noise_stats, 300),
       Law("short", st.fixed_dictionaries(dict(
           name=st.sampled_from(("noisecg", "noisecu")), n=st.integers(1, 2), seed=G.SEEDS)),
           check_noise_short, 60),
       Law("filter", st.fixed_dictionaries(dict(
           seed=G.SEEDS, a=st.one_of(st.tuples(G.reals(0.5, 0.95)).map(list),
                                     st.tuples(G.reals(0.5, 0.9), G.reals(-0.3, 0.05)).map(list)))),
           check_noise_filter, 24, 200)]


# -- C08 Doppler ------------------------------------------------------------

@st.composite
def doppler_cases(draw):
    n = draw(G.lengths(2, 120, 4000))
    fs = draw(G.reals(10.0, 2000.0))
    return dict(n=n, fs=fs, f0=draw(st.one_of(st.just(0.0), G.reals(0.0, fs / 2 * (1 - 1e-9)))),
                d=draw(st.one_of(G.reals(0.1, 100.0), G.reals(100.0, 2000.0))), v=draw(G.reals(0.0, 120.0)),
                t0=draw(_opt(G.reals(1.0, float(n)))), c=draw(_opt(G.reals(50.0, 1500.0))))


def check_doppler(c):
    n, fs, f0 = c["n"], c["fs"], c["f0"]
    kw = {}
    if c["t0"] is not None:
        kw["t0"] = c["t0"]
    if c["c"] is not None:
        kw["v_wave"] = c["c"]
    fm, am, law = sut(T.doppler, n, fs, f0, c["d"], c["v"], **kw)
    for y, w in ((fm, "modulation"), (am, "amplitude"), (law, "law")):
        vector(y, n, "doppler " + w)
    wave = 340.0 if c["c"] is None else c["c"]
    t0 = n / 2.0 if c["t0"] is None else c["t0"]
    t = (np.arange(1, n + 1) - t0) / fs
    dist = np.hypot(c["d"], c["v"] * t)
    unit(fm, "doppler")
    phase = f0 * (t - dist / wave)
    tol = 1e-8 + 1e-12 * np.max(np.abs(phase)) + 1e-12 * f0 * np.max(dist) / wave
    close(fm, np.exp(2j * PI * phase), "doppler phase", tol, scale=1.0)
    close(am, np.zeros(n) if f0 == 0 else dist ** -0.5, "doppler amplitude", 1e-10,
          scale=max(1.0, c["d"] ** -0.5)) if not 0 < f0 < 1e-12 else None
    close(law, f0 / fs * (1 - c["v"] ** 2 * t / dist / wave), "doppler law", 1e-10,
          scale=1.0 + c["v"] / wave)
    # the law is the derivative of the phase, seen between neighbours
    require(bool(np.all(np.diff(law) <= 1e-12 * (1 + np.abs(law[1:])))),
            "received frequency increases")
    return n > 3 and f0 > 0 and c["v"] > 0


@st.composite
def dopnoise_cases(draw):
    n = draw(G.lengths(2, 60, 600))
    return dict(n=n, seed=draw(G.SEEDS), fs=draw(G.reals(50.0, 500.0)), r=draw(G.reals(0.02, 0.48)),
                d=draw(G.reals(1.0, 50.0)), v=draw(G.reals(0.0, 60.0)),
                tc=draw(_opt(G.reals(1.0, float(n)))), c=draw(_opt(G.reals(200.0, 1500.0))))


def dopnoise(c):
    kw = {}
    if c.get("tc") is not None:
        kw["time_center"] = c["tc"]
    if c.get("c") is not None:
        kw["c"] = c["c"]
    np.random.seed(c["seed"])
    return sut(T.dopnoise, c["n"], c["fs"], c["r"] * c["fs"], c["d"], c["v"], **kw)


def check_dopnoise(c):
    n = c["n"]
    y, law = dopnoise(c)
    vector(y, n, "dopnoise", "c"), vector(law, n, "dopnoise law")
    require(abs(np.sum(np.abs(y) ** 2) - 1) < 1e-9, "dopnoise energy is not one")
    wave = 340.0 if c["c"] is None else c["c"]
    tc = n // 2 if c["tc"] is None else c["tc"]
    t = (np.arange(1, n + 1) - tc) / c["fs"]
    dist = np.hypot(c["d"], c["v"] * t)
    close(law, c["r"] * (1 - c["v"] ** 2 * t / dist / wave), "dopnoise law", 1e-10, scale=1.0)
    if n > 2:
        require(ref.negative_energy(y * np.sqrt(dist)) < 1e-16,
                "dopnoise: the signal at unit distance is not analytic")
    y2, _ = dopnoise(c)
    require(bool(np.array_equal(y, y2)), "dopnoise: not reproducible from the seed")
    y3, _ = dopnoise(dict(c, seed=(c["seed"] + 1) % 2 ** 31))
    require(n <= 2 or not np.allclose(y, y3), "dopnoise: does not depend on the random state")
    return n > 2


@st.composite
def dopnoise_stats_cases(draw):
    return dict(n=draw(st.integers(2500, 3500)), seed=draw(G.SEEDS), fs=200.0,
                r=draw(G.reals(0.05, 0.45)), d=draw(G.reals(5.0, 20.0)),
                v=draw(G.reals(0.0, 40.0)))


def check_dopnoise_stats(c):
    """Undoing the resonant filter along the law leaves the innovation."""
    y, law = dopnoise(c)
    n = c["n"]
    t = (np.arange(1, n + 1) - n // 2) / c["fs"]
    s = np.real(y) * np.sqrt(np.hypot(c["d"], c["v"] * t))
    s = s / np.std(s)
    rr = 0.81
    w = s[2:] + rr * s[:-2] - 1.8 * np.cos(2 * PI * law[2:]) * s[1:-1]
    w = w - w.mean()
    rho = [np.mean(w[k:] * w[:-k]) / np.mean(w * w) for k in (1, 2, 3, 4, 5)]
    bound = 8 / np.sqrt(n)
    expected = [0, -rr / (1 + rr ** 2), 0, 0, 0]
    for k, (a, b) in enumerate(zip(rho, expected)):
        require(abs(a - b) < bound, "dopnoise: the filter does not follow the law", lag=k + 1,
                got=a, expected=b)
    return True


C08 = [Law("doppler", doppler_cases(), check_doppler, 2500),
       Law("dopnoise", dopnoise_cases(), check_dopnoise, 600),
       Law("dopnoise_filter", dopnoise_stats_cases(), check_dopnoise_stats, 60)]


# -- C09 wavelets and power law group delays --------------------------------

@st.composite
def altes_cases(draw):
    n = draw(G.lengths(1, 120, 3000))
    return dict(n=n, fmin=draw(_opt(G.reals(0.005, 0.24))), fmax=draw(_opt(G.reals(0.25, 0.5))),
                alpha=draw(_opt(G.reals(1.2, 50000.0))))


def check_altes(c):
    n = c["n"]
    x = vector(call(T.altes, n, c, ("fmin", "fmax", "alpha")), n, "altes", "f")
    fmin = 0.05 if c["fmin"] is None else c["fmin"]
    fmax = 0.5 if c["fmax"] is None else c["fmax"]
    alpha = 300 if c["alpha"] is None else c["alpha"]
    require(abs(np.linalg.norm(x) - 1) < 1e-9, "altes energy is not one")
    lg = np.log(fmax / fmin) ** 2 / (8 * np.log(alpha))     # log of the g factor
    beta = np.log(fmax / fmin) / 2.0
    t0 = n / (2 * np.sinh(beta))
    t = t0 * np.exp(-beta) + np.arange(n)
    b = -t0 * np.sqrt(fmin * fmax) * np.exp(lg)
    e = np.exp(-np.log(t / t0) ** 2 / (2 * lg)) * np.cos(2 * PI * b * np.log(t / t0))
    close(x, e / np.linalg.norm(e), "altes", 1e-6, scale=1.0)
    return n > 3


@st.composite
def klauder_cases(draw):
    return dict(n=draw(G.lengths(2, 120, 1900)), attenuation=draw(_opt(G.reals(0.5, 40.0))),
                f0=draw(_opt(G.reals(0.02, 0.48))))


def check_klauder(c):
    n = c["n"]
    x = vector(call(T.klauder, n, c, ("attenuation", "f0")), n, "klauder", "f")
    g = 10.0 if c["attenuation"] is None else c["attenuation"]
    f0 = 0.2 if c["f0"] is None else c["f0"]
    require(abs(np.linalg.norm(x) - 1) < 1e-9, "klauder energy is not one",
            got=np.linalg.norm(x))
    f = np.arange(1, n // 2 + 1) / float(n)
    p = 2 * PI * g * f0 - 0.5
    with np.errstate(all="ignore"):
        logmag = -2 * PI * g * f + p * np.log(f)
    mag = np.exp(logmag - logmag.max())
    # symmetric spectrum, wave centred on sample n // 2
    t = np.arange(n) - n // 2
    e = np.zeros(n)
    for k, m in enumerate(mag, 1):
        weight = 1.0 if 2 * k == n else 2.0
        e += weight * m * np.cos(2 * PI * k * t / n)
    close(x, e / np.linalg.norm(e), "klauder", 1e-7, scale=1.0)
    return n > 3


def check_mexhat(c):
    kw = {} if c["nu"] is None else {"nu": c["nu"]}
    h = np.asarray(sut(T.mexhat, **kw))
    nu = 0.05 if c["nu"] is None else c["nu"]
    half = int(np.ceil(1.5 / nu))
    require(h.ndim == 1 and h.shape[0] == 2 * half + 1, "mexhat length", got=h.shape,
            expected=2 * half + 1)
    t = np.arange(-half, half + 1)
    u = (PI * nu * t) ** 2
    close(h, nu * np.sqrt(PI) / 2 * np.exp(-u) * (1 - 2 * u), "mexhat", 1e-10)
    close(h, h[::-1], "mexhat symmetry", 1e-10)
    require(int(np.argmax(h)) == half, "mexhat maximum is not at its centre")
    return True


@st.composite
def gdpower_cases(draw):
    return dict(n=draw(G.lengths(4, 120, 1000)),
                degree=draw(_opt(G.reals(-2.0, 4.0, (0, 0.5, 1, 2, 3, -1, 1.5)))),
                rate=draw(_opt(G.reals(-3.0, 3.0, (1, -1, 0.5, 2))
                               .filter(lambda r: abs(r) > 1e-3))))


def check_gdpower(c):
    n = c["n"]
    x, gpd, nu = call(T.gdpower, n, c, ("degree", "rate"))
    k = 0.0 if c["degree"] is None else c["degree"]
    r = 1.0 if c["rate"] is None else c["rate"]
    half = (n + 1) // 2
    vector(x, n, "gdpower", "c"), vector(gpd, half, "gdpower delay")
    vector(nu, half, "gdpower bins")
    e_nu = 0.5 * np.arange(1, half + 1) / half
    close(nu, e_nu, "gdpower frequency bins", 1e-12)
    require(abs(np.linalg.norm(x) - 1) < 1e-9, "gdpower energy is not one")
    require(abs(np.mean(x)) < 1e-9, "gdpower mean is not zero")
    if k == 1:
        close(gpd, np.full(half, float(n)), "gdpower delay of degree one", 1e-12)
        e = ref.analytic((np.arange(n) == n - 1).astype(float))
    else:
        d = r if k == 0 else (n ** k * r if k < 1 else n * 2.0 ** (k - 1) * r)
        t0 = n / 10.0 if k < 1 else 0.0
        wrap = (n + 1.0) if r < 0 else 0.0
        close(gpd, t0 + wrap + d * e_nu ** (k - 1), "gdpower delay", 1e-9)
        phase = t0 * e_nu + (d * np.log(e_nu) if k == 0 else d * e_nu ** k / k)
        S = e_nu ** ((k - 2) / 6.0) * np.exp(-2j * PI * phase)
        e = np.conj(fourier_cols(n, half)) @ S / n
        if np.max(np.abs(phase)) > 1e5:
            return False
    e = e - e.mean()
    close(x, e / np.linalg.norm(e), "gdpower signal", 1e-6, scale=1.0)
    return "degree 1" if k == 1 else True


def fourier_cols(n, m):
    return np.exp(-2j * PI * (np.outer(np.arange(n), np.arange(m)) % n) / n)


C09 = [Law("altes", altes_cases(), check_altes, 900),
       Law("klauder", klauder_cases(), check_klauder, 700),
       Law("mexhat", st.fixed_dictionaries(dict(nu=_opt(G.reals(0.003, 0.5)))), check_mexhat, 500),
       Law("gdpower", gdpower_cases(), check_gdpower, 1200)]


# -- C10 superpositions -------------------------------------------------------

@st.composite
def atoms_cases(draw):
    n = draw(G.lengths(1, 90, 1500))
    m = draw(st.integers(1, 6))
    return dict(n=n, seed=draw(G.SEEDS), m=m, wild=draw(st.booleans()),
                same=draw(st.sampled_from((0.0, 0.0, 0.5, 1.0))), whole=draw(st.sampled_from(
                    (False, False, False, True))),
                order=draw(st.sampled_from("CF")), single=draw(st.booleans()))


def check_atoms(c):
    n, m = c["n"], c["m"]
    rs = np.random.RandomState(c["seed"])
    out = 0.6 if c["wild"] else 0.0
    t0 = 1 + (n - 1) * (rs.rand(m) * (1 + 2 * out) - out)
    f0 = 0.5 * (rs.rand(m) * (1 + 2 * out) - out)
    spread = 1 + n * rs.rand(m)
    amp = rs.randn(m)
    if rs.rand() < 0.5:
        t0 = np.round(t0)
    same = rs.rand(m, 4) < c.get("same", 0.0)       # values shared with the first atom
    t0, f0, spread, amp = [np.where(same[:, k], v[0], v)
                           for k, v in enumerate((t0, f0, spread, amp))]
    if c.get("whole"):
        t0, f0, spread, amp = [np.round(v).astype(int) for v in (t0, f0, spread, amp * 3)]
    coords = np.asarray(np.c_[t0, f0, spread, amp], order=c["order"])
    keep = coords.copy()
    arg = coords
    if m == 1 and c["single"]:
        arg = coords[0].copy()
    y = vector(sut(T.atoms, n, arg), n, "atoms")
    close(coords, keep, "atoms changed its input", 0.0)
    t = np.arange(n)
    e = np.zeros(n, dtype=complex)
    for k in range(m):
        tc = round(min(max(t0[k], 1), n))
        fc = min(max(f0[k], 0.0), 0.5)
        e += amp[k] * np.exp(-PI * ((t + 1 - tc) / spread[k]) ** 2) * \
            np.exp(2j * PI * fc * (t - tc))
    close(y, e, "superposition of atoms", 1e-9, scale=max(1.0, np.max(np.abs(amp))))
    return m > 1


@st.composite
def merge_cases(draw):
    n = draw(G.lengths(1, 80, 2000))
    return dict(a=draw(G.signals(n=n)), b=draw(G.signals(n=n)),
                ratio=draw(st.one_of(st.none(), G.reals(-60.0, 60.0), st.integers(-40, 40))))


def check_merge(c):
    x1, x2 = G.expand(c["a"]), G.expand(c["b"])
    k1, k2 = x1.copy(), x2.copy()
    kw = {} if c["ratio"] is None else {"ratio": c["ratio"]}
    y = sut(T.sigmerge, x1, x2, **kw)
    tol = max(G.tolerance(c["a"]), G.tolerance(c["b"]))
    vector(y, len(x1), "sigmerge")
    close(x1, k1, "sigmerge changed its input", 0.0)
    close(x2, k2, "sigmerge changed its input", 0.0)
    a, b = np.asarray(x1, dtype=complex), np.asarray(x2, dtype=complex)
    added = np.asarray(y, dtype=complex) - a
    e1 = np.mean(np.abs(a) ** 2)
    want = e1 / 10 ** ((c["ratio"] or 0.0) / 10.0)
    gain = np.sqrt(want / np.mean(np.abs(b) ** 2))
    close(added, gain * b, "second signal of the merge", tol,
          scale=np.max(np.abs(a)) + gain * np.max(np.abs(b)))
    return True


C10 = [Law("atoms", atoms_cases(), check_atoms, 1200),
       Law("sigmerge", merge_cases(), check_merge, 1500)]


# -- C11 Mellin scaling -------------------------------------------------------

@st.composite
def scale_cases(draw):
    n = draw(G.lengths(4, 40, 120))
    fmin = draw(G.reals(0.02, 0.2))
    return dict(sig=draw(G.signals(n=n, dtypes=("float64", "complex128", "float64", "int64"))),
                fmin=fmin, fmax=draw(G.reals(fmin + 0.05, 0.5)), N=draw(st.integers(2, 90)),
                a=draw(st.one_of(G.reals(0.25, 3.0, (1, 0.5, 2)),
                                 st.lists(G.reals(0.25, 3.0, (1, 0.5, 2)), min_size=1,
                                          max_size=4), st.sampled_from((1, 2)))))


def scale_reference(x, a, fmin, fmax, N):
    """Direct evaluation of the discrete Mellin dilation."""
    x = np.real(np.asarray(x))
    z = ref.analytic(x)
    n = len(x)
    mid = (n + n % 2) // 2
    lq = np.log(fmax / fmin) / (N - 1)
    f = fmin * np.exp(lq * np.arange(N))
    spec = np.array([np.sum(z * np.exp(-2j * PI * (np.arange(n) - mid) * fk)) for fk in f])
    p = np.arange(2 * N) - N                  # centred Mellin frequencies
    beta = p / float(N) / (2 * lq)
    k = np.arange(N)
    # Mellin transform of the zero padded spectrum and its inverse
    mel = np.exp(2j * PI * np.outer(p, k) / (2 * N)) @ spec / (2 * N)
    shifted = mel * np.exp(-2j * PI * beta * np.log(a))
    dil = np.exp(-2j * PI * np.outer(k, p) / (2 * N)) @ shifted
    m = int(np.ceil(a * n / 2))
    t = np.arange(-m, m)
    w = np.zeros(N)
    w[:-1] += np.diff(f) / 2
    w[1:] += np.diff(f) / 2
    return np.exp(2j * PI * np.outer(t, f)) @ (dil * w)


def check_scale(c):
    x = G.expand(c["sig"])
    keep = x.copy()
    many = isinstance(c["a"], list)
    arg = np.array(c["a"]) if many else c["a"]
    S = sut(T.scale, x, arg, c["fmin"], c["fmax"], c["N"])
    close(x, keep, "scale changed its input", 0.0)
    scales = c["a"] if many else [c["a"]]
    cols = [scale_reference(x, a, c["fmin"], c["fmax"], c["N"]) for a in scales]
    m = max(len(v) for v in cols) // 2
    e = np.zeros((2 * m, len(cols)), dtype=complex)
    for i, v in enumerate(cols):
        h = len(v) // 2
        e[m - h:m + h, i] = v
    if np.linalg.norm(e) < 1e-9 * np.linalg.norm(np.abs(x)) * c["N"]:
        return False
    e = e * np.linalg.norm(np.asarray(x)) / np.linalg.norm(e)
    close(S, e if many else e[:, 0], "scaled signal", 1e-6)
    require(abs(np.linalg.norm(S) / np.linalg.norm(np.asarray(x).astype(complex)) - 1) < 1e-8,
            "energy changed by the scaling")
    return "many" if many else "one"


@st.composite
def scale_move_cases(draw):
    n = draw(st.integers(100, 180))
    return dict(n=n, f=draw(G.reals(0.15, 0.3)), w=draw(G.reals(18.0, n / 5.0)),
                a=draw(G.reals(0.7, 1.6, (1.0, 0.75, 1.5))))


def check_scale_moves(c):
    """A narrow packet has its frequency divided, and its duration multiplied,
    by the scale factor; scale one gives the analytic signal back."""
    n = c["n"]
    t = np.arange(n) - n // 2
    x = np.exp(-PI * (t / c["w"]) ** 2) * np.cos(2 * PI * c["f"] * t)
    S = sut(T.scale, x, c["a"], 0.04, 0.49, 6 * n)
    require(S.ndim == 1 and len(S) == 2 * int(np.ceil(c["a"] * n / 2)), "length of the scaled signal",
            got=S.shape)
    P = np.abs(np.fft.fft(S, 4096)) ** 2
    P = P[:2049]
    f = np.arange(2049) / 4096.0
    fm = np.sum(f * P) / np.sum(P)
    require(abs(fm * c["a"] / c["f"] - 1) < 0.03, "frequency of the scaled signal", got=fm,
            expected=c["f"] / c["a"])
    u = np.arange(len(S)) - len(S) // 2
    w = np.abs(S) ** 2 / np.sum(np.abs(S) ** 2)
    tm = np.sum(w * u)
    width = 2 * np.sqrt(PI * np.sum(w * (u - tm) ** 2))
    centre = c["a"] * (n // 2 - (n + 1) // 2)      # time is counted from sample (n + 1) // 2
    require(abs(tm - centre) < 0.5, "centre of the scaled signal", got=tm, expected=centre)
    require(abs(width / (c["a"] * c["w"]) - 1) < 0.1, "duration of the scaled signal",
            got=width, expected=c["a"] * c["w"])
    if c["a"] == 1.0 and n % 2 == 0:
        z = ref.analytic(x)
        z = z * np.linalg.norm(x) / np.linalg.norm(z)
        close(S, z, "scaling by one", 0.02)
    return True


C11 = [Law("definition", scale_cases(), check_scale, 900),
       Law("dilation", scale_move_cases(), check_scale_moves, 200)]
