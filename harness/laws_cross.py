"""C32, C33: what all representations have in common."""

import numpy as np
from hypothesis import strategies as st

import gens as G
from core import Law, require, sut

import tftb.generators as T
import tftb.processing as P
from tftb import utils as U
from tftb.processing import ambiguity, cohen, linear, postprocessing as PP
from tftb.processing import reassigned as R
from tftb.processing import utils as PU

PI = np.pi


def obj(cls, **kw):
    def f(x, o):
        k = dict(kw)
        if o.get("bins"):
            k["n_fbins"] = o["bins"]
        if o.get("win") is not None:
            k["fwindow"] = o["win"]
        return cls(x, **k).run()[:3]
    return f


def fun(func, bins="n_fbins", win="fwindow", labels=None):
    def f(x, o):
        k = {}
        if o.get("bins") and bins:
            k[bins] = o["bins"]
        if o.get("win") is not None and win:
            k[win] = o["win"]
        out = func(x, **k)
        if labels is None:
            return out
        tfr = out if isinstance(out, np.ndarray) else out[1]
        m = tfr.shape[0]
        f = np.arange(m) * (0.5 / m if labels == "half" else 1.0 / m)
        return tfr, np.arange(tfr.shape[1]), f
    return f


BILINEAR = {
    "stft": obj(P.ShortTimeFourierTransform), "spectrogram": obj(P.Spectrogram),
    "wvd": obj(P.WignerVilleDistribution), "pwvd": obj(P.PseudoWignerVilleDistribution),
    "mh": obj(P.MargenauHillDistribution), "pmh": obj(cohen.PseudoMargenauHillDistribution),
    "page": obj(cohen.PageRepresentation), "ppage": obj(cohen.PseudoPageRepresentation),
    "spwv": fun(cohen.smoothed_pseudo_wigner_ville, bins="freq_bins", labels="half"),
    "r_pwv": fun(R.pseudo_wigner_ville, labels="half"),
    "r_pmh": fun(R.pseudo_margenau_hill, labels="full"),
    "r_ppage": fun(R.pseudo_page, labels="full"),
    "r_spwv": fun(R.smoothed_pseudo_wigner_ville, labels="half"),
    "r_spectrogram": fun(R.spectrogram, win="window", labels="full"),
}
HALF = ("wvd", "pwvd", "spwv", "r_pwv", "r_spwv")


# -- C32 ------------------------------------------------------------------------

def sizes(lo, hi, *larger):
    """Mostly short signals, one in eight longer."""
    return st.integers(0, 7).flatmap(lambda k: st.sampled_from(larger) if k == 7 else
                                     st.integers(lo, hi))


@st.composite
def tone_cases(draw):
    name = draw(st.sampled_from(sorted(BILINEAR)))
    n = draw(sizes(32, 72, 100, 128, 151, 200))
    return dict(name=name, n=n, f=draw(G.reals(0.06, 0.44)), phase=draw(G.reals(0, 6.2)),
                amp=draw(st.sampled_from((1.0, 1e-3, 70.0))),
                bins=draw(st.sampled_from((None, None, 8, 17, 33, -1, -9, -16))))


def check_tone(c):
    """A tone is strongest at the row labelled with its frequency, in the middle
    of the signal."""
    n = c["n"]
    if c["name"] in ("mh", "page") and (c["bins"] or 0) < 0:
        return False                                # every lag is a bin
    x = c["amp"] * np.exp(2j * PI * c["f"] * np.arange(n) + 1j * c["phase"])
    bins = None if c["bins"] is None else n + c["bins"]
    tfr, t, f = sut(BILINEAR[c["name"]], x, dict(bins=bins))
    tfr = np.abs(tfr) if c["name"] == "stft" else np.real(tfr)
    require(tfr.shape == (len(f), len(t)), "rows and columns have labels")
    mid = tfr[:, len(t) // 3:2 * len(t) // 3].sum(axis=1)
    k = int(np.argmax(mid))
    step = float(np.abs(f[1] - f[0]))
    d = abs(f[k] - c["f"])
    # Margenau-Hill and Page spread a tone over a finite Fourier kernel; the
    # others are within half a bin, and reassignment moves by rounding
    slack = 0.51 if not c["name"].startswith("r_") else 1.02
    require(d <= slack * step + 1e-9, c["name"] + ": a tone is not at its frequency",
            got=f[k], expected=c["f"], step=step)
    return c["name"]


# their instants are labels of the columns, the others' choose the columns
LABELS = ("stft", "wvd", "pwvd", "pmh", "ppage")
# the instant of sample k is k, or k + 1 where instants are counted from one
FROM_ONE = ("stft", "spectrogram", "spwv", "r_pwv", "r_spwv", "r_spectrogram")
CALLS = {
    "spectrogram": P.Spectrogram, "mh": P.MargenauHillDistribution, "page": cohen.PageRepresentation,
    "stft": P.ShortTimeFourierTransform, "wvd": P.WignerVilleDistribution,
    "pwvd": P.PseudoWignerVilleDistribution, "pmh": cohen.PseudoMargenauHillDistribution,
    "ppage": cohen.PseudoPageRepresentation, "spwv": cohen.smoothed_pseudo_wigner_ville,
    "r_pwv": R.pseudo_wigner_ville, "r_pmh": R.pseudo_margenau_hill, "r_ppage": R.pseudo_page,
    "r_spwv": R.smoothed_pseudo_wigner_ville, "r_spectrogram": R.spectrogram,
}


@st.composite
def impulse_cases(draw):
    name = draw(st.sampled_from(sorted(BILINEAR)))
    n = draw(sizes(32, 64, 100, 128, 151, 200))
    return dict(name=name, n=n, at=draw(st.integers(8, n - 9)),
                bins=draw(st.sampled_from((None, 8, 17))), amp=draw(st.sampled_from((1.0, 1e-3, 70.0))),
                times=draw(st.sampled_from((None, None, "given"))), step=draw(st.integers(1, 5)),
                start=draw(st.sampled_from((0.0, 3.0, -10.0, 0.25))))


def check_impulse(c):
    """An impulse is strongest in the column of its instant, and absent from
    columns further than a window away."""
    n, name = c["n"], c["name"]
    x = np.zeros(n, dtype=complex)
    x[c["at"]] = c["amp"] * np.exp(0.4j)
    bins = None if c["bins"] is None else n + c["bins"]
    h = 0.54 + 0.46 * np.cos(PI * np.linspace(-1, 1, 7))
    inst = c["at"] + (name in FROM_ONE)             # column, or instant, of the impulse
    if c["times"] is None:
        tfr, t, f = sut(BILINEAR[name], x, dict(bins=bins, win=h))
        unit, expected = 1.0, inst
    else:
        k = {"freq_bins" if name == "spwv" else "n_fbins": bins or n,
             "window" if name == "r_spectrogram" else "fwindow": h}
        when = {"r_spectrogram": "time_samples"}.get(name, "timestamps")
        if name in LABELS:
            unit = 0.5 * c["step"]
            t = c["start"] + unit * np.arange(n)
            expected = t[inst]
        else:
            t = np.arange(inst % c["step"], n, c["step"])
            unit, expected = 1.0, inst
        out = sut(CALLS[name], x, **dict(k, **{when: t.copy()}))
        if isinstance(CALLS[name], type):
            tfr, got, _ = sut(out.run)
            require(np.array_equal(got, t), name + ": the instants returned are not those given")
        else:
            tfr = out if isinstance(out, np.ndarray) else out[1]
    require(tfr.shape[1] == len(t), name + ": a column per instant")
    col = np.abs(tfr).sum(axis=0)
    k = int(np.argmax(col))
    require(abs(t[k] - expected) < 1e-9, name + ": an impulse is not at its instant", got=t[k],
            expected=expected)
    reach = 8 if n <= 64 else n // 7             # a window in time is a share of the signal
    far = np.abs(np.asarray(t) - expected) > reach * unit
    require(bool(np.all(col[far] <= 1e-9 * col[k])), name + ": an impulse appears elsewhere")
    return name + ("" if c["times"] is None else " given")


LABELLED = dict({k: v for k, v in CALLS.items() if isinstance(v, type)},
                scalogram=P.Scalogram, bertrand=P.BertrandDistribution,
                unterberger=P.UnterbergerDistribution, dflandrin=P.DFlandrinDistribution)


@st.composite
def label_cases(draw):
    n = draw(st.integers(24, 60))
    return dict(name=draw(st.sampled_from(sorted(LABELLED))), n=n, seed=draw(G.SEEDS),
                bins=draw(st.one_of(st.integers(8, 80), st.just(None))),
                order=draw(st.sampled_from(("up", "up", "down", "any"))),
                keep=draw(st.sampled_from((1.0, 0.8, 0.4, 0.1))), few=draw(st.integers(1, 5)),
                real=draw(st.booleans()))


def check_labels(c):
    """Whatever instants are given, they come back as the labels of the
    columns; the frequencies are those of the rows; both before and after
    the distribution is computed where they are known."""
    name, n, rs = c["name"], c["n"], np.random.RandomState(c["seed"])
    x = rs.randn(n) + 1j * rs.randn(n)
    t = np.flatnonzero(rs.rand(n) < c["keep"])
    t = t if len(t) else np.array([n // 2])
    if c["order"] == "down":
        t = t[::-1].copy()
    elif c["order"] == "any":
        t = rs.permutation(t)
    if name in LABELS and c["real"]:
        t = 0.25 * t - 3.0
    k = {"timestamps": t.copy()}
    affine_like = name in ("scalogram", "bertrand", "unterberger", "dflandrin")
    bins = c["bins"] or n
    if affine_like:
        if len(t) < 6 or np.any(np.diff(t) < 0):     # (scaled to an energy over the instants)
            return False
        bins = max(5, bins // 3)
        k.update(fmin=0.1, fmax=0.4, n_voices=bins)
        x = np.real(x)
    else:
        if name in ("mh", "page"):
            bins = n + bins // 4
        if name == "wvd" and len(t) != n:            # columns of all the samples
            t = k["timestamps"] = np.arange(n) * 0.5 - 1
        if c["bins"] or bins != n:
            k["n_fbins"] = bins
    d = sut(LABELLED[name], x, **k)
    out = sut(d.run)
    require(out[0].shape == (bins, len(t)), name + ": shape of the distribution", got=out[0].shape,
            expected=(bins, len(t)))
    for what, got in (("returned", out[1]), ("kept", d.ts)):
        require(np.array_equal(got, t), "%s: the instants %s are not those given" % (name, what),
                got=np.asarray(got)[:6], expected=t[:6])
    if affine_like:
        f = 0.1 * 4.0 ** (np.arange(bins) / (bins - 1.0))
    elif name in HALF:
        f = 0.5 * np.arange(bins) / bins
    else:
        f = np.arange(bins) / float(bins)
        f[(bins + 1) // 2:] -= 1
    for what, got in (("returned", out[2]), ("kept", d.freqs)):
        require(np.shape(got) == f.shape and bool(np.all(np.abs(got - f) < 1e-9)),
                "%s: the frequencies %s are not those of the rows" % (name, what),
                got=np.asarray(got)[:6], expected=f[:6])
    return name


@st.composite
def chirp_cases(draw):
    name = draw(st.sampled_from(sorted(set(BILINEAR) - {"mh", "page", "pmh", "ppage", "r_pmh",
                                                        "r_ppage"})))
    n = draw(sizes(48, 96, 128, 151, 200))
    return dict(name=name, n=n, a=draw(G.reals(0.08, 0.42)), b=draw(G.reals(0.08, 0.42)),
                t0=draw(G.reals(0.4, 0.6)))


def check_chirp(c):
    """The ridge of a linear chirp follows its frequency law."""
    n = c["n"]
    t = np.arange(n)
    law = c["a"] + (c["b"] - c["a"]) * t / (n - 1.0)
    x = np.exp(2j * PI * (c["a"] * t + (c["b"] - c["a"]) * t ** 2 / (2.0 * (n - 1))))
    tfr, ts, f = sut(BILINEAR[c["name"]], x, {})
    tfr = np.abs(tfr)
    cols = np.arange(n // 3, 2 * n // 3)
    got = np.asarray(f)[np.argmax(tfr[:, cols], axis=0)]
    slope = abs(c["b"] - c["a"]) / n
    step = float(f[1] - f[0])
    tol = 1.1 * step + 1.6 * slope + (0.03 if "spectrogram" in c["name"] or c["name"] == "stft" else
                                      0.015)
    worst = float(np.median(np.abs(got - law[cols])))
    require(worst <= tol, c["name"] + ": the ridge leaves the law of a chirp", worst=worst,
            tolerance=tol)
    return c["name"]


def affine_packet(cls, **kw):
    def f(x, voices=64):
        tfr, t, f = cls(x, fmin=0.06, fmax=0.45, n_voices=voices, **kw).run()[:3]
        return np.real(tfr), t, f
    return f


# length, coefficients in time, oversampling
LATTICES = ((64, 16, 4), (128, 32, 4), (128, 16, 4), (144, 36, 6), (100, 20, 4), (81, 27, 9), (96, 24, 4))


def gabor_packet(x):
    n, nc, q = next(k for k in LATTICES if k[0] == len(x))
    w = np.exp(np.log(0.005) * np.linspace(-1, 1, 2 * int(np.sqrt(n)) + 1) ** 2)
    tfr = np.asarray(linear.gabor(x, nc, q, w / np.linalg.norm(w))[0])
    return tfr, np.arange(tfr.shape[1]) * (n / tfr.shape[1]), np.arange(tfr.shape[0]) / tfr.shape[0]


def morlet_packet(x):
    tfr = R.morlet_scalogram(x)[1]
    return np.abs(tfr), np.arange(tfr.shape[1]), np.arange(tfr.shape[0]) / tfr.shape[0]


AFFINE = ("scalogram", "bertrand", "unterberger", "unterberger_p", "dflandrin")
PACKETS = {k: (lambda x, g=v: g(x, {})) for k, v in BILINEAR.items()}
PACKETS.update({
    "scalogram": affine_packet(P.Scalogram), "bertrand": affine_packet(P.BertrandDistribution),
    "unterberger": affine_packet(P.UnterbergerDistribution),
    "unterberger_p": affine_packet(P.UnterbergerDistribution, form="P"),
    "dflandrin": affine_packet(P.DFlandrinDistribution), "gabor": gabor_packet,
    "r_morlet": morlet_packet})


# cells between the peak and the packet: rounding aside, causal windows are
# late, and reassignment gathers neighbours
LOOSE = {"ppage": (-0.8, 3.5, 0.8), "r_ppage": (-0.8, 7.0, 3.0), "r_pmh": (-4.0, 4.0, 3.0),
         "r_pwv": (-1.6, 1.6, 3.0), "r_spwv": (-3.0, 3.0, 3.0), "r_spectrogram": (-3.0, 3.0, 2.0),
         "r_morlet": (-4.5, 4.5, 1.6),
         "bertrand": (-0.8, 0.8, 1.0), "unterberger": (-0.8, 0.8, 1.0), "gabor": (-1.1, 1.1, 1.1),
         "unterberger_p": (-0.8, 0.8, 1.0), "dflandrin": (-0.8, 0.8, 1.0), "scalogram": (-0.8, 0.8, 1.3)}


@st.composite
def packet_cases(draw):
    name = draw(st.sampled_from(sorted(PACKETS)))
    n = draw(st.integers(50, 110)) if name != "gabor" else draw(st.sampled_from([k[0] for k in LATTICES]))
    return dict(name=name, n=n, f=draw(G.reals(0.15, 0.3)), w=draw(G.reals(0.08, 0.14)),
                c=draw(G.reals(0.35, 0.65)), voices=draw(st.sampled_from((48, 64, 100, 200, 300)))
                if name in AFFINE else None)


def check_packet(c):
    """A Gaussian wave packet is strongest at its time and frequency."""
    n, name = c["n"], c["name"]
    t = np.arange(n)
    x = np.exp(-((t - c["c"] * n) / (c["w"] * n)) ** 2) * np.exp(2j * PI * c["f"] * t)
    tfr, ts, f = sut(PACKETS[name], x, *([c["voices"]] if c["voices"] else []))
    tfr, ts, f = np.abs(tfr), np.asarray(ts), np.asarray(f)
    require(tfr.shape == (len(f), len(ts)), name + ": rows and columns have labels")
    if name == "r_morlet":
        tfr = tfr[:len(f) // 2]                     # the negative frequencies mirror these
    i, j = np.unravel_index(int(np.argmax(tfr)), tfr.shape)
    dt, df = float(ts[1] - ts[0]), float(np.max(np.abs(np.diff(f[:len(f) // 2]))))
    et, ef = (ts[j] - c["c"] * n) / dt - (name in FROM_ONE), (f[i] - c["f"]) / df
    if np.ptp(np.diff(f[:len(f) // 2])) > 1e-9:     # geometric frequencies: in tenths of them
        ef = np.log(f[i] / c["f"]) / 0.1
    lo, hi, wide = LOOSE.get(name, (-0.8, 0.8, 0.8))
    if name == "page":                              # causal: the packet peaks while decaying
        hi += 0.55 * c["w"] * n / dt
    require(lo <= et <= hi, name + ": a wave packet is not at its instant", got=ts[j],
            expected=c["c"] * n)
    require(abs(ef) <= wide, name + ": a wave packet is not at its frequency", got=f[i],
            expected=c["f"])
    return name


# -- C33 ------------------------------------------------------------------------

def affine(cls, **kw):
    return lambda x, o: cls(x, fmin=0.1, fmax=0.4, n_voices=12, **kw).run()


def first(func, **kw):
    """Results whose order of homogeneity is fixed."""
    return lambda x, o: func(x, **kw)


# name -> (call, degree of each result, None where it is not numbers of the signal)
DEGREES = {k: (v, (2, 0, 0)) for k, v in BILINEAR.items()}
DEGREES["stft"] = (BILINEAR["stft"], (1, 0, 0))
DEGREES.update({
    "scalogram": (affine(P.Scalogram), (2, 0, 0, 1)),
    "bertrand": (affine(P.BertrandDistribution), (2, 0, 0)),
    "unterberger": (affine(P.UnterbergerDistribution), (2, 0, 0)),
    "unterberger_p": (affine(P.UnterbergerDistribution, form="P"), (2, 0, 0)),
    "dflandrin": (affine(P.DFlandrinDistribution), (2, 0, 0)),
    "narrow_band": (first(ambiguity.narrow_band), (2, 0, 0)),
    "wide_band": (first(ambiguity.wide_band, fmin=0.1, fmax=0.4, N=12), (2, 0, 0)),
    "gabor": (first(linear.gabor), (2, 1, 0)),
    "loctime": (first(P.loctime), (0, 0)), "locfreq": (first(P.locfreq), (0, 0)),
    "inst_freq": (first(P.inst_freq), (0, 0)),
    "group_delay": (lambda x, o: (P.group_delay(x),), (0,)),
    "r_morlet": (lambda x, o: R.morlet_scalogram(x)[:1], (2,)),
})
ANALYTIC_ONLY = ("scalogram", "bertrand", "unterberger", "unterberger_p", "dflandrin", "wide_band")


@st.composite
def invariance_cases(draw):
    name = draw(st.sampled_from(sorted(DEGREES)))
    n = draw(sizes(18, 36, 50, 64, 99, 128, 160))
    return dict(name=name, n=n, seed=draw(G.SEEDS),
                kind=draw(st.sampled_from(("noise", "chirp", "atom", "two_tones"))),
                change=draw(st.sampled_from(("scale", "phase", "dtype", "layout", "shape", "int",
                                             "conj_pair", "silence"))),
                gain=draw(st.sampled_from((-1.0, 2.0, 0.125, -3.0, 1e3, 1e-4, 1e-8, 1e9, 1e-20, 1e20))),
                angle=draw(st.sampled_from((PI / 2, PI, 0.7, -2.1))),
                weak=draw(st.sampled_from((None, None, 1e-2, 1e-3, 1e-4))),
                layout=draw(st.sampled_from(("strided", "reversed", "readonly", "F", "bytes"))),
                itype=draw(st.sampled_from(("int64", "int32", "int16", "int8", "uint8", "uint16"))),
                shape=draw(st.sampled_from(("row", "col"))))


def results(name, x):
    out = sut(DEGREES[name][0], x, {})
    return [np.asarray(a) for a in (out if isinstance(out, (tuple, list)) else (out,))]


def agree(name, got, base, factor, tol, what):
    for a, b, deg in zip(got, base, DEGREES[name][1]):
        g = factor ** deg if not np.iscomplexobj(np.asarray(factor)) else factor
        e = b * g
        require(a.shape == e.shape, "%s: %s changes the shape" % (name, what), got=a.shape,
                expected=e.shape)
        ok = np.isfinite(e)
        require(bool(np.array_equal(np.isfinite(a), ok)), "%s: %s makes values infinite" % (name, what))
        if not np.any(ok):
            continue
        scale = float(np.max(np.abs(e[ok])))
        err = np.abs(a[ok].astype(complex) - e[ok])
        if name.startswith("r_"):
            # rounding may tip single moves: compare the bulk
            bad = float(np.mean(err > tol * scale))
            require(bad <= 0.04, "%s: %s changes the result" % (name, what), fraction=bad)
        else:
            require(float(np.max(err)) <= tol * scale, "%s: %s changes the result" % (name, what),
                    error=float(np.max(err)), scale=scale)


def check_invariance(c):
    name, change = c["name"], c["change"]
    d = dict(n=c["n"], kind=c["kind"], seed=c["seed"], dtype="complex128", layout="C", amp=1.0)
    z = G.samples(d)
    if c["weak"] and change in ("scale", "phase", "layout") and name.startswith("r_"):
        z[c["n"] // 2:] *= c["weak"]                # values on both sides of a threshold
    if name in ("inst_freq", "group_delay", "locfreq") and c["kind"] != "noise" and change == "dtype":
        return False                                # ill conditioned in single precision
    if change == "scale":
        agree(name, results(name, z * c["gain"]), results(name, z), c["gain"], 1e-7, "a gain")
    elif change == "silence":
        if name not in BILINEAR and name not in ("narrow_band", "gabor", "r_morlet"):
            return False                            # normalised by an integral
        for k, (a, b, deg) in enumerate(zip(results(name, 0 * z), results(name, z), DEGREES[name][1])):
            require(a.shape == b.shape, name + ": silence changes the shape", got=a.shape,
                    expected=b.shape)
            require(bool(np.array_equal(a, b * 0 if deg else b)),
                    name + ": silence is not represented by zeros", result=k)
    elif change == "phase":
        w = np.exp(1j * c["angle"]) if name not in ANALYTIC_ONLY else -1.0
        got, base = results(name, z * w), results(name, z)
        base = [b * w if deg == 1 else b for b, deg in zip(base, DEGREES[name][1])]
        agree(name, got, base, 1.0, 1e-7, "a phase")
    elif change == "dtype":
        if name in ("group_delay", "inst_freq"):
            return False
        agree(name, results(name, z.astype(np.complex64)), results(name, z.astype(np.complex64).astype(
            complex)), 1.0, 5e-3 if name in ANALYTIC_ONLY else 1e-3, "single precision")
        x = np.real(z)
        agree(name, results(name, x), results(name, x.astype(complex)), 1.0, 1e-7,
              "a real type")
    elif change == "layout":
        if c["layout"] == "F":
            y = np.asfortranarray(np.c_[z, z])[:, 0]
        elif c["layout"] == "bytes":
            y = z.astype(z.dtype.newbyteorder())
        else:
            y = G.lay(z, c["layout"])
        agree(name, results(name, y), results(name, z), 1.0, 1e-9, "the memory layout")
    elif change == "shape":
        agree(name, results(name, G.lay(z, "C", c["shape"])), results(name, z), 1.0, 1e-9,
              "the orientation of the vector")
    elif change == "int":
        peak = float(np.max(np.abs(np.real(z))))
        top = {"int8": 120, "uint8": 250, "int16": 3e4, "int32": 2e9, "uint16": 6e4}.get(c["itype"], 40)
        y = np.round(np.real(z) / (peak or 1.0) * top * (0.4 if c["itype"].startswith("u") else 1))
        x = (y + (np.round(0.5 * top) if c["itype"].startswith("u") else 0)).astype(c["itype"])
        if not np.any(x):
            return False
        agree(name, results(name, x), results(name, x.astype(float)), 1.0, 1e-9, "an integer type")
    else:
        # conjugation mirrors the frequencies
        if name in ANALYTIC_ONLY:                   # they look at the real part
            agree(name, results(name, np.conj(z)), results(name, z), 1.0, 1e-9, "conjugation")
            return change
        if name not in BILINEAR and name not in ("narrow_band", "r_morlet"):
            return False
        a, b = results(name, np.conj(z))[0], results(name, z)[0]
        b = np.roll(b[::-1], 1, axis=0)
        if name == "narrow_band":                   # A(x*)(xi, lag) = A*(x)(-xi, lag)
            b = np.conj(np.roll(b, -1 if c["n"] % 2 else 0, axis=0))
        if name == "stft":
            b = np.conj(b)
        agree(name, [a], [b], 1.0, 1e-8, "conjugation")
    return change


# -- C33: where reassignment moves the points ------------------------------------------

VECTORS = {"r_pwv": R.pseudo_wigner_ville, "r_pmh": R.pseudo_margenau_hill,
           "r_ppage": R.pseudo_page, "r_spwv": R.smoothed_pseudo_wigner_ville,
           "r_spectrogram": R.spectrogram, "r_morlet": R.morlet_scalogram}


@st.composite
def vector_cases(draw):
    return dict(name=draw(st.sampled_from(sorted(VECTORS))), n=draw(st.integers(16, 48)),
                seed=draw(G.SEEDS), kind=draw(st.sampled_from(("noise", "chirp", "atom"))),
                weak=draw(st.sampled_from((1.0, 1e-2, 1e-3, 1e-4))), at=draw(st.booleans()),
                gain=draw(st.sampled_from((2.0, 0.25, -3.0, 1e3, 1e-4, 1e-8, 1e9, 1e-20, 1e20))),
                angle=draw(st.sampled_from((0.0, PI / 2, 0.7))))


def check_vectors(c):
    """A gain or a phase changes neither which points are moved nor where to."""
    z = G.samples(dict(n=c["n"], kind=c["kind"], seed=c["seed"], dtype="complex128", layout="C",
                       amp=1.0))
    z[slice(c["n"] // 2, None) if c["at"] else slice(0, c["n"] // 2)] *= c["weak"]
    f, name = VECTORS[c["name"]], c["name"]
    base, got = sut(f, z)[2], sut(f, z * c["gain"] * np.exp(1j * c["angle"]))[2]
    require(np.shape(base) == np.shape(got), name + ": a gain changes the shape")
    kept = np.isfinite(base)
    flips = int(np.sum(kept != np.isfinite(got)))
    # (rounding may decide on single points)
    require(flips <= max(1, 0.002 * base.size), name + ": the points moved depend on the gain",
            points=flips, of=base.size)
    both = kept & np.isfinite(got)
    bad = float(np.mean(np.abs(base[both] - got[both]) > 1e-9)) if np.any(both) else 0.0
    require(bad <= 0.04, name + ": where points move depends on the gain", fraction=bad)
    return name if not np.all(kept) else True


# -- C33: the other arrays ---------------------------------------------------------

def _z(n=30):
    rs = np.random.RandomState(n)
    return rs.randn(n) + 1j * rs.randn(n)


def _win(func, key="fwindow", run=False):
    if run:
        return lambda w: func(_z(), **{key: w}).run()
    return lambda w: func(_z(), **{key: w})


def _when(func, key="timestamps", run=False, x=None, **kw):
    x = _z() if x is None else x
    if run:
        return lambda t: func(x, **dict(kw, **{key: t})).run()
    return lambda t: func(x, **dict(kw, **{key: t}))


BAND = dict(fmin=0.1, fmax=0.4, n_voices=12, x=np.real(_z()))
HAT = (np.arange(30).reshape(5, 6) % 5) + 1j * (np.arange(30).reshape(5, 6) // 5)
GRID = np.random.RandomState(3).rand(5, 6) + 0.1
WINDOWED = {
    "stft": _win(P.ShortTimeFourierTransform, run=True),
    "spectrogram": _win(P.Spectrogram, run=True),
    "pwvd": _win(P.PseudoWignerVilleDistribution, run=True),
    "pmh": _win(cohen.PseudoMargenauHillDistribution, run=True),
    "ppage": _win(cohen.PseudoPageRepresentation, run=True),
    "spwv": _win(cohen.smoothed_pseudo_wigner_ville),
    "spwv (time)": _win(cohen.smoothed_pseudo_wigner_ville, "twindow"),
    "r_pwv": _win(R.pseudo_wigner_ville), "r_pmh": _win(R.pseudo_margenau_hill),
    "r_ppage": _win(R.pseudo_page), "r_spwv": _win(R.smoothed_pseudo_wigner_ville),
    "r_spwv (time)": _win(R.smoothed_pseudo_wigner_ville, "twindow"),
    "r_spectrogram": _win(R.spectrogram, "window"),
    "gabor": lambda w: linear.gabor(_z(), 6, 2, w),
    "derive_window": PU.derive_window,
}
SELECTED = {
    "stft": _when(P.ShortTimeFourierTransform, run=True),
    "spectrogram": _when(P.Spectrogram, run=True),
    "pwvd": _when(P.PseudoWignerVilleDistribution, run=True),
    "pmh": _when(cohen.PseudoMargenauHillDistribution, run=True),
    "ppage": _when(cohen.PseudoPageRepresentation, run=True),
    "mh": _when(P.MargenauHillDistribution, run=True),
    "page": _when(cohen.PageRepresentation, run=True),
    "spwv": _when(cohen.smoothed_pseudo_wigner_ville),
    "r_pwv": _when(R.pseudo_wigner_ville), "r_pmh": _when(R.pseudo_margenau_hill),
    "r_ppage": _when(R.pseudo_page), "r_spwv": _when(R.smoothed_pseudo_wigner_ville),
    "r_spectrogram": _when(R.spectrogram, "time_samples"), "r_morlet": _when(R.morlet_scalogram),
    "scalogram": _when(P.Scalogram, run=True, **BAND),
    "bertrand": _when(P.BertrandDistribution, run=True, **BAND),
    "unterberger": _when(P.UnterbergerDistribution, run=True, **BAND),
    "dflandrin": _when(P.DFlandrinDistribution, run=True, **BAND),
    "ideal": lambda t: PP.ideal_tfr(0.05 + 0.4 * np.random.RandomState(1).rand(2, 30), timestamps=t),
    "inst_freq": lambda t: P.inst_freq(_z(), t=np.clip(t, t.dtype.type(2), t.dtype.type(29))),
    "narrow_band": lambda t: ambiguity.narrow_band(_z(), lag=t // t.dtype.type(2)),
}
AXES = {
    "integrate (x)": lambda a: PU.integrate_2d(GRID, a),
    "integrate (y)": lambda a: PU.integrate_2d(GRID.T, None, a),
    "renyi (time)": lambda a: PP.renyi_information(GRID, timestamps=a),
    "renyi (frequency)": lambda a: PP.renyi_information(GRID.T, freq=a),
    "is_linear": U.is_linear,
    "modulo": lambda a: U.modulo(a, 7),
}
IMAGES = {
    "hough": PP.hough_transform, "renyi": PP.renyi_information,
    "renyi (Shannon)": lambda m: PP.renyi_information(m, alpha=1),
    "integrate": PU.integrate_2d,
    "friedman": lambda m: PP.friedman_density(m, HAT), "ridges": lambda m: PP.ridges(m, HAT),
    "izak": U.izak,
}
LAWS = {
    "fmodany": T.fmodany, "sigmerge": lambda v: T.sigmerge(v, _z(len(v)), 3.0),
    "sigmerge (second)": lambda v: T.sigmerge(_z(len(v)), v, 3.0),
    "scale": lambda v: T.scale(v, 1.5, 0.1, 0.4, 12),
    "scale (factors)": lambda v: T.scale(np.real(_z()), 1.0 + v[:2], 0.1, 0.4, 12),
    "atoms": lambda v: T.atoms(32, np.c_[10.0 + v[:2], v[:2], 5.0 + v[:2], 1.0 + v[:2]]),
    "ideal": lambda v: PP.ideal_tfr(np.array([v, v / 2], dtype=v.dtype)),
    "group_delay": lambda v: P.group_delay(_z(), v[:4]),
    "inst_freq": P.inst_freq, "loctime": P.loctime, "locfreq": P.locfreq,
}
KINDS_OF = {"window": WINDOWED, "instants": SELECTED, "axis": AXES, "image": IMAGES, "law": LAWS}
INTEGERS = ("int8", "int16", "int32", "uint8", "uint16", "uint32", ">i4", "<i8", ">i8")
WAYS = ("strided", "reversed", "readonly", "offset")


@st.composite
def argument_cases(draw):
    kind = draw(st.sampled_from(("window", "instants", "axis", "image", "law")))
    name = draw(st.sampled_from(sorted(KINDS_OF[kind])))
    return dict(kind=kind, name=name, seed=draw(G.SEEDS), down=draw(st.booleans()),
                step=draw(st.integers(1, 4)), first=draw(st.integers(0, 3)),
                dtype=draw(st.sampled_from(INTEGERS + (">f8", "float64", "longdouble"))),
                layout=draw(st.sampled_from(("C", "C") + WAYS + ("F",))))


def placed(x, layout):
    """The same values, elsewhere in memory."""
    if x.ndim == 1:
        if layout == "offset":
            return np.concatenate((x[:1], x))[1:]
        return G.lay(x, layout if layout in WAYS else "C")
    if layout == "F":
        return np.asfortranarray(x)
    if layout == "strided":
        buf = np.zeros((2 * x.shape[0], 3 * x.shape[1]), dtype=x.dtype)
        buf[::2, ::3] = x
        return buf[::2, ::3]
    if layout == "reversed":
        return np.ascontiguousarray(x[::-1, ::-1])[::-1, ::-1]
    if layout == "offset":
        return np.vstack((x[:1], x))[1:]
    y = x.copy()
    y.flags.writeable = layout != "readonly"
    return y


def check_arguments(c):
    """The type, the byte order and the layout of windows, instants, axes,
    images and laws do not matter either."""
    kind, name, rs = c["kind"], c["name"], np.random.RandomState(c["seed"])
    dtype, f = np.dtype(c["dtype"]), KINDS_OF[kind][name]
    top = 100 if dtype.kind not in "iu" or dtype.itemsize > 1 else int(np.iinfo(dtype).max)
    if kind == "window":
        base = rs.randint(1, top, 9).astype(float)
        if dtype.kind not in "u":
            base[rs.randint(9)] *= -1
        if name in ("spwv (time)", "r_spwv (time)") or dtype.kind == "u":
            base = np.abs(base)
    elif kind == "instants":
        if dtype.kind not in "iu":
            return False
        base = np.arange(c["first"], 29, c["step"])
        if name in ("scalogram", "bertrand", "unterberger", "dflandrin") and len(base) < 12:
            return False
    elif kind == "axis":
        base = np.cumsum(rs.randint(1, 9, 6)).astype(float)
        if c["first"]:
            base = 3.0 * np.arange(1, 7)
    elif kind == "image":
        base = rs.randint(0, top, (5, 6)).astype(float) + (1 if name.startswith("renyi") else 0)
    else:
        base = rs.randint(-50, 51, 32) / 128.0       # exact in single precision as well
        if name in ("atoms", "scale (factors)", "ideal", "group_delay"):
            base = np.abs(base)
        if dtype.kind not in "f":
            dtype = np.dtype(("float32", ">f4")[rs.randint(2)])
    if c["down"] and kind in ("instants", "axis"):
        base = base[::-1].copy()
    x = placed(base.astype(dtype), c["layout"])
    got = sut(f, x)
    expected = sut(f, base)
    got = got if isinstance(got, (tuple, list)) else (got,)
    expected = expected if isinstance(expected, (tuple, list)) else (expected,)
    what = "%s: the type or layout of its %s" % (name, kind)
    tol = 3e-4 if dtype.itemsize < 8 and dtype.kind == "f" else 1e-9
    for k, (a, b) in enumerate(zip(got, expected)):
        a, b = np.asarray(a), np.asarray(b)
        require(a.shape == b.shape, what + " changes the shape", got=a.shape, expected=b.shape)
        fin = np.isfinite(b)
        require(bool(np.array_equal(np.isfinite(a), fin)), what + " makes values infinite")
        if not np.any(fin):
            continue
        err = np.abs(a[fin].astype(complex) - b[fin])
        bad = err > tol * max(float(np.max(np.abs(b[fin]))), 1e-300)
        # (rounding may tip single reassignments, not those of exact arguments of one kind)
        require(float(np.mean(bad)) <= (0.04 if name.startswith("r_") and kind == "window" else 0),
                what + " changes the result", result=k, error=float(np.max(err)))
    return kind + " " + dtype.str


C32 = [Law("tone", tone_cases(), check_tone, 400),
       Law("impulse", impulse_cases(), check_impulse, 400),
       Law("chirp", chirp_cases(), check_chirp, 200),
       Law("labels", label_cases(), check_labels, 300),
       Law("packet", packet_cases(), check_packet, 300)]
C33 = [Law("invariance", invariance_cases(), check_invariance, 2500),
       Law("vectors", vector_cases(), check_vectors, 300),
       Law("arguments", argument_cases(), check_arguments, 800)]
