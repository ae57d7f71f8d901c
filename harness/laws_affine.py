"""C21 - C23: wide band ambiguity function, scalogram, affine distributions."""

import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import make_interp_spline

import gens as G
import ref
from core import Law, close, require, sut

import tftb.processing as P
from tftb.processing import affine, ambiguity

PI = np.pi


def ambiguous(v, eps=1e-7):
    """Whether rounding v to an integer is decided by floating point noise."""
    return abs(v - np.floor(v) - 0.5) < eps


def on_integer(v, eps=1e-7):
    return abs(v - round(v)) < eps


@st.composite
def bands(draw, lo=0.02, hi=0.5, gap=0.03):
    f0 = draw(G.reals(lo, hi - gap, (0.05, 0.1, 0.125, 0.2)))
    f1 = draw(G.reals(f0 + gap, hi, [e for e in (0.2, 0.25, 0.3, 0.4, 0.45, 0.5)
                                     if e >= f0 + gap]))
    return [f0, f1]


AFFINE_KINDS = ("noise", "tone", "chirp", "impulse", "atom", "two_tones", "decay", "const", "ints")


def spectrum_limits(s):
    """Candidates of the default band: the frequencies below one half whose bin
    is above a hundredth of the largest one, rounded outwards to multiples of
    0.05; several candidates when floating point noise decides, None when a bin
    sits on the threshold."""
    n = len(s)
    f = np.arange((n + 1) // 2) / float(n)
    sp = np.abs(ref.fourier(n) @ s)[:len(f)] ** 2
    if np.max(sp) < 1e-12 * np.sum(np.abs(s)) ** 2:
        return None                        # all at the Nyquist frequency, or nothing
    rel = sp / np.max(sp)
    if np.any(np.abs(rel - 0.01) < 1e-6):
        return None
    idx = np.nonzero(rel > 0.01)[0]
    lo = {max(0.01, 0.05 * np.floor(f[idx[0]] / 0.05 + e)) for e in (-1e-9, 1e-9)}
    hi = {0.05 * np.ceil(f[idx[-1]] / 0.05 + e) for e in (-1e-9, 1e-9)}
    return sorted(lo), sorted(hi)


@st.composite
def default_band_signals(draw, lo, hi, amps=(1.0,)):
    if draw(st.integers(0, 3)) == 0:
        return draw(G.signals(n=20 * draw(st.integers(1, hi // 20)), kinds=("grid_tone",),
                              dtypes=("float64", "complex128"), amps=amps))
    return draw(G.signals(lo=lo, hi=hi, dtypes=("float64", "complex128"), amps=amps,
                          kinds=("noise", "chirp", "two_tones", "atom", "tone", "decay",
                                 "const")))


def default_bands(lo, hi, fmin, fmax):
    """Candidates of the analysed band, given those of its two ends; a bound
    left out makes room on its side of a single frequency."""
    out = []
    for a in lo if fmin is None else [fmin]:
        for b in hi if fmax is None else [fmax]:
            for e in (-1e-9, 1e-9):
                f0, f1 = a, b
                if a + e >= b:
                    f0 = max(0.01, b - 0.05) if fmin is None else a
                    f1 = b + 0.05 if fmax is None else b
                if f0 < f1 and (f0, f1) not in out:
                    out.append((f0, f1))
    return out


# -- C21 wide band ambiguity function ------------------------------------------

def geometric(f0, f1, n):
    return f0 * (f1 / f0) ** (np.arange(n) / (n - 1.0))


def mellin(spec, n):
    """Discrete Mellin coefficients c = -n .. n - 1 of n geometric samples."""
    c = np.arange(-n, n)
    return np.exp(1j * PI * np.outer(c, np.arange(n)) / n) @ spec / (2.0 * n)


def wide_band_ref(z, f0, f1, n):
    """Correlation of the weighted geometric spectrum of the signal with that
    of its delayed copy, by the number of geometric steps between them; 1 at
    the origin.  Rows are dilations (two steps each), columns delays."""
    nx = len(z)
    t = np.arange(nx) - int(np.round(nx / 2.0))
    f = geometric(f0, f1, n)
    wave = np.exp(-2j * PI * np.outer(t, f))
    a = (z @ wave) * (f1 / f0) ** (0.5 * np.arange(n) / (n - 1.0))
    out = np.zeros((n, nx), dtype=complex)
    for i in range(n):
        s = 2 * (i - n // 2)                        # steps between the two spectra
        k = np.arange(max(0, -s), min(n, n - s))
        if len(k):
            out[i] = np.conj(wave[:, k + s]) @ (a[k] * np.conj(a[k + s]))
    energy = float(np.sum(np.abs(a) ** 2))
    return out / energy, energy


@st.composite
def waf_cases(draw, lo=6, hi=40, rare=90, most=48):
    return dict(sig=draw(G.signals(lo=lo, hi=hi, rare=rare, kinds=AFFINE_KINDS, columns=True,
                                   amps=(1.0, 1.0, 1e-3, 40.0))),
                band=draw(bands()), n=draw(st.integers(4, most)))


def band_energy(z, f0, f1, first, size):
    n = len(z)
    lo, hi = 1 + int(np.round(f0 * (size - 2))), 1 + int(np.round(f1 * (size - 2)))
    return float(np.linalg.norm((ref.fourier(n) @ z)[lo - 1 + first:hi + first]) ** 2)


def check_waf(c):
    x = G.expand(c["sig"])
    keep = x.copy()
    (f0, f1), n = c["band"], c["n"]
    z = ref.analytic(np.real(np.asarray(x).ravel()))
    nx = len(z)
    waf, tau, theta = sut(ambiguity.wide_band, x, fmin=f0, fmax=f1, N=n)
    close(x, keep, "the ambiguity function changed the signal", 0.0)
    m = int(np.round(nx / 2.0))
    close(tau, np.arange(nx) - m, "delay axis", 1e-12)
    close(theta, np.linspace(-1, 1, n) * np.log(f1 / f0), "dilation axis", 1e-9, scale=1.0)
    if ambiguous(f0 * (nx - 2)) or ambiguous(f1 * (nx - 2)):
        return False
    e, energy = wide_band_ref(z, f0, f1, n)
    single = c["sig"]["dtype"] in ("float32", "complex64")
    if energy < (1e-4 if single else 1e-9) * np.sum(np.abs(z)) ** 2:
        return False                                # no spectrum in the band
    peak = band_energy(z, f0, f1, 0, nx) / n
    tol = 1e-4 if single else 1e-7
    scale = peak + (1e-3 if single else 1e-6) * np.sum(np.abs(z) ** 2)
    close(waf, e * peak, "wide band ambiguity function", tol, scale=scale)
    close(waf[n // 2, m], peak, "value at the origin", tol, scale=scale)
    require(bool(np.all(np.abs(waf) <= peak * (1 + tol) + tol * scale)),
            "the ambiguity function is larger away from the origin")
    return True


@st.composite
def waf_default_cases(draw):
    return dict(sig=draw(default_band_signals(6, 60)),
                fmin=draw(st.one_of(st.none(), st.just(0.03))),
                fmax=draw(st.one_of(st.none(), st.just(0.48))),
                n=draw(st.one_of(st.none(), st.integers(6, 30))))


def voices(f0, f1, span):
    """Candidates of the default number of geometric samples."""
    b, r = f1 - f0, 2.0 * (f1 - f0) / (f0 + f1)
    q = b * span * (1 + 2.0 / r) * np.log((1 + r / 2.0) / (1 - r / 2.0)) / 2.0
    out = set()
    for e in (-1e-9, 1e-9):
        nq = np.ceil(q + e)
        nq -= nq % 2
        out.add(int(2 ** np.ceil(np.log2(max(2, nq)))))
    return sorted(out)


def check_waf_defaults(c):
    x = G.expand(c["sig"])
    z = ref.analytic(np.real(x))
    nx = len(z)
    lim = spectrum_limits(z)
    if lim is None:
        return False
    cands = []
    for a, b in default_bands(lim[0], lim[1], c["fmin"], c["fmax"]):
        counts = [c["n"]] if c["n"] else voices(a, b, nx - 1)
        cands += [(a, b, k) for k in counts]
    if not cands:
        return False                                # the bound given leaves no band
    got, _, theta = sut(ambiguity.wide_band, x, **{k: v for k, v in (
        ("fmin", c["fmin"]), ("fmax", c["fmax"]), ("N", c["n"])) if v is not None})
    problems = []
    for a, b, k in cands:
        e, _, eth = sut(ambiguity.wide_band, x, fmin=a, fmax=b, N=k)
        if np.shape(e) == np.shape(got) and np.allclose(eth, theta, atol=1e-9) and \
                np.max(np.abs(e - got)) <= 1e-5 * np.max(np.abs(e)):
            return True
        problems.append((a, b, k))
    require(False, "defaults of the wide band ambiguity function", candidates=problems,
            got=(np.shape(got), float(theta[-1])))


@st.composite
def waf_shift_cases(draw):
    return dict(n=draw(st.integers(40, 110)), f=draw(G.reals(0.14, 0.36)),
                c=draw(G.reals(0.35, 0.65)), w=draw(G.reals(0.06, 0.15)),
                phase=draw(G.reals(0, 6.2)))


def check_waf_peak(c):
    """The modulus of the ambiguity function of a pulse peaks where the pulse
    is compared with itself: no delay, no dilation."""
    n = c["n"]
    t = np.arange(n)
    x = np.exp(-((t - c["c"] * n) / (c["w"] * n)) ** 2) * np.cos(2 * PI * c["f"] * t + c["phase"])
    waf, tau, theta = sut(ambiguity.wide_band, x, fmin=0.05, fmax=0.5, N=64)
    i, j = np.unravel_index(int(np.argmax(np.abs(waf))), waf.shape)
    require(tau[j] == 0 and abs(theta[i]) <= 0.51 * (theta[1] - theta[0]),
            "the ambiguity function does not peak at the origin", delay=tau[j], dilation=theta[i])
    return True


C21 = [Law("definition", waf_cases(), check_waf, 700),
       Law("long_signals", waf_cases(100, 300, 520, 280), check_waf, 30),
       Law("defaults", waf_default_cases(), check_waf_defaults, 400),
       Law("peak", waf_shift_cases(), check_waf_peak, 200)]


# -- C22 scalogram --------------------------------------------------------------

def regular(n, lo=2):
    """Increasing selections of the samples 0 .. n - 1, mostly regular, or None."""
    def make(k):
        a, step, count = k
        if step > 3:
            keep = np.random.RandomState(a).rand(n) < (0.3, 0.7)[count % 2]
            keep[[0, n - 1] if count % 3 else [n // 3, n // 2]] = True
            idx = [int(i) for i in np.nonzero(keep)[0]]
            return idx if len(idx) >= lo else list(range(n))
        step = 1 + step % 4
        idx = list(range(a % max(1, n - step * (lo - 1)), n, step))
        idx = idx[:max(lo, 1 + count % len(idx))]
        return idx if len(idx) >= lo else list(range(n))
    return st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 10 ** 4), st.integers(0, 5),
                                                     st.integers(0, 10 ** 4)).map(make))


@st.composite
def scalogram_cases(draw, lo=4, hi=48, rare=200, none=True, most=40, wide=9.0):
    sig = draw(G.signals(lo=lo, hi=hi, rare=rare, kinds=AFFINE_KINDS, columns=True,
                         amps=(1.0, 1.0, 1e-3, 40.0)))
    n = sig["n"]
    return dict(sig=sig, band=draw(bands()), n_voices=draw(st.one_of(*[st.none()] * none, st.integers(2, most))),
                wave=draw(st.one_of(st.none(), st.just(0), G.reals(0.6, wide, (1, 2, 3.5, 5, 8)))),
                ts=draw(regular(n)))


def check_scalogram(c):
    x = G.expand(c["sig"])
    keep = x.copy()
    s = np.real(np.asarray(x, dtype=complex)).ravel()
    N = len(s)
    f0, f1 = c["band"]
    nv = c["n_voices"] or N
    centred = s - s.mean()
    if np.max(np.abs(centred)) < 1e-6 * (np.max(np.abs(s)) + 1e-30):
        return False
    ts = None if c["ts"] is None else np.array(c["ts"])
    kw = dict(fmin=f0, fmax=f1)
    for k, v in (("n_voices", c["n_voices"]), ("waveparams", c["wave"]), ("timestamps", ts)):
        if v is not None:
            kw[k] = v
    obj = sut(P.Scalogram, x, **kw)
    out = sut(obj.run)
    close(x, keep, "the scalogram changed the signal", 0.0)
    require(len(out) == 4, "the scalogram returns four arrays")
    tfr, t, f, wt = out
    inst = np.arange(N) if ts is None else ts
    close(t, inst, "time axis", 1e-12)
    ef = f0 * (f1 / f0) ** (np.arange(nv) / (nv - 1.0))
    close(f, ef, "frequency axis", 1e-10)
    z = ref.analytic(centred)
    # the wavelet at f is the one at the highest frequency, dilated
    wave = np.sqrt(N) if c["wave"] is None else c["wave"]
    e = np.empty((nv, len(inst)), dtype=complex)
    lag = inst[:, None] - np.arange(N)[None, :]
    for i in range(nv):
        a = f1 / ef[i]
        if wave > 0:
            half = wave * a
            if ambiguous(half):
                return False
            h = np.exp(-2 * np.log(10) * (lag / half) ** 2 + 2j * PI * ef[i] * lag)
            h[np.abs(lag) > int(np.round(half))] = 0
        else:
            r = 1.5 / ef[i]
            if on_integer(r) and not r == round(r):
                return False
            u = (PI * ef[i] * lag) ** 2
            h = ef[i] * np.sqrt(PI) / 2 * np.exp(-u) * (1 - 2 * u) + 0j
            h[np.abs(lag) > int(np.ceil(r))] = 0
        e[i] = h @ z / np.sqrt(a)
    slack = 3e4 if c["sig"]["dtype"] in ("float32", "complex64") else 1
    close(wt, e, "wavelet coefficients", 1e-8 * slack,
          scale=np.max(np.abs(z)) * 0.5 + np.max(np.abs(e)))
    power = np.abs(e) ** 2
    top = np.max(power)
    if top < 1e-9 * np.max(np.abs(z)) ** 2:
        return False
    tfr = np.asarray(tfr)
    require(tfr.shape == power.shape and tfr.dtype.kind == "f", "scalogram shape or type",
            shape=tfr.shape, dtype=tfr.dtype)
    require(bool(np.all(tfr >= 0)), "the scalogram is negative")
    total = ref.trapezoid_2d_fast(power, inst, ef)
    if ambiguous(f0 * (N - 2)) or ambiguous(f1 * (N - 2)):
        return False
    gain = band_energy(z, f0, f1, 1, N) / total / nv
    if gain * top < 1e-9 * np.sum(np.abs(z) ** 2):
        return False                                    # nothing of the signal in the band
    close(tfr, power * gain, "scalogram", 1e-7 * slack)
    return ("mexhat" if wave == 0 else "morlet") + ("" if ts is None else " subset")


@st.composite
def scalogram_tone_cases(draw):
    return dict(n=draw(st.integers(90, 200)), f=draw(G.reals(0.1, 0.35)), seed=draw(G.SEEDS),
                w=draw(G.reals(0.08, 0.16)), c=draw(G.reals(0.35, 0.65)))


def check_scalogram_pulse(c):
    """A pulse appears at its own time and frequency."""
    n = c["n"]
    t = np.arange(n)
    x = np.exp(-((t - c["c"] * n) / (c["w"] * n)) ** 2) * np.cos(2 * PI * c["f"] * t)
    tfr, ts, f, _ = sut(sut(P.Scalogram, x, fmin=0.04, fmax=0.49, n_voices=120, waveparams=8).run)
    power = tfr / tfr.sum()
    ct = float(np.sum(power.sum(axis=0) * ts))
    i, j = np.unravel_index(int(np.argmax(tfr)), tfr.shape)
    require(abs(ct - c["c"] * n) < 0.02 * n + 1, "the scalogram is not where the pulse is",
            got=ct, expected=c["c"] * n)
    # the square root of the scale favours wide wavelets by a bounded amount
    require(abs(np.log(f[i] / c["f"])) < 0.12, "the scalogram is not at the pulse's frequency",
            got=f[i], expected=c["f"])
    return True


@st.composite
def default_band_cases(draw):
    return dict(sig=draw(default_band_signals(14, 80, (1.0, 7.0))),
                cls=draw(st.sampled_from(("scalogram", "bertrand", "unterberger", "dflandrin"))),
                fmin=draw(st.one_of(st.none(), st.none(), st.just(0.03))),
                fmax=draw(st.one_of(st.none(), st.none(), st.just(0.47))),
                nv=draw(st.one_of(st.none(), st.integers(6, 40))),
                part=draw(st.sampled_from((None, None, [3, 1], [8, 2], [0, 3]))),
                pair=draw(st.one_of(st.none(), st.none(), G.SEEDS)))


CLASSES = {"scalogram": "Scalogram", "bertrand": "BertrandDistribution",
           "unterberger": "UnterbergerDistribution", "dflandrin": "DFlandrinDistribution"}


def check_default_band(c):
    """The analysed band is left out: it is the one where the spectrum of the
    signal lives, and the result is that of naming this band."""
    x = G.expand(c["sig"])
    s = np.real(x)
    N = len(s)
    ts = None
    seen = s                                   # the part the instants span
    if c.get("part"):
        ts = np.arange(c["part"][0], N - (5 if N > 30 else 0), c["part"][1])
        seen = s[ts[0]:ts[-1] + 1]
    lim = spectrum_limits(seen)
    if lim is None:
        return False
    if c.get("pair") is not None and c["cls"] != "scalogram":
        # the first signal of a pair has the lowest frequency, the second the highest
        rs = np.random.RandomState(c["pair"])
        t = np.arange(N)
        f, w, k = 0.05 + 0.4 * rs.rand(), (0.05 + 0.2 * rs.rand()) * N, (0.3 + 0.4 * rs.rand()) * N
        y = s + 0.3 * rs.randn(N) + 3 * np.max(np.abs(s)) * np.cos(2 * PI * f * t) * \
            np.exp(-((t - k) / w) ** 2)
        x = np.c_[s, y]
        top = spectrum_limits(y if ts is None else y[ts[0]:ts[-1] + 1])
        if top is None:
            return False
        lim = lim[0], top[1]
    cands = default_bands(lim[0], lim[1], c["fmin"], c["fmax"])
    if not cands or (c["cls"] == "scalogram" and s.std() < 1e-3):
        return False             # the bound given leaves no band, or nothing but the mean
    cls = getattr(P, CLASSES[c["cls"]])
    kw = {k: v for k, v in (("fmin", c["fmin"]), ("fmax", c["fmax"]), ("n_voices", c["nv"]))
          if v is not None}
    if ts is not None:
        kw["timestamps"] = ts
    out = sut(sut(cls, x, **kw).run)
    f = np.asarray(out[2])
    used = [p for p in cands if max(abs(p[0] - f[0]), abs(p[1] - f[-1])) < 1e-9]
    require(bool(used), "the default band", got=(f[0], f[-1]), expected=cands)
    again = sut(sut(cls, x, fmin=float(used[0][0]), fmax=float(used[0][1]), n_voices=len(f),
                    **({} if ts is None else dict(timestamps=ts))).run)
    mass = np.sum(np.abs(out[0]))
    if abs(np.sum(out[0])) < 1e-3 * mass or any(ambiguous(e * (N - 2)) for e in used[0]):
        return False
    if c["cls"] != "scalogram":                # nothing at the frequencies compared
        seen = np.exp(-2j * PI * np.outer(f, np.arange(N))) @ np.real(x).reshape(N, -1)
        if np.max(np.abs(seen), axis=0).min() < 1e-6 * np.sum(np.abs(s)):
            return False
    close(out[0], again[0], "the default band", 1e-5)
    if c["nv"] is None:
        counts = {N}
        if c["cls"] != "scalogram":
            p = affine_points(c["cls"], N, *used[0])
            if p is None:
                return False
            counts = set(voices(*used[0], 2 * p[1] - 1))
        require(len(f) in counts, "default number of voices", got=len(f), expected=sorted(counts))
    return c["cls"]


C22 = [Law("definition", scalogram_cases(), check_scalogram, 1200),
       Law("long_signals", scalogram_cases(100, 300, 520, False, 160, 45.0), check_scalogram, 30),
       Law("pulse", scalogram_tone_cases(), check_scalogram_pulse, 200),
       Law("default_band", default_band_cases(), check_default_band, 400)]


# -- C23 Bertrand, Unterberger and D-Flandrin distributions -----------------------

def dilations(kind, u):
    """The two dilations compared at u, and the sign of the weight exponent."""
    if kind == "bertrand":
        with np.errstate(all="ignore"):
            base = np.where(u == 0, 1.0, (u / 2) / np.sinh(np.where(u == 0, 1.0, u / 2)))
        return base * np.exp(-u / 2), base * np.exp(u / 2), 0.5
    if kind == "dflandrin":
        return (1 - u / 4) ** 2, (1 + u / 4) ** 2, -0.5
    root = np.sqrt(1 + (u / 2) ** 2)
    return root - u / 2, root + u / 2, -0.5


def affine_points(kind, N, f0, f1):
    """Largest dilation and half number of points of its grid (None: decided
    by rounding)."""
    r = f1 / f0
    umax = {"bertrand": np.log(r), "unterberger": 2 * np.sinh(np.log(r) / 2),
            "dflandrin": 4 * (np.sqrt(r) - 1) / (np.sqrt(r) + 1)}[kind]
    m = (N + 1) // 2
    crit = f1 * umax                                # 1 / crit < limit / m
    limit = N if kind == "bertrand" else 2 * m
    if abs(m / crit - limit) < 1e-6 * limit:
        return None
    m1 = m
    if m / crit < limit:
        v = 2 * m * crit - m
        if ambiguous(v):
            return None
        m1 = m + int(np.round(v)) + 1
    return umax, m1


def affine_ref(kind, s1, s2, f0, f1, nv, ts, passive=False):
    """Without normalisation; None where rounding decides."""
    N = len(s1)
    pts = affine_points(kind, N, f0, f1)
    if pts is None:
        return None
    umax, m1 = pts
    m = (N + 1) // 2
    f = geometric(f0, f1, nv)
    lnq = np.log(f1 / f0) / (nv - 1.0)
    wave = np.exp(-2j * PI * np.outer(np.arange(N) - m, f))
    M1, M2 = mellin(s1 @ wave, nv), mellin(s2 @ wave, nv)
    c = np.arange(-nv, nv)
    beta = c / (2.0 * nv * lnq)
    u = umax * (np.arange(-m1, m1) / float(m1))
    d1, d2, sign = dilations(kind, u)
    back = np.exp(-1j * PI * np.outer(c, np.arange(nv)) / nv)

    def dilated(d, M):
        return (np.exp(np.outer(np.log(d), -2j * PI * beta + sign)) * M[None, :]) @ back
    w = dilated(d1, M1) * np.conj(dilated(d2, M2))
    if passive:
        w = w / np.sqrt(1 + (u / 2) ** 2)[:, None]
    w = w * f[None, :]
    r = m1 - 1 - np.arange(2 * m1)                  # column j of the scaled time axis
    P0 = np.real(np.exp(1j * PI * np.outer(r, np.arange(-m1, m1)) / m1) @ w) / (2.0 * m1)
    gamma = -r / (2.0 * umax)                       # time (from sample m) times frequency
    out = np.empty((nv, len(ts)))
    for i in range(nv):
        spline = make_interp_spline(gamma, P0[:, i], k=3)
        out[i] = spline((ts - m) * f[i])
    return out


@st.composite
def affine_cases(draw, lo=5, hi=44, rare=90, most=32):
    sig = draw(G.signals(lo=lo, hi=hi, rare=rare, kinds=AFFINE_KINDS,
                         amps=(1.0, 1.0, 1e-3, 40.0)))
    n = sig["n"]
    band = draw(bands(lo=0.004, gap=0.04))
    cross = draw(st.sampled_from((None, None, None, "same", "other")))
    return dict(sig=sig, kind=draw(st.sampled_from(("bertrand", "unterberger", "unterberger_p",
                                                    "dflandrin"))),
                band=band, nv=draw(st.integers(3, most)), ts=draw(regular(n)), cross=cross,
                other=draw(G.signals(n=n, kinds=AFFINE_KINDS, dtypes=("float64", "complex128"))),
                col=draw(st.booleans()))


def check_affine(c):
    x = G.expand(c["sig"])
    N = len(x)
    if c["cross"]:
        y = x if c["cross"] == "same" else G.expand(c["other"])
        arg = np.c_[x, y]
    else:
        y = x
        arg = x.reshape(-1, 1) if c["col"] else x
    keep = arg.copy()
    f0, f1 = c["band"]
    nv = c["nv"]
    ts = np.arange(N) if c["ts"] is None else np.array(c["ts"])
    kind = c["kind"].split("_")[0]
    s1, s2 = np.real(x).astype(float), np.real(y).astype(float)
    e = affine_ref(kind, s1, s2, f0, f1, nv, ts, c["kind"].endswith("_p"))
    if e is None or np.max(np.abs(e)) == 0:
        return False
    kw = dict(fmin=f0, fmax=f1, n_voices=nv)
    if c["ts"] is not None:
        kw["timestamps"] = ts
    if kind == "unterberger":
        kw["form"] = "P" if c["kind"].endswith("_p") else "A"
    obj = sut(getattr(P, CLASSES[kind]), arg, **kw)
    tfr, t, f = sut(obj.run)
    close(arg, keep, "the distribution changed the signal", 0.0)
    close(t, ts, "time axis", 1e-12)
    ef = geometric(f0, f1, nv)
    close(f, ef, "frequency axis", 1e-10)
    require(np.shape(tfr) == e.shape, "shape", got=np.shape(tfr), expected=e.shape)
    total = ref.trapezoid_2d_fast(e, ts, ef)
    mass = np.sum(np.abs(e)) * (ts[-1] - ts[0]) / (len(ts) - 1.0) * (f1 - f0) / nv
    size = np.sqrt(s1 @ s1) * np.sqrt(s2 @ s2)
    if abs(total) < 1e-3 * mass or mass < 1e-12 * size:
        return False
    if ambiguous(f0 * (N - 2)) or ambiguous(f1 * (N - 2)):
        return False
    tol = 1e-6 * (1e3 if c["sig"]["dtype"] in ("float32", "complex64") else 1)
    e = e / total
    # scaled by the energy of the whole signal in the band
    z1, z2 = ref.fourier(N) @ ref.analytic(s1), ref.fourier(N) @ ref.analytic(s2)
    lo, hi = int(np.round(f0 * (N - 2))), 1 + int(np.round(f1 * (N - 2)))
    if c["cross"]:
        energy = float(np.real(np.vdot(z2[lo:hi], z1[lo:hi])))
        if abs(energy) < 1e-6 * np.linalg.norm(z1[lo:hi]) * np.linalg.norm(z2[lo:hi]):
            return False
    else:
        energy = float(np.linalg.norm(z1[lo:hi]) ** 2)
    if abs(energy) < 1e-9 * size * N:
        return False
    close(tfr, e * energy / nv, c["kind"] + " distribution", tol)
    return c["kind"] + (" cross" if c["cross"] else "") + ("" if len(ts) == N else " subset")


@st.composite
def affine_pulse_cases(draw):
    return dict(n=draw(st.integers(50, 110)), f=draw(G.reals(0.15, 0.3)),
                w=draw(G.reals(0.08, 0.14)), c=draw(G.reals(0.35, 0.65)),
                kind=draw(st.sampled_from(("bertrand", "unterberger", "unterberger_p",
                                           "dflandrin"))))


def check_affine_pulse(c):
    n = c["n"]
    t = np.arange(n)
    x = np.exp(-((t - c["c"] * n) / (c["w"] * n)) ** 2) * np.cos(2 * PI * c["f"] * t)
    kw = dict(form="P") if c["kind"].endswith("_p") else {}
    cls = getattr(P, CLASSES[c["kind"].split("_")[0]])
    tfr, ts, f = sut(sut(cls, x, fmin=0.06, fmax=0.45, n_voices=64, **kw).run)
    i, j = np.unravel_index(int(np.argmax(tfr)), tfr.shape)
    require(abs(ts[j] - c["c"] * n) <= 0.75, "the distribution is not where the pulse is",
            got=ts[j], expected=c["c"] * n)
    row = np.sum(tfr, axis=0)
    mean = float(np.sum(row * ts) / np.sum(row))
    require(abs(mean - c["c"] * n) <= 0.3, "the distribution is not centred where the pulse is",
            got=mean, expected=c["c"] * n)
    require(abs(np.log(f[i] / c["f"])) < 0.1, "the distribution is not at the pulse's frequency",
            got=f[i], expected=c["f"])
    return c["kind"]


KERNELS = {"bertrand": 0.0, "unterberger": -1.0, "d_flandrin": 0.5, "aspwv": 2.0}


@st.composite
def kernel_cases(draw):
    return dict(kernel=draw(st.sampled_from(sorted(KERNELS))),
                u=draw(G.reals(-8.0, 8.0, (0.0, 1.0, -1.0, 0.5, 2.0, -2.0))),
                ratio=draw(G.reals(1.01, 60.0, (2.0, 4.0, 10.0))))


def check_kernel(c):
    """The dilation of the affine kernel of index k is
    (k (e^-u - 1) / (e^-ku - 1)) ^ (1 / (k - 1)), one at zero, and e^u times
    its value at -u; the bound of D-Flandrin's is where the dilations of both
    sides are the ratio of the frequencies."""
    u, k = c["u"], KERNELS[c["kernel"]]
    if 0 < abs(u) < 1e-3:
        return False                                # lost in rounding
    if u == 0:
        e = 1.0
    elif k == 0:
        e = u / -np.expm1(-u)
    else:
        e = (k * np.expm1(-u) / np.expm1(-k * u)) ** (1.0 / (k - 1))
    got = float(sut(affine.lambdak, u, c["kernel"]))
    close(np.asarray(got), np.asarray(e), "dilation", 1e-9, scale=e)
    close(np.asarray(got), np.asarray(np.exp(u) * float(sut(affine.lambdak, -u, c["kernel"]))),
          "the two dilations", 1e-9, scale=e)
    top = float(sut(affine.umaxdfla_solve, c["ratio"]))
    require(0 < top < 4, "the largest dilation is out of its range", got=top)
    close(np.asarray(((1 + top / 4) / (1 - top / 4)) ** 2), np.asarray(c["ratio"]),
          "the largest dilation", 1e-8, scale=c["ratio"])
    return c["kernel"]


C23 = [Law("definition", affine_cases(), check_affine, 1200),
       Law("long_signals", affine_cases(100, 260, 520, 200), check_affine, 30),
       Law("pulse", affine_pulse_cases(), check_affine_pulse, 300),
       Law("kernels", kernel_cases(), check_kernel, 300),
       Law("default_band", default_band_cases(), check_default_band, 300)]
