"""C15 - C20: short time Fourier transform, spectrogram, Wigner-Ville family,
Margenau-Hill and Page, narrow band ambiguity function."""

import numpy as np
from hypothesis import strategies as st

import gens as G
import ref
from core import Law, close, require, sut

import tftb.processing as P
from tftb.processing import ambiguity, cohen, linear

PI = np.pi


def signal_of(d):
    x = G.expand(d)
    return x, np.asarray(x, dtype=complex).ravel()


def peak(z):
    return float(np.max(np.abs(z))) ** 2


@st.composite
def bins(draw, n, lo=1, hi=70):
    """Number of bins: left out, the signal's own, fewer, more."""
    return draw(st.one_of(st.none(), st.just(n) if n >= lo else st.integers(lo, hi),
                          st.integers(lo, hi),
                          st.integers(max(lo, n - 3), max(lo, n + 3))))


def labels(draw, n):
    """Time stamps: left out, samples, or arbitrary increasing labels."""
    return draw(st.sampled_from((None, None, "int", "shifted", "seconds")))


def picked(c, n):
    """The columns to compare: all of them, or a few for long signals."""
    if c.get("cols") is None or n <= 12:
        return np.arange(n)
    rs = np.random.RandomState(c["cols"])
    few = np.r_[0, 1, n // 2, n - 2, n - 1, rs.randint(0, n, 7)]
    return np.unique(few)


@st.composite
def large_signals(draw, hi=700, rare=1300, **kw):
    kw.setdefault("amps", (1.0, 1.0, 3.7))
    return draw(G.signals(lo=90, hi=hi, rare=rare, **kw))


@st.composite
def large_bins(draw, n, lo=2):
    """Left out, the next power of two, any number of the same order."""
    return draw(st.one_of(st.none(), st.none(), st.sampled_from((128, 256, 512, 1024)),
                          st.integers(max(lo, n // 3), n + n // 2), st.integers(max(lo, n - 2), n + 2)))


def make_labels(kind, n):
    return {None: None, "int": np.arange(n), "shifted": np.arange(n) + 17,
            "seconds": np.linspace(0.0, 1.0, n)}[kind]


def run(cls, x, **kw):
    kw = {k: v for k, v in kw.items() if v is not None}
    obj = sut(cls, x, **kw)
    return sut(obj.run)


def check_axes(out, ts, freqs, shape):
    require(len(out) >= 3, "run() returns the representation, the instants and the frequencies")
    require(np.shape(out[0]) == shape, "shape of the representation", got=np.shape(out[0]),
            expected=shape)
    close(out[1], ts, "time axis", 1e-12, scale=max(1.0, float(np.max(np.abs(ts)))))
    close(out[2], freqs, "frequency axis", 1e-12, scale=1.0)


def real(tfr, what):
    tfr = np.asarray(tfr)
    require(tfr.dtype.kind == "f" or float(np.max(np.abs(np.imag(tfr)), initial=0)) == 0,
            what + " is not real")
    return np.real(tfr)


# -- C15 short time Fourier transform ----------------------------------------

@st.composite
def stft_cases(draw):
    sig = draw(G.signals(lo=1, hi=44, rare=300, columns=True))
    n = sig["n"]
    nf = draw(bins(n, lo=1))
    m = n if nf is None else nf
    win = draw(st.one_of(st.none(), G.windows(2 * ((m - 1) // 2) + draw(st.sampled_from((1, 1, 9))))))
    return dict(sig=sig, n_fbins=nf, win=win, cplx=draw(st.booleans()), ts=labels(draw, n))


def stft_window(c, m):
    if c["win"] is None:
        return None, ref.default_window(m)
    h = G.window(c["win"])
    if c.get("cplx"):
        h = h * np.exp(0.7j * np.arange(len(h)))
    return h, h


def check_stft(c):
    x, z = signal_of(c["sig"])
    keep = x.copy()
    N = len(z)
    n = c["n_fbins"] or N
    arg, h = stft_window(c, n)
    kept = None if arg is None else arg.copy()
    ts = make_labels(c["ts"], N)
    out = run(P.ShortTimeFourierTransform, x, n_fbins=c["n_fbins"], fwindow=arg, timestamps=ts)
    close(x, keep, "the transform changed the signal", 0.0)
    if arg is not None:
        close(arg, kept, "the transform changed the window", 0.0)
    check_axes(out, np.arange(N) if ts is None else ts, ref.fft_labels(n), (n, N))
    cols = picked(c, N)
    e = ref.stft(z, n, h, cols - 1, (n + 1) // 2 - 1)
    close(np.asarray(out[0])[:, cols], e, "short time Fourier transform", G.tolerance(c["sig"]),
          scale=np.sqrt(peak(z)) * np.sum(np.abs(h)))
    return N > 3 and n > 2


@st.composite
def stft_linear_cases(draw):
    n = draw(st.integers(2, 40))
    nf = draw(bins(n, lo=2))
    m = n if nf is None else nf
    return dict(a=draw(G.signals(n=n, dtypes=("complex128",))),
                b=draw(G.signals(n=n, dtypes=("complex128",))), n_fbins=nf,
                win=draw(st.one_of(st.none(), G.windows(2 * ((m - 1) // 2) + draw(st.sampled_from((1, 1, 9)))))),
                k=draw(st.integers(0, 200)), re=draw(G.reals(-3.0, 3.0)),
                im=draw(G.reals(-3.0, 3.0)))


def check_stft_linear(c):
    """Linear in the signal; modulating by a bin rotates the rows."""
    x, y = G.expand(c["a"]), G.expand(c["b"])
    N = len(x)
    n = c["n_fbins"] or N
    arg = None if c["win"] is None else G.window(c["win"])
    lam = c["re"] + 1j * c["im"]

    def tf(s):
        return run(P.ShortTimeFourierTransform, s, n_fbins=c["n_fbins"], fwindow=arg)[0]
    A, B = tf(x), tf(y)
    scale = max(np.max(np.abs(A)), np.max(np.abs(lam * B)), 1e-30)
    close(tf(x + lam * y), A + lam * B, "linearity", 1e-9, scale=scale)
    k = c["k"] % n
    t = np.arange(N)
    M = tf(x * np.exp(2j * PI * k * t / n))
    e = np.roll(A, k, axis=0) * np.exp(2j * PI * k * (t - 1) / n)[None, :]
    close(M, e, "modulation", 1e-8, scale=scale)
    return True


@st.composite
def large_stft_cases(draw):
    sig = draw(large_signals(columns=True))
    n = sig["n"]
    nf = draw(large_bins(n))
    m = n if nf is None else nf
    win = draw(st.one_of(st.none(), G.windows(2 * ((m - 1) // 2) + draw(st.sampled_from((1, 1, 9))))))
    return dict(sig=sig, n_fbins=nf, win=win, cplx=draw(st.booleans()), ts=labels(draw, n),
                cols=draw(G.SEEDS))


C15 = [Law("definition", stft_cases(), check_stft, 2500),
       Law("long_signals", large_stft_cases(), check_stft, 60),
       Law("linearity_modulation", stft_linear_cases(), check_stft_linear, 800)]


# -- C16 spectrogram ----------------------------------------------------------

@st.composite
def spectrogram_cases(draw):
    sig = draw(G.signals(lo=1, hi=44, rare=300, columns=True))
    n = sig["n"]
    nf = draw(bins(n, lo=2))
    m = n if nf is None else nf
    longest = 2 * ((m + 1) // 2 - 1) + 1 + 8    # taps beyond half the bins are ignored
    win = draw(st.one_of(st.none(), G.windows(max(1, longest))))
    return dict(sig=sig, n_fbins=nf, win=win, cplx=draw(st.booleans()),
                ts=draw(st.one_of(st.none(), G.subsets(n + 1))))


def check_spectrogram(c):
    x, z = signal_of(c["sig"])
    keep = x.copy()
    N = len(z)
    n = c["n_fbins"] or N
    if n < 2:
        return False
    arg, h = stft_window(c, n)
    ts = None if c["ts"] is None else np.array(c["ts"])
    out = run(P.Spectrogram, x, n_fbins=c["n_fbins"], fwindow=arg, timestamps=ts)
    close(x, keep, "the spectrogram changed the signal", 0.0)
    inst = np.arange(N) if ts is None else ts
    check_axes(out, inst, ref.fft_labels(n), (n, len(inst)))
    S = real(out[0], "spectrogram")
    cols = picked(c, len(inst))
    S, inst = S[:, cols], inst[cols]
    e, norm2 = ref.spectrogram(z, n, h, inst - 1, (n + 1) // 2 - 1)
    ok = norm2 > 1e-12 * np.sum(np.abs(h) ** 2)
    if not np.any(ok):
        return False
    require(bool(np.all(S[:, ok] >= 0)), "spectrogram is negative")
    tol = 10 * G.tolerance(c["sig"])
    close(S[:, ok], e[:, ok], "spectrogram", tol, scale=peak(z) * len(h))
    # the energy of a column is that of the windowed signal
    lh = (len(h) - 1) // 2
    energy = np.zeros(len(inst))
    for t in range(-min(lh, (n + 1) // 2 - 1), min(lh, (n + 1) // 2 - 1) + 1):
        energy += np.abs(ref.at(z, inst - 1 + t) * h[lh + t]) ** 2
    close(S[:, ok].sum(axis=0), n * energy[ok] / norm2[ok], "energy of the columns", tol,
          scale=n * peak(z))
    return N > 3 and n > 3


@st.composite
def total_energy_cases(draw):
    n = draw(st.integers(24, 120))
    return dict(n=n, seed=draw(G.SEEDS), half=draw(st.integers(1, 5)),
                nf=draw(st.integers(16, 130)), kind=draw(st.sampled_from(("ones", "hamming", "gauss"))))


def check_total_energy(c):
    """Signals whose support keeps clear of the ends: the whole spectrogram
    carries the energy of the signal, and delays move it."""
    n, lh = c["n"], c["half"]
    rs = np.random.RandomState(c["seed"])
    x = np.zeros(n, dtype=complex)
    a = 2 * lh + 1
    x[a:n - a] = rs.randn(n - 2 * a) + 1j * rs.randn(n - 2 * a)
    h = G.window(dict(len=2 * lh + 1, kind=c["kind"], seed=0, gain=1.0))
    S = run(P.Spectrogram, x, n_fbins=c["nf"], fwindow=h)[0]
    close(np.sum(S) / c["nf"], np.sum(np.abs(x) ** 2), "energy of the spectrogram", 1e-9)
    S1 = run(P.Spectrogram, np.roll(x, 1), n_fbins=c["nf"], fwindow=h)[0]
    close(S1[:, a + 1:n - a], S[:, a:n - a - 1], "spectrogram of a delayed signal", 1e-9)
    return True


@st.composite
def large_spectrogram_cases(draw):
    sig = draw(large_signals(columns=True))
    n = sig["n"]
    nf = draw(large_bins(n))
    m = n if nf is None else nf
    return dict(sig=sig, n_fbins=nf, cplx=draw(st.booleans()), cols=draw(G.SEEDS),
                win=draw(st.one_of(st.none(), G.windows(max(1, 2 * ((m + 1) // 2 - 1) + 1)))),
                ts=draw(st.one_of(st.none(), G.subsets(n + 1))))


C16 = [Law("definition", spectrogram_cases(), check_spectrogram, 2500),
       Law("long_signals", large_spectrogram_cases(), check_spectrogram, 60),
       Law("energy_and_delay", total_energy_cases(), check_total_energy, 500)]


# -- C17 Wigner-Ville ---------------------------------------------------------

@st.composite
def wvd_cases(draw):
    sig = draw(G.signals(lo=1, hi=44, rare=300, columns=True))
    return dict(sig=sig, n_fbins=draw(bins(sig["n"])), ts=labels(draw, sig["n"]))


def check_wvd(c):
    x, z = signal_of(c["sig"])
    keep = x.copy()
    N = len(z)
    n = c["n_fbins"] or N
    ts = make_labels(c["ts"], N)
    out = run(P.WignerVilleDistribution, x, n_fbins=c["n_fbins"], timestamps=ts)
    close(x, keep, "the distribution changed the signal", 0.0)
    check_axes(out, np.arange(N) if ts is None else ts, 0.5 * np.arange(n) / n, (n, N))
    W = real(out[0], "Wigner-Ville distribution")
    tol = G.tolerance(c["sig"])
    cols = picked(c, N)
    close(W[:, cols], ref.wigner_ville(z, n, centres=cols), "Wigner-Ville distribution", tol,
          scale=peak(z) * N)
    close(W.sum(axis=0), n * np.abs(z) ** 2, "time marginal", 10 * tol, scale=peak(z) * n * N)
    if n >= N:
        k = np.arange(n)
        t = np.arange(N)
        X0 = np.exp(-1j * PI * np.outer(k, t) / n) @ z
        X1 = np.exp(-1j * PI * np.outer(k, t) / n) @ (z * (-1.0) ** t)
        close(W.sum(axis=1), 0.5 * (np.abs(X0) ** 2 + np.abs(X1) ** 2), "frequency marginal",
              10 * tol, scale=peak(z) * N * N)
    return "%s bins" % ("equal" if n == N else "fewer" if n < N else "more") if N > 3 else False


@st.composite
def moyal_cases(draw):
    n = draw(st.integers(2, 60))
    return dict(a=draw(G.signals(n=n, dtypes=("complex128",))),
                b=draw(G.signals(n=n, dtypes=("complex128",))), shift=draw(st.integers(0, 20)),
                k=draw(st.integers(0, 100)))


def check_moyal(c):
    """Covariance, energy, supports, and Moyal's formula (which the sampled
    distribution obeys exactly once aliases are accounted for)."""
    x, y = G.expand(c["a"]), G.expand(c["b"])
    N = len(x)
    # zero padding in time and twice the bins separate the aliases
    xs = np.r_[np.zeros(N), x, np.zeros(N)]
    ys = np.r_[np.zeros(N), y, np.zeros(N)]
    n = 3 * N
    Wx = run(P.WignerVilleDistribution, xs)[0]
    Wy = run(P.WignerVilleDistribution, ys)[0]
    alt = (-1.0) ** np.arange(3 * N)
    ip = np.abs(np.vdot(ys, xs)) ** 2 + np.abs(np.vdot(ys * alt, xs)) ** 2
    close(np.sum(Wx * Wy) / n, ip / 2.0, "Moyal's formula", 1e-8,
          scale=np.linalg.norm(x) ** 2 * np.linalg.norm(y) ** 2 + 1e-300)
    require(bool(np.all(np.abs(Wx[:, :N]) < 1e-9 * peak(x) * N) and
                 np.all(np.abs(Wx[:, 2 * N:]) < 1e-9 * peak(x) * N)),
            "distribution leaves the support of the signal")
    s = c["shift"] % N
    close(run(P.WignerVilleDistribution, np.roll(xs, s))[0], np.roll(Wx, s, axis=1),
          "time covariance", 1e-9, scale=peak(x) * N)
    k = c["k"] % n
    M = run(P.WignerVilleDistribution, xs * np.exp(1j * PI * k * np.arange(n) / n))[0]
    close(M, np.roll(Wx, k, axis=0), "frequency covariance", 1e-8, scale=peak(x) * N)
    return True


@st.composite
def large_wvd_cases(draw):
    sig = draw(large_signals(columns=True))
    return dict(sig=sig, n_fbins=draw(large_bins(sig["n"])), ts=labels(draw, sig["n"]),
                cols=draw(G.SEEDS))


C17 = [Law("definition_marginals", wvd_cases(), check_wvd, 2500),
       Law("long_signals", large_wvd_cases(), check_wvd, 60),
       Law("moyal_covariance", moyal_cases(), check_moyal, 600)]


# -- C18 pseudo and smoothed pseudo Wigner-Ville ------------------------------

@st.composite
def pwvd_cases(draw):
    sig = draw(G.signals(lo=1, hi=44, rare=250, columns=True))
    n = sig["n"]
    nf = draw(bins(n))
    m = n if nf is None else nf
    return dict(sig=sig, n_fbins=nf, ts=labels(draw, n),
                win=draw(st.one_of(st.none(), G.windows(m + 12))))


def check_pwvd(c):
    x, z = signal_of(c["sig"])
    keep = x.copy()
    N = len(z)
    n = c["n_fbins"] or N
    arg, h = stft_window(c, n)
    ts = make_labels(c["ts"], N)
    out = run(P.PseudoWignerVilleDistribution, x, n_fbins=c["n_fbins"], fwindow=arg, timestamps=ts)
    close(x, keep, "the distribution changed the signal", 0.0)
    check_axes(out, np.arange(N) if ts is None else ts, 0.5 * np.arange(n) / n, (n, N))
    W = real(out[0], "pseudo Wigner-Ville distribution")
    cols = picked(c, N)
    close(W[:, cols], ref.wigner_ville(z, n, h, centres=cols), "pseudo Wigner-Ville distribution",
          G.tolerance(c["sig"]), scale=peak(z) * np.sum(np.abs(h)))
    return "long window" if (len(h) - 1) // 2 >= n / 2.0 else N > 3


@st.composite
def spwv_cases(draw):
    sig = draw(G.signals(lo=1, hi=32, rare=120, layouts=("C", "C", "strided", "reversed", "readonly")))
    n = sig["n"]
    nf = draw(bins(n, lo=2, hi=50))
    m = n if nf is None else nf
    longest = 2 * ((m + 1) // 2 - 1) + 1 + 6
    return dict(sig=sig, n_fbins=nf, ts=draw(st.one_of(st.none(), G.subsets(n + 1))),
                win=draw(st.one_of(st.none(), G.windows(max(1, longest), positive=True))),
                twin=draw(st.one_of(st.none(), G.windows(15, positive=True, average=True))))


def spwv_windows(c, n):
    fw = None if c["win"] is None else G.window(c["win"])
    tw = None if c["twin"] is None else G.window(c["twin"])
    h = ref.default_window(n) if fw is None else fw
    if tw is None:
        m = n // 10
        m += 1 - m % 2
        g = np.ones(1) if m == 1 else 0.54 - 0.46 * np.cos(2 * PI * np.arange(m) / (m - 1))
    else:
        g = tw
    return fw, tw, h, g


def check_spwv(c):
    x, z = signal_of(c["sig"])
    keep = x.copy()
    N = len(z)
    n = c["n_fbins"] or N
    if n < 2:
        return False
    fw, tw, h, g = spwv_windows(c, n)
    kw = {}
    if c["n_fbins"] is not None:
        kw["freq_bins"] = n
    if fw is not None:
        kw["fwindow"] = fw
    if tw is not None:
        kw["twindow"] = tw
    if c["ts"] is not None:
        kw["timestamps"] = np.array(c["ts"])
    tfr = sut(P.smoothed_pseudo_wigner_ville, x, **kw)
    close(x, keep, "the distribution changed the signal", 0.0)
    inst = np.arange(N) if c["ts"] is None else np.array(c["ts"])
    require(np.shape(tfr) == (n, len(inst)), "shape of the distribution", got=np.shape(tfr),
            expected=(n, len(inst)))
    cols = picked(c, len(inst))
    inst = inst[cols]
    tfr = real(tfr, "smoothed pseudo Wigner-Ville distribution")[:, cols]
    e = ref.smoothed_pwv(z, n, g, h, inst - 1, (n + 1) // 2 - 1)
    close(tfr, e, "smoothed pseudo Wigner-Ville distribution", G.tolerance(c["sig"]),
          scale=peak(z) * np.sum(np.abs(h)))
    return "one point" if len(g) == 1 else N > 3


@st.composite
def large_pwvd_cases(draw):
    sig = draw(large_signals(columns=True))
    n = sig["n"]
    nf = draw(large_bins(n))
    m = n if nf is None else nf
    return dict(sig=sig, n_fbins=nf, ts=labels(draw, n), cols=draw(G.SEEDS),
                win=draw(st.one_of(st.none(), G.windows(m + 12))))


@st.composite
def large_spwv_cases(draw):
    sig = draw(large_signals(hi=300, rare=560))
    n = sig["n"]
    nf = draw(st.one_of(st.none(), st.integers(60, 260), st.sampled_from((128, 256, 300, 512))))
    m = n if nf is None else nf
    longest = 2 * ((m + 1) // 2 - 1) + 1
    some = sorted(set(np.random.RandomState(draw(G.SEEDS)).randint(0, n + 1, draw(st.sampled_from((25, 25, 170)))).tolist()) | {1, n})
    return dict(sig=sig, n_fbins=nf, ts=draw(st.sampled_from((None, some, some, some))), cols=draw(G.SEEDS),
                win=draw(st.one_of(st.none(), G.windows(max(1, longest), positive=True))),
                twin=draw(st.one_of(st.none(), G.windows(41, positive=True, average=True),
                               G.windows(160, positive=True, average=True))))


C18 = [Law("pseudo", pwvd_cases(), check_pwvd, 2500),
       Law("long_signals_pseudo", large_pwvd_cases(), check_pwvd, 60),
       Law("long_signals_smoothed", large_spwv_cases(), check_spwv, 24),
       Law("smoothed", spwv_cases(), check_spwv, 1200)]


# -- C19 Margenau-Hill and Page ------------------------------------------------

@st.composite
def mh_cases(draw):
    sig = draw(G.signals(lo=1, hi=44, rare=250, columns=True))
    n = sig["n"]
    return dict(sig=sig, cls=draw(st.sampled_from(("mh", "page"))),
                n_fbins=draw(st.one_of(st.none(), st.integers(n, n + 40))),
                ts=draw(st.one_of(st.none(), G.subsets(n))))


def check_mh(c):
    x, z = signal_of(c["sig"])
    keep = x.copy()
    N = len(z)
    n = c["n_fbins"] or N
    cls = P.MargenauHillDistribution if c["cls"] == "mh" else cohen.PageRepresentation
    ts = None if c["ts"] is None else np.array(c["ts"])
    out = run(cls, x, n_fbins=c["n_fbins"], timestamps=ts)
    close(x, keep, "the distribution changed the signal", 0.0)
    inst = np.arange(N) if ts is None else ts
    check_axes(out, inst, ref.fft_labels(n), (n, len(inst)))
    tfr = real(out[0], "distribution")
    # real part of x(t) X*(f) exp(-2 i pi f t); X is the running spectrum in the Page one
    k, t = np.arange(n), np.arange(N)
    kernel = np.exp(-2j * PI * (np.outer(k, t) % n) / n)
    X = kernel @ z
    S = X[:, None] if c["cls"] == "mh" else np.cumsum(kernel * z[None, :], axis=1)[:, inst]
    e = np.real(z[inst][None, :] * np.conj(S) * np.exp(-2j * PI * (np.outer(k, inst) % n) / n))
    tol = G.tolerance(c["sig"])
    close(tfr, e, "distribution", tol, scale=peak(z) * N)
    close(tfr.sum(axis=0), n * np.abs(z[inst]) ** 2, "time marginal", 10 * tol, scale=peak(z) * N * n)
    if sorted(inst) == list(range(N)) and c["cls"] == "mh":
        close(tfr.sum(axis=1), np.abs(X) ** 2, "frequency marginal", 10 * tol, scale=peak(z) * N * N)
    return c["cls"] if N > 3 else False


@st.composite
def pmh_cases(draw):
    sig = draw(G.signals(lo=1, hi=44, rare=250, columns=True))
    n = sig["n"]
    nf = draw(bins(n))
    m = n if nf is None else nf
    return dict(sig=sig, cls=draw(st.sampled_from(("pmh", "ppage"))), n_fbins=nf,
                ts=labels(draw, n), win=draw(st.one_of(st.none(), G.windows(m + 8))))


def check_pmh(c):
    x, z = signal_of(c["sig"])
    keep = x.copy()
    N = len(z)
    n = c["n_fbins"] or N
    arg, h = stft_window(c, n)
    h = h / h[(len(h) - 1) // 2] if arg is None else h
    cls = cohen.PseudoMargenauHillDistribution if c["cls"] == "pmh" else \
        cohen.PseudoPageRepresentation
    ts = make_labels(c["ts"], N)
    out = run(cls, x, n_fbins=c["n_fbins"], fwindow=arg, timestamps=ts)
    close(x, keep, "the distribution changed the signal", 0.0)
    check_axes(out, np.arange(N) if ts is None else ts, ref.fft_labels(n), (n, N))
    lh = (len(h) - 1) // 2
    lags = range(-min((n + 1) // 2 - 1, lh), min((n + 1) // 2 - 1, lh) + 1)
    if c["cls"] == "ppage":
        lags = range(0, min(n - 1, lh) + 1)
    cols = picked(c, N)
    e = ref.rihaczek_real(z, n, cols, lags, h)
    close(real(out[0], "distribution")[:, cols], e, "windowed distribution", G.tolerance(c["sig"]),
          scale=peak(z) * np.sum(np.abs(h)))
    return c["cls"] if N > 3 else False


@st.composite
def causal_cases(draw):
    sig = draw(G.signals(lo=2, hi=44, rare=250, dtypes=("complex128", "float64")))
    n = sig["n"]
    return dict(sig=sig, cls=draw(st.sampled_from(("page", "ppage"))), cut=draw(st.integers(1, n - 1)),
                seed=draw(G.SEEDS), n_fbins=draw(st.one_of(st.none(), st.integers(n, n + 40))),
                win=draw(st.one_of(st.none(), G.windows(n + 8))))


def check_causal(c):
    """Later samples have no effect on a column of the Page distributions; a
    flat window as long as the signal gives the plain one back."""
    x, z = signal_of(c["sig"])
    N = len(z)
    cut = c["cut"]
    rs = np.random.RandomState(c["seed"])
    y = np.array(x)
    y[cut:] = (5 * rs.randn(N - cut)).astype(y.dtype) * np.max(np.abs(x))
    cls, kw = cohen.PageRepresentation, dict(n_fbins=c["n_fbins"])
    if c["cls"] == "ppage":
        cls = cohen.PseudoPageRepresentation
        kw["fwindow"] = None if c["win"] is None else G.window(c["win"])
    A, B = run(cls, x, **kw)[0], run(cls, y, **kw)[0]
    width = 1.0 if kw.get("fwindow") is None else max(1.0, float(np.max(np.abs(kw["fwindow"]))))
    close(B[:, :cut], A[:, :cut], "a column depends on later samples", 1e-9, scale=peak(z) * N * width)
    flat = run(cohen.PseudoPageRepresentation, x, n_fbins=c["n_fbins"], fwindow=np.ones(2 * N + 1))[0]
    close(flat, run(cohen.PageRepresentation, x, n_fbins=c["n_fbins"])[0],
          "pseudo Page distribution with a flat window", 1e-9, scale=peak(z) * N)
    return c["cls"]


@st.composite
def large_mh_cases(draw):
    sig = draw(large_signals(hi=500, rare=800, columns=True))
    n = sig["n"]
    return dict(sig=sig, cls=draw(st.sampled_from(("mh", "page"))),
                n_fbins=draw(st.one_of(st.none(), st.integers(n, n + 300))),
                ts=draw(st.one_of(st.none(), G.subsets(n))))


@st.composite
def large_pmh_cases(draw):
    sig = draw(large_signals(columns=True))
    n = sig["n"]
    nf = draw(large_bins(n))
    m = n if nf is None else nf
    return dict(sig=sig, cls=draw(st.sampled_from(("pmh", "ppage"))), n_fbins=nf, cols=draw(G.SEEDS),
                ts=labels(draw, n), win=draw(st.one_of(st.none(), G.windows(m + 8))))


C19 = [Law("margenau_hill_page", mh_cases(), check_mh, 2000),
       Law("causality", causal_cases(), check_causal, 600),
       Law("long_signals", large_mh_cases(), check_mh, 60),
       Law("long_signals_windowed", large_pmh_cases(), check_pmh, 60),
       Law("windowed", pmh_cases(), check_pmh, 2000)]


# -- C20 narrow band ambiguity function ---------------------------------------

@st.composite
def naf_cases(draw):
    sig = draw(G.signals(lo=1, hi=40, rare=200))
    n = sig["n"]
    lag = draw(st.one_of(st.none(), st.lists(st.integers(-n, n), min_size=1, max_size=12),
                         st.just([0]), st.just(sorted(range(-(n // 2), n // 2 + 1)))))
    return dict(sig=sig, n_fbins=draw(bins(n)), lag=lag, float=draw(st.booleans()))


def check_naf(c):
    x, z = signal_of(c["sig"])
    keep = x.copy()
    N = len(z)
    n = c["n_fbins"] or N
    kw = {}
    if c["n_fbins"] is not None:
        kw["n_fbins"] = n
    if c["lag"] is not None:
        kw["lag"] = np.array(c["lag"], dtype=float if c["float"] else int)
    A, lag, xi = sut(ambiguity.narrow_band, x, **kw)
    close(x, keep, "the ambiguity function changed the signal", 0.0)
    if c["lag"] is None:
        lags = np.arange(-((N - 1) // 2), (N - 1) // 2 + 1)
    else:
        lags = np.array(c["lag"])
    close(lag, lags, "lag axis", 1e-12, scale=1.0)
    e, exi = ref.ambiguity(z, lags, n)
    close(xi, exi, "Doppler axis", 1e-12, scale=1.0)
    tol = G.tolerance(c["sig"])
    energy = float(np.sum(np.abs(z) ** 2))
    close(A, e, "narrow band ambiguity function", tol, scale=energy)
    if 0 in lags:
        j = int(np.nonzero(lags == 0)[0][0])
        i = n // 2
        close(A[i, j], energy, "value at the origin", 10 * tol, scale=energy)
        require(bool(np.all(np.abs(A) <= energy * (1 + 100 * tol))),
                "maximum is not at the origin")
        for l in lags:                         # A(-xi, -lag) = A*(xi, lag)
            if -l in lags:
                p, q = int(np.nonzero(lags == l)[0][0]), int(np.nonzero(lags == -l)[0][0])
                a = np.array([A[(2 * i - r) % n, q] for r in range(n)])
                close(a, np.conj(A[:, p]), "symmetry", 10 * tol, scale=energy)
                break
    return N > 3


@st.composite
def large_naf_cases(draw):
    sig = draw(large_signals(hi=560, rare=900))
    n = sig["n"]
    lag = draw(st.one_of(st.none(), st.lists(st.integers(-n, n), min_size=1, max_size=40),
                         st.integers(130, 300).map(lambda k: list(range(-k, k + 1)))))
    return dict(sig=sig, n_fbins=draw(large_bins(n)), lag=lag, float=draw(st.booleans()))


C20 = [Law("definition", naf_cases(), check_naf, 2500),
       Law("long_signals", large_naf_cases(), check_naf, 40)]
