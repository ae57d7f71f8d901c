"""C13 (time and frequency localisation), C14 (instantaneous frequency, group
delay)."""

import numpy as np
from hypothesis import strategies as st

import gens as G
import ref
from core import Law, close, require, sut

import tftb.processing as P

PI = np.pi


@st.composite
def moment_cases(draw):
    return dict(sig=draw(G.signals(lo=1, hi=80, rare=2000, columns=True)))


def scalar(v, what):
    v = np.asarray(v)
    require(v.size == 1 and np.isfinite(v).all(), what + ": not one finite number", got=v)
    return float(np.real(v))


def check_loctime(c):
    x = G.expand(c["sig"])
    keep = x.copy()
    tm, T = sut(P.loctime, x)
    close(x, keep, "loctime changed its input", 0.0)
    p = np.abs(np.asarray(x, dtype=complex).ravel()) ** 2
    n = len(p)
    p = p / p.sum()
    t = np.arange(n)
    e = np.sum(t * p)
    tol = G.tolerance(c["sig"])
    require(abs(scalar(tm, "time centre") - e) < tol * n, "average time", got=tm, expected=e)
    eT = 2 * np.sqrt(PI * np.sum((t - e) ** 2 * p))
    # a spread of zero is only known to the square root of the precision
    require(abs(scalar(T, "time spread") ** 2 - eT ** 2) < 10 * tol * n * n + 1e-9, "time spread",
            got=T, expected=eT)
    return n > 2


def check_locfreq(c):
    x = G.expand(c["sig"])
    keep = x.copy()
    fm, B = sut(P.locfreq, x)
    close(x, keep, "locfreq changed its input", 0.0)
    z = np.asarray(x, dtype=complex).ravel()
    n = len(z)
    p = np.abs(ref.fourier(n) @ z) ** 2 if n <= 600 else np.abs(np.fft.fft(z)) ** 2
    p = p / p.sum()
    f = ref.fft_labels(n)
    e = np.sum(f * p)
    tol = G.tolerance(c["sig"])
    require(abs(scalar(fm, "mean frequency") - e) < tol, "mean frequency", got=fm, expected=e)
    eB = 2 * np.sqrt(PI * np.sum((f - e) ** 2 * p))
    require(abs(scalar(B, "bandwidth") ** 2 - eB ** 2) < 10 * tol, "frequency spread", got=B,
            expected=eB)
    return n > 2


@st.composite
def covariance_cases(draw):
    n = draw(st.integers(64, 400))
    return dict(n=n, c=draw(st.integers(int(0.4 * n), int(0.6 * n))), w=draw(G.reals(8.0, n / 5.0)),
                f=draw(G.reals(-0.3, 0.3)), shift=draw(st.integers(-n // 16, n // 16)),
                df=draw(G.reals(-0.05, 0.05)), chirp=draw(G.reals(0.0, 1.0)),
                amp=draw(st.sampled_from((1.0, 1e-3, 250.0))))


def check_covariance(c):
    """Shifts in time and frequency move the centres and keep the spreads; the
    product of the spreads is one for a Gaussian and larger otherwise."""
    n = c["n"]

    def packet(t0, f0, chirp=0.0):
        t = np.arange(n) - t0
        return c["amp"] * np.exp(-PI * (t / c["w"]) ** 2 + 2j * PI * f0 * t +
                                 1j * chirp * PI * t ** 2 / (c["w"] ** 2))
    a, b = packet(c["c"], c["f"]), packet(c["c"] + c["shift"], c["f"] + c["df"])
    t1, T1 = sut(P.loctime, a)
    t2, T2 = sut(P.loctime, b)
    f1, B1 = sut(P.locfreq, a)
    f2, B2 = sut(P.locfreq, b)
    require(abs(t1 - c["c"]) < 1e-2, "time centre of a packet", got=t1, expected=c["c"])
    require(abs(f1 - c["f"]) < 1e-3, "frequency centre of a packet", got=f1, expected=c["f"])
    require(abs(t2 - t1 - c["shift"]) < 1e-2, "time shift", got=t2 - t1, expected=c["shift"])
    require(abs(f2 - f1 - c["df"]) < 1e-3, "frequency shift", got=f2 - f1, expected=c["df"])
    require(abs(T2 / T1 - 1) < 1e-2 and abs(B2 / B1 - 1) < 1e-2, "spreads under shifts")
    require(abs(T1 / c["w"] - 1) < 1e-2, "time spread of a Gaussian", got=T1, expected=c["w"])
    require(abs(T1 * B1 - 1) < 2e-2, "time-bandwidth product of a Gaussian", got=T1 * B1)
    z = packet(c["c"], 0.0, c["chirp"])
    product = sut(P.loctime, z)[1] * sut(P.locfreq, z)[1]
    expected = np.sqrt(1 + c["chirp"] ** 2)
    require(abs(product / expected - 1) < 2e-2, "time-bandwidth product of a chirp", got=product,
            expected=expected)
    return True


@st.composite
def point_cases(draw):
    n = draw(st.one_of(st.integers(1, 40), st.integers(41, 400)))
    return dict(n=n, k=draw(st.integers(0, n - 1)), gap=draw(st.sampled_from((0, 0, 1, 2, 5))),
                ratio=draw(st.sampled_from((1.0, 0.5, 2.0))),
                amp=draw(st.sampled_from((1.0, 1e-3, 7.3, 1e4))), angle=draw(G.reals(-3.0, 3.0)))


def check_points(c):
    """One or two points in time, one or two lines in frequency: the spreads are
    known, and are nil for one."""
    n, k = c["n"], c["k"]
    j = min(k + c["gap"], n - 1)
    a = c["amp"] * np.exp(1j * c["angle"])
    spread = c["ratio"] / (1 + c["ratio"] ** 2)
    x = np.zeros(n, complex)
    x[j] = a * c["ratio"]
    x[k] = a
    tm, T = sut(P.loctime, x)
    w = c["ratio"] ** 2 / (1 + c["ratio"] ** 2)
    e = k + (j - k) * w
    require(abs(scalar(tm, "time centre") - e) < 1e-9 * n, "average time of points", got=tm,
            expected=e)
    eT = 2 * np.sqrt(PI) * (j - k) * spread
    require(abs(scalar(T, "time spread") - eT) < 3e-10 * n, "time spread of points", got=T,
            expected=eT)
    f = ref.fft_labels(n)
    y = np.fft.ifft(x) * n
    fm, B = sut(P.locfreq, y)
    e = f[k] + (f[j] - f[k]) * w
    require(abs(scalar(fm, "mean frequency") - e) < 1e-10, "mean frequency of lines", got=fm,
            expected=e)
    eB = 2 * np.sqrt(PI) * abs(f[j] - f[k]) * spread
    require(abs(scalar(B, "bandwidth") - eB) < 3e-10, "bandwidth of lines", got=B, expected=eB)
    return "one" if j == k else "two"


C13 = [Law("points", point_cases(), check_points, 1500),
       Law("loctime", moment_cases(), check_loctime, 3000),
       Law("locfreq", moment_cases(), check_locfreq, 3000),
       Law("covariance", covariance_cases(), check_covariance, 800)]


# -- C14 ---------------------------------------------------------------------

@st.composite
def if_cases(draw):
    sig = draw(G.signals(lo=3, hi=80, rare=2000, columns=True,
                         dtypes=("complex128", "complex128", "complex128", "complex64",
                                 "float64")))
    n = sig["n"]
    return dict(sig=sig, t=draw(st.one_of(st.none(), G.subsets(n, lo=2))),
                column=draw(st.booleans()))


def check_inst_freq(c):
    x = G.expand(c["sig"])
    keep = x.copy()
    kw = {}
    if c["t"] is not None:
        t = np.array(c["t"])
        kw["t"] = t.reshape(-1, 1) if c["column"] else t
    got, ts = sut(P.inst_freq, x, **kw)
    close(x, keep, "inst_freq changed its input", 0.0)
    z = np.asarray(x, dtype=complex).ravel()
    t = np.arange(2, len(z)) if c["t"] is None else np.array(c["t"])
    got, ts = np.asarray(got), np.asarray(ts)
    require(ts.shape == t.shape and bool(np.all(ts == t)), "instants of the frequencies")
    require(got.shape == t.shape, "one frequency per instant", got=got.shape)
    require(bool(np.all(got >= -1e-9) and np.all(got <= 0.5 + 1e-9)),
            "instantaneous frequency leaves [0, 0.5]")
    cross = z[t] * np.conj(z[t - 2])
    big = np.abs(cross) > 1e-9 * np.max(np.abs(z)) ** 2
    turn = np.angle(cross) / (4 * PI)
    d = (got - turn + 0.25) % 0.5 - 0.25              # equal up to multiples of one half
    tol = 1e-3 if c["sig"]["dtype"] == "complex64" else 1e-6
    require(bool(np.all(np.abs(d[big]) < tol)), "instantaneous frequency",
            worst=np.max(np.abs(d[big])) if np.any(big) else 0)
    return "all" if c["t"] is None else "chosen"


@st.composite
def law_cases(draw):
    n = draw(G.lengths(3, 120, 1500))
    return dict(n=n, fi=draw(G.reals(0.01, 0.49)), ff=draw(G.reals(0.01, 0.49)),
                phase=draw(G.reals(-3.0, 3.0)), amp=draw(st.sampled_from((1.0, 1e-5, 2e3))),
                env=draw(st.booleans()))


def check_if_law(c):
    """A linear chirp has its frequency law read back, whatever its phase and
    its (real positive) envelope."""
    n = c["n"]
    k = np.arange(n)
    law = c["fi"] + (c["ff"] - c["fi"]) * k / (n - 1.0)
    phase = np.r_[0, np.cumsum(0.5 * (law[1:] + law[:-1]))]
    x = c["amp"] * np.exp(2j * PI * phase + 1j * c["phase"])
    if c["env"]:
        x = x * (1 + 0.5 * np.sin(0.3 * k))
    got, t = sut(P.inst_freq, x)
    close(got, law[1:-1], "instantaneous frequency of a chirp", 1e-6, scale=1.0)
    close(t, np.arange(2, n), "instants", 0.0)
    return c["fi"] != c["ff"]


@st.composite
def gd_cases(draw):
    sig = draw(G.signals(lo=2, hi=60, rare=400, columns=True,
                         kinds=("noise", "noise", "impulse", "sparse", "atom", "chirp", "ints",
                                "decay")))
    return dict(sig=sig, f=draw(st.one_of(st.none(), st.lists(G.freqs(-0.5, 0.5), min_size=1,
                                                              max_size=10))))


def check_group_delay(c):
    x = G.expand(c["sig"])
    keep = x.copy()
    z = np.asarray(x, dtype=complex).ravel()
    n = len(z)
    kw = {} if c["f"] is None else {"fnorm": np.array(c["f"])}
    got = np.asarray(sut(P.group_delay, x, **kw))
    close(x, keep, "group_delay changed its input", 0.0)
    if c["f"] is None:
        f = (np.arange(n) - n // 2) / float(n)
    else:
        f = np.array(c["f"])
    require(got.shape == f.shape, "one delay per frequency", got=got.shape, expected=f.shape)
    E = np.exp(-2j * PI * np.outer(f, np.arange(n)))
    den = E @ z
    num = E @ (z * np.arange(1, n + 1))
    ok = np.abs(den) > 1e-6 * np.sum(np.abs(z))
    e = np.zeros(len(f))
    e[ok] = np.real(num[ok] / den[ok])
    ok &= (np.abs(e - 1) > 1e-6 * n) & (np.abs(e - n - 3) > 1e-6 * n)
    if c["sig"]["dtype"] in ("complex64", "float32"):
        ok &= np.abs(den) > 1e-2 * np.sum(np.abs(z))
        ok &= (np.abs(e - 1) > 1e-2 * n) & (np.abs(e - n - 3) > 1e-2 * n)
    e = np.where((e >= 1) & (e <= n + 3), e, 0.0)
    tol = 1e-7 if c["sig"]["dtype"] not in ("complex64", "float32") else 2e-3
    if np.any(ok):
        close(got[ok], e[ok], "group delay", tol, scale=float(n) * 10)
    return bool(np.sum(ok & (e > 0)) > 0)


@st.composite
def gd_move_cases(draw):
    n = draw(st.integers(4, 120))
    return dict(n=n, k=draw(st.integers(0, n - 1)), amp=draw(st.sampled_from((1.0, 1e-4, -30.0))),
                f=draw(st.one_of(st.none(), st.lists(G.freqs(0.0, 0.5), min_size=1, max_size=6))))


def check_gd_impulse(c):
    """An impulse is delayed by its position, counted from one, at all
    frequencies."""
    x = np.zeros(c["n"])
    x[c["k"]] = c["amp"]
    kw = {} if c["f"] is None else {"fnorm": np.array(c["f"])}
    got = np.asarray(sut(P.group_delay, x, **kw))
    close(got, np.full(got.shape, c["k"] + 1.0), "delay of an impulse", 1e-8)
    return True


C14 = [Law("inst_freq", if_cases(), check_inst_freq, 3000),
       Law("inst_freq_chirp", law_cases(), check_if_law, 1500),
       Law("group_delay", gd_cases(), check_group_delay, 2500),
       Law("group_delay_impulse", gd_move_cases(), check_gd_impulse, 1000)]
