"""C24, C25: reassigned distributions."""

import numpy as np
from hypothesis import strategies as st

import gens as G
import ref
from core import Law, close, refused, require, sut

import tftb.processing as P
from tftb.processing import cohen
from tftb.processing import reassigned as R

PI = np.pi


def odd_default(n):
    return ref.default_window(n)


def compare_vectors(exact, got, n, weight, scale, what, wrap=True, limit=None):
    """got: integer positions; exact: the real positions before rounding.
    Points where the rounding is decided by floating point noise may go
    either way: the noise of a ratio grows as its denominator shrinks."""
    noise = 1e-10 * scale / weight + 1e-9
    sure = noise < 0.05
    got = np.asarray(got)
    d = np.abs(got - exact)
    if wrap:
        d = np.abs((got - exact + n / 2.0) % n - n / 2.0)
    elif limit is not None:
        clipped = np.clip(exact, 0, limit)
        d = np.abs(got - clipped)
    bad = sure & ~(d <= 0.5 + noise * (1 + np.abs(exact)))
    if np.any(bad):
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        require(False, "%s: not the nearest point to the centre of gravity" % what, at=i,
                got=got[i], exact=exact[i], noise=noise[i])


def scattered(tfr, jhat, ihat, moved):
    out = np.zeros(tfr.shape, dtype=complex)
    rows, cols = np.indices(tfr.shape)
    np.add.at(out, (np.where(moved, jhat, rows).astype(int),
                    np.where(moved, ihat, cols).astype(int)), tfr)
    return out


def mean_powers(z, inst):
    """The mean power, of the whole signal and of the part the instants span
    (counted from nought or from one): the threshold is a millionth of it."""
    p = np.abs(z) ** 2
    a, b = int(min(inst)), int(max(inst))
    parts = [p, p[a:b + 1], p[max(a - 1, 0):b], p[np.arange(a, b + 1) - 1]]
    return [float(np.mean(q)) for q in parts if len(q)]


def check_common(tfr, rtfr, hat, expected, x, means, scale, tol, time_too, single=False):
    """First output, conservation, scatter; returns (moved, jhat, ihat)."""
    n, cols = expected.shape
    for a, name in ((tfr, "distribution"), (rtfr, "reassigned distribution"),
                    (hat, "reassignment vectors")):
        require(np.shape(a) == (n, cols), "shape of the " + name, got=np.shape(a),
                expected=(n, cols))
    tfr, rtfr, hat = np.asarray(tfr), np.asarray(rtfr), np.asarray(hat)
    require(float(np.max(np.abs(np.imag(tfr)), initial=0)) == 0, "the distribution is not real")
    tfr = np.real(tfr)
    close(tfr, expected, "distribution before the reassignment", tol, scale=scale)
    moved = np.isfinite(hat)
    slack = 1e-3 if single else 1e-5
    fuzzy = 1e-12 * scale
    require(bool(np.all(moved[np.abs(tfr) > (1 + slack) * 1e-6 * max(means) + fuzzy])),
            "a point above the threshold is not reassigned")
    require(not np.any(moved[np.abs(tfr) < (1 - slack) * 1e-6 * min(means) - fuzzy]),
            "a point below the threshold is reassigned")
    jhat = np.where(moved, np.real(hat), 0)
    ihat = np.where(moved, np.imag(hat), 0) if time_too else \
        np.tile(np.arange(cols), (n, 1))
    require(bool(np.all(jhat == np.round(jhat)) and np.all(jhat >= 0) and np.all(jhat < n)),
            "a point is reassigned off the frequency axis")
    require(bool(np.all(ihat == np.round(ihat)) and np.all(ihat >= 0) and np.all(ihat < cols)),
            "a point is reassigned off the time axis")
    total = float(np.sum(np.abs(tfr))) + 1e-300
    close(rtfr, scattered(tfr, jhat, ihat, moved),
          "reassigned distribution against its own vectors", 1e-11, scale=total)
    close(np.sum(rtfr), np.sum(tfr), "total of the reassigned distribution", 1e-11, scale=total)
    return moved, jhat, ihat


# -- C24 reassignment along frequency -----------------------------------------

@st.composite
def freq_cases(draw, lo=2, hi=28, rare=70, most=36, amps=G.AMPS):
    sig = draw(G.signals(lo=lo, hi=hi, rare=rare, amps=amps))
    n = sig["n"]
    kind = draw(st.sampled_from(("pwv", "pmh", "ppage")))
    nf = draw(st.one_of(st.none(), st.integers(8, most),
                        st.sampled_from([k for k in (8, 16, 32, 64, 128, 256, 512) if k <= most]),
                        st.integers(min(4, max(2, n // 2)), max(2, n // 2))))
    m = n if nf is None else nf
    win = draw(st.one_of(st.none() if m >= 8 else st.nothing(),
                         G.windows(max(3, m + 5), min_len=3),
                         G.windows(max(3, m + 5), min_len=max(3, m - 1))))
    # the instants of the first are counted from one
    ts = draw(st.one_of(st.none(), G.subsets(n + 1 if kind == "pwv" else n, min_size=1)))
    return dict(sig=sig, kind=kind, n_fbins=nf, win=win, ts=ts)


FREQ = {"pwv": R.pseudo_wigner_ville, "pmh": R.pseudo_margenau_hill, "ppage": R.pseudo_page}


def check_freq(c):
    x = G.expand(c["sig"])
    z = np.asarray(x, dtype=complex)
    keep = x.copy()
    N = len(z)
    n = c["n_fbins"] or N
    arg = None if c["win"] is None else G.window(c["win"])
    kept = None if arg is None else arg.copy()
    h = odd_default(n) if arg is None else arg
    lh = (len(h) - 1) // 2
    h = h / h[lh]
    dh = ref.derivative_window(h)
    kw = {k: v for k, v in (("n_fbins", c["n_fbins"]), ("fwindow", arg),
                            ("timestamps", None if c["ts"] is None else np.array(c["ts"])))
          if v is not None}
    tfr, rtfr, hat = sut(FREQ[c["kind"]], x, **kw)
    close(x, keep, "the reassignment changed the signal", 0.0)
    if arg is not None:
        close(arg, kept, "the reassignment changed the window", 0.0)
    inst = np.arange(N) if c["ts"] is None else np.array(c["ts"])
    half = (n + 1) // 2 - 1
    if c["kind"] == "pwv":
        cen = inst - 1

        def family(w):
            prod = {t: w[lh + t] * ref.at(z, cen + t) * np.conj(ref.at(z, cen - t))
                    for t in range(-min(half, lh), min(half, lh) + 1)}
            if n % 2 == 0 and n // 2 <= lh:
                t = n // 2
                p = ref.at(z, cen + t) * np.conj(ref.at(z, cen - t))
                prod[t] = 0.5 * (w[lh + t] * p + w[lh - t] * np.conj(p))
            return ref.lags_to_rows(prod, n)
        F, D = np.real(family(h)), np.imag(family(dh))
        F = F + 0j
        shift = n * D / np.where(F == 0, 1, np.real(F)) / (2 * PI)
    else:
        lags = range(-min(half, lh), min(half, lh) + 1) if c["kind"] == "pmh" else \
            range(0, min(n - 1, lh) + 1)
        F = ref.rihaczek_complex(z, n, inst, lags, h)
        D = ref.rihaczek_complex(z, n, inst, lags, dh)
        if c["kind"] == "ppage":
            D = D + (np.abs(z[inst]) ** 2)[None, :]
        shift = np.imag(n * D / np.where(F == 0, 1, F)) / (2 * PI)
    scale = float(np.max(np.abs(z)) ** 2 * np.sum(np.abs(h)))
    single = c["sig"]["dtype"] in ("float32", "complex64")
    tol = 2e-4 if single else 1e-8
    moved, jhat, _ = check_common(tfr, rtfr, hat, np.real(F), x, mean_powers(z, inst), scale, tol,
                                  False, single)
    if single:
        return c["kind"] + " single"
    exact = np.arange(n)[:, None] - shift
    w = np.where(moved, np.abs(F), 1e-300)
    compare_vectors(exact, jhat, n, w, scale * (1 + n), c["kind"])
    return c["kind"] if N > 3 else False


@st.composite
def tone_cases(draw):
    n = draw(st.integers(32, 72))
    return dict(n=n, k=draw(st.integers(4, n // 2 - 5)), half=draw(st.integers(7, 12)),
                kind=draw(st.sampled_from(("pwv", "pmh", "spectrogram", "spwv", "morlet"))),
                phase=draw(G.reals(0, 6.2)), amp=draw(st.sampled_from((1.0, 30.0, 1e-2))))


def check_tone(c):
    """A pure tone ends up on its own bin, an impulse on its own instant."""
    n, k, kind = c["n"], c["k"], c["kind"]
    t = np.arange(n)
    f = k / (2.0 * n) if kind in ("pwv", "spwv") else k / float(n)
    x = c["amp"] * np.exp(2j * PI * f * t + 1j * c["phase"])
    h = G.window(dict(len=2 * c["half"] + 1, kind="gauss", seed=0, gain=1.0))
    if kind in ("pwv", "pmh"):
        tfr, r, hat = sut(FREQ[kind], x, fwindow=h)
    elif kind == "spwv":
        tfr, r, hat = sut(R.smoothed_pseudo_wigner_ville, x, fwindow=h, twindow=h[2:-2])
    elif kind == "spectrogram":
        tfr, r, hat = sut(R.spectrogram, x, window=h)
    else:
        tfr, r, hat = sut(R.morlet_scalogram, x, tbp=0.4)
    a = n // 3
    mid = np.abs(np.asarray(r))[:, a:n - a]
    if kind == "morlet" and k < 6:
        return False
    d = np.abs((np.arange(n) - k + n / 2.0) % n - n / 2.0)
    share = mid[d <= 2].sum() / mid.sum()
    require(share > 0.8, "a tone is not concentrated on its frequency", kind=kind, share=share)
    return kind


C24 = [Law("definition", freq_cases(), check_freq, 1500),
       Law("long_signals", freq_cases(70, 260, 540, 520, (1.0, 3.7)), check_freq, 40),
       Law("tone", tone_cases(), check_tone, 120)]


# -- C25 reassignment in time and frequency ------------------------------------

@st.composite
def both_cases(draw, lo=8, hi=24, rare=48, most=30, amps=G.AMPS):
    sig = draw(G.signals(lo=lo, hi=hi, rare=rare, amps=amps))
    n = sig["n"]
    kind = draw(st.sampled_from(("spectrogram", "spwv", "morlet")))
    nf = draw(st.one_of(st.none(), st.integers(8, most),
                        st.sampled_from([k for k in (8, 16, 32, 64, 128, 256) if k <= most])))
    m = n if nf is None else nf
    if m < 8:
        nf = m = 8
    longest = 2 * ((m + 1) // 2 - 1) + 1 + 8      # taps beyond half the bins are ignored
    d = dict(sig=sig, kind=kind, n_fbins=nf)
    step = draw(st.integers(1, 3))
    first = draw(st.integers(0 if kind == "morlet" else 1, n - 1))
    stop = n if kind == "morlet" else n + 1
    idx = list(range(first, stop, step))
    d["ts"] = draw(st.one_of(st.none(), st.none(), st.just(idx)))
    if kind == "morlet":
        d["tbp"] = draw(st.one_of(st.none(), G.reals(0.08, 1.2, (0.25, 0.5, 1.0))))
    else:
        d["win"] = draw(st.one_of(st.none(), G.windows(longest, min_len=3)))
        d["cplx"] = kind == "spectrogram" and draw(st.booleans())
        if d["win"] is not None and d["win"]["kind"] == "hann" and d["win"]["len"] < 5:
            d["win"]["kind"] = "hamming"                # no weight but at its centre
    if kind == "spwv":
        d["twin"] = draw(st.one_of(st.none(), G.windows(13, positive=True, average=True)))
    return d


def both_window(c):
    h = G.window(c["win"])
    return h * np.exp(0.04j * np.arange(len(h)) ** 2) if c["cplx"] else h


def both_reference(c, z, n, inst):
    """Distribution, and exact time and frequency displacements."""
    N = len(z)
    dt = inst[1] - inst[0] if len(inst) > 1 else 1
    kind = c["kind"]
    if kind == "spectrogram":
        h = ref.default_window(N) if c["win"] is None else both_window(c)
        lh = (len(h) - 1) // 2
        lim = min(lh, (n + 1) // 2 - 1)
        cen = inst - 1
        dh = ref.derivative_window(h) if len(h) > 1 else None
        taps = {t: ref.at(z, cen + t) for t in range(-lim, lim + 1)}
        norm2 = sum(((cen + t >= 0) & (cen + t < N)) * np.abs(h[lh + t]) ** 2 for t in taps)
        F = ref.lags_to_rows({t: v * np.conj(h[lh + t]) for t, v in taps.items()}, n)
        T = ref.lags_to_rows({t: v * t * np.conj(h[lh + t]) for t, v in taps.items()}, n)
        D = ref.lags_to_rows({t: v * np.conj(dh[lh + t]) for t, v in taps.items()}, n)
        tfr = np.abs(F) ** 2 / np.where(norm2 > 0, norm2, 1)
        safe = np.where(F == 0, 1, F)
        scale = np.max(np.abs(z)) * np.sum(np.abs(h))
        weight = np.abs(F)
        return tfr, np.real(T / safe) / dt, -np.imag(n * D / safe) / (2 * PI), scale, weight, \
            np.max(np.abs(z)) ** 2 * len(h)
    if kind == "spwv":
        h = ref.default_window(n) if c["win"] is None else G.window(c["win"])
        g = ref.default_window(n) if c["twin"] is None else G.window(c["twin"])
        dh = ref.derivative_window(h)
        lh, lg = (len(h) - 1) // 2, (len(g) - 1) // 2
        cen = inst - 1
        lim = min(lh, (n + 1) // 2 - 1)

        def smooth(t, power):
            num = np.zeros(len(cen), dtype=complex)
            den = np.zeros(len(cen))
            for p in range(-lg, lg + 1):
                a, b = cen - p + t, cen - p - t
                ok = (np.minimum(a, b) >= 0) & (np.maximum(a, b) < N)
                num += g[lg + p] * p ** power * ref.at(z, a) * np.conj(ref.at(z, b)) * ok
                den += g[lg + p] * ok
            return np.where(den != 0, num / np.where(den != 0, den, 1), 0)
        def family(w, power):
            prod = {t: w[lh + t] * smooth(t, power) for t in range(-lim, lim + 1)}
            t = n // 2
            if n % 2 == 0 and t <= lh:              # both ends of the lag at half the bins
                s = smooth(t, power)
                ok = (cen - t >= 0) & (cen + t < N)
                prod[t] = np.where(ok, 0.5 * (w[lh + t] * s + w[lh - t] * np.conj(s)), 0)
            return ref.lags_to_rows(prod, n)
        F, T, D = np.real(family(h, 0)), np.real(family(h, 1)), np.imag(family(dh, 0))
        safe = np.where(F == 0, 1, F)
        scale = np.max(np.abs(z)) ** 2 * np.sum(np.abs(h))
        return F, -T / safe / dt, -n * D / safe / (2 * PI), scale * (1 + lg), np.abs(F), scale
    tbp = 0.25 if c["tbp"] is None else c["tbp"]
    reach = tbp * n * np.sqrt(2 * np.log(1000.0))
    if abs(reach - round(reach)) < 1e-9:
        return None
    M = int(np.ceil(reach))
    F = np.zeros((n, len(inst)), dtype=complex)
    T = np.zeros((n, len(inst)), dtype=complex)
    top = 1.0
    for k in range(1, n // 2 + 1):
        r = -(-M // k)
        s = np.arange(-r, r + 1)
        win = np.exp(-0.5 * (k * s / (n * tbp)) ** 2) * np.sqrt(k / (tbp * n))
        top = max(top, np.sum(win))
        smp = ref.at(z, inst[:, None] + s[None, :])
        e = np.exp(-2j * PI * ((k * s) % n) / n)
        F[k], T[k] = smp @ (win * e), smp @ (s * win * e)
        if k < (n + 1) // 2:
            F[n - k], T[n - k] = smp @ (win * np.conj(e)), smp @ (s * win * np.conj(e))
    k = np.minimum(np.arange(n), n - np.arange(n))[:, None]
    safe = np.where(F == 0, 1, F)
    scale = np.max(np.abs(z)) * top
    return np.abs(F) ** 2, np.real(T / safe) / dt, \
        np.imag(k ** 2 * T / safe) / (2 * PI * n * tbp ** 2), scale * n, np.abs(F), scale ** 2


def check_both(c):
    x = G.expand(c["sig"])
    z = np.asarray(x, dtype=complex)
    keep = x.copy()
    N = len(z)
    n = c["n_fbins"] or N
    kind = c["kind"]
    kw = {}
    if c["n_fbins"] is not None:
        kw["n_fbins"] = n
    if c["ts"] is not None:
        kw["time_samples" if kind == "spectrogram" else "timestamps"] = np.array(c["ts"])
    args = []
    if kind == "morlet":
        if c["tbp"] is not None:
            kw["tbp"] = c["tbp"]
        func = R.morlet_scalogram
    else:
        if c["win"] is not None:
            args.append(("window" if kind == "spectrogram" else "fwindow", both_window(c)))
        if c.get("twin") is not None:
            args.append(("twindow", G.window(c["twin"])))
        func = R.spectrogram if kind == "spectrogram" else R.smoothed_pseudo_wigner_ville
    kw.update(args)
    inst = np.arange(N) if c["ts"] is None else np.array(c["ts"])
    model = both_reference(c, z, n, inst)
    if model is None:
        return False
    e, dtime, dfreq, scale, weight, size = model
    tfr, rtfr, hat = sut(func, x, **kw)
    close(x, keep, "the reassignment changed the signal", 0.0)
    single = c["sig"]["dtype"] in ("float32", "complex64")
    tol = 3e-4 if single else 1e-8
    moved, jhat, ihat = check_common(tfr, rtfr, hat, e, x, mean_powers(z, inst), size, tol, True,
                                     single)
    if single:
        return kind + " single"
    w = np.where(moved, weight, 1e-300)
    jexact = np.arange(n)[:, None] + dfreq
    iexact = np.arange(len(inst))[None, :] + dtime
    compare_vectors(jexact, jhat, n, w, scale * n, kind + " frequency")
    compare_vectors(iexact, ihat, n, w, scale * n, kind + " time", wrap=False, limit=len(inst) - 1)
    return kind + ("" if c["ts"] is None else " subset")


@st.composite
def impulse_cases(draw):
    n = draw(st.integers(24, 60))
    return dict(n=n, at=draw(st.integers(8, n - 9)), half=draw(st.integers(3, 7)),
                step=draw(st.sampled_from((0, 0, 1, 2, 3))),
                kind=draw(st.sampled_from(("spectrogram", "spwv", "morlet"))))


def check_impulse(c):
    n, kind = c["n"], c["kind"]
    x = np.zeros(n, dtype=complex)
    x[c["at"]] = 1.0
    h = G.window(dict(len=2 * c["half"] + 1, kind="gauss", seed=0, gain=1.0))
    col = c["at"] + (kind != "morlet")                # its instant
    kw = {}
    if c.get("step"):                                # every step-th instant, the impulse's among them
        ts = np.arange(col % c["step"], n, c["step"])
        kw["time_samples" if kind == "spectrogram" else "timestamps"] = ts
        col = int(np.nonzero(ts == col)[0][0])
    if kind == "spectrogram":
        _, r, _ = sut(R.spectrogram, x, window=h, **kw)
    elif kind == "spwv":
        _, r, _ = sut(R.smoothed_pseudo_wigner_ville, x, fwindow=h, twindow=h, **kw)
    else:
        _, r, _ = sut(R.morlet_scalogram, x, **kw)
    mass = np.abs(np.asarray(r)).sum(axis=0)
    require(mass[col] > 0.98 * mass.sum(), "an impulse is not concentrated on its instant",
            kind=kind, share=mass[col] / mass.sum())
    return kind


@st.composite
def irregular_cases(draw):
    n = draw(st.integers(10, 24))
    idx = draw(st.lists(st.integers(1, n - 1), min_size=3, max_size=n - 2, unique=True).map(sorted))
    return dict(n=n, ts=idx, kind=draw(st.sampled_from(("spectrogram", "spwv", "morlet"))),
                seed=draw(G.SEEDS))


def check_irregular(c):
    """Instants which are not regularly spaced are refused, regular ones not."""
    x = np.random.RandomState(c["seed"]).randn(c["n"]) + 0j
    ts = np.array(c["ts"])
    func = {"spectrogram": lambda: R.spectrogram(x, time_samples=ts),
            "spwv": lambda: R.smoothed_pseudo_wigner_ville(x, timestamps=ts),
            "morlet": lambda: R.morlet_scalogram(x, timestamps=ts)}[c["kind"]]
    if len(set(np.diff(ts))) > 1:
        require(refused(func), "irregular instants are accepted")
        return c["kind"] + " irregular"
    sut(func)
    return c["kind"] + " regular"


# -- C24, C25: the distribution returned first ----------------------------------

PLAIN = {"pwv": P.PseudoWignerVilleDistribution, "pmh": cohen.PseudoMargenauHillDistribution,
         "ppage": cohen.PseudoPageRepresentation, "spectrogram": P.Spectrogram}


@st.composite
def plain_cases(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    n = draw(st.integers(8, 40))
    nf = draw(st.one_of(st.none(), st.integers(6, 50)))
    m = n if nf is None else nf
    return dict(n=n, kind=kind, nf=nf, seed=draw(G.SEEDS),
                win=draw(G.windows(m + 8, positive=True, min_len=3)),
                twin=draw(G.windows(13, positive=True)))


def check_plain(c):
    """The first result is what the class of that name computes."""
    rs = np.random.RandomState(c["seed"])
    n, kind = c["n"], c["kind"]
    z = rs.randn(n) + 1j * rs.randn(n)
    h = G.window(c["win"])
    h = h / h[(len(h) - 1) // 2]
    nf = {} if c["nf"] is None else dict(n_fbins=c["nf"])
    if kind == "spwv":
        ts, g = np.arange(1, n), G.window(c["twin"])
        kw = {} if c["nf"] is None else dict(freq_bins=c["nf"])
        a = sut(cohen.smoothed_pseudo_wigner_ville, z, timestamps=ts, twindow=g, fwindow=h, **kw)
        b = sut(R.smoothed_pseudo_wigner_ville, z, timestamps=ts, twindow=g, fwindow=h, **nf)[0]
    elif kind == "spectrogram":
        ts = np.arange(1, n)
        a = sut(sut(P.Spectrogram, z, timestamps=ts, fwindow=h, **nf).run)[0]
        b = sut(R.spectrogram, z, time_samples=ts, window=h, **nf)[0]
    else:
        a = sut(sut(PLAIN[kind], z, fwindow=h, **nf).run)[0]
        ts = np.arange(n)
        if kind == "pwv":
            a, ts = a[:, :-1], ts[:-1] + 1
        b = sut(FREQ[kind], z, timestamps=ts, fwindow=h, **nf)[0]
    close(np.real(b), a, kind + ": the distribution returned is not the one of that name", 1e-9)
    return kind


C24.append(Law("plain", plain_cases(("pwv", "pmh", "ppage")), check_plain, 300))
C25 = [Law("plain", plain_cases(("spectrogram", "spwv")), check_plain, 300),
       Law("definition", both_cases(), check_both, 1500),
       Law("long_signals", both_cases(60, 180, 320, 300, (1.0, 3.7)), check_both, 40),
       Law("tone", tone_cases(), check_tone, 160),
       Law("impulse", impulse_cases(), check_impulse, 160),
       Law("regular_instants", irregular_cases(), check_irregular, 160)]
