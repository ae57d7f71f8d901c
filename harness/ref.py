"""Reference models: slow, direct transcriptions of the definitions.

Nothing here imports tftb.  Sums are written out as matrix products with an
explicit Fourier matrix, so that they share neither the lag bookkeeping nor
the FFT calls of the code under test.
"""

import numpy as np


def fourier(n, m=None):
    """exp(-2 i pi k s / n), k < n rows, s < m columns."""
    m = n if m is None else m
    return np.exp(-2j * np.pi * (np.outer(np.arange(n), np.arange(m)) % n) / n)


def lags_to_rows(products, n):
    """Sum over lags: products maps a lag to its vector of columns."""
    k = np.arange(n)
    out = None
    for lag, vec in products.items():
        term = np.outer(np.exp(-2j * np.pi * ((k * lag) % n) / n), vec)
        out = term if out is None else out + term
    return out


def fft_labels(n):
    k = np.arange(n)
    return np.where(k < (n + 1) // 2, k, k - n) / float(n)


def at(x, idx):
    """x[idx], zero outside the signal."""
    idx = np.asarray(idx)
    ok = (idx >= 0) & (idx < len(x))
    out = np.zeros(idx.shape, dtype=complex)
    out[ok] = np.asarray(x, dtype=complex)[idx[ok]]
    return out


def default_window(n):
    """Hamming window on a quarter of n points, made odd."""
    m = n // 4
    m += 1 - m % 2
    if m == 1:
        return np.ones(1)
    return 0.54 - 0.46 * np.cos(2 * np.pi * np.arange(m) / (m - 1))


# -- linear and quadratic representations ----------------------------------

def stft(x, n, h, centres, limit):
    """sum_s x[s] h*[s - c] exp(-2 i pi k (s - c) / n)."""
    lh = (len(h) - 1) // 2
    lim = min(lh, limit)
    centres = np.asarray(centres)
    return lags_to_rows({t: at(x, centres + t) * np.conj(h[lh + t])
                         for t in range(-lim, lim + 1)}, n)


def spectrogram(x, n, h, centres, limit):
    """Squared modulus with the taps in use normalised to unit energy; columns
    without a usable tap come out as NaN."""
    lh = (len(h) - 1) // 2
    lim = min(lh, limit)
    centres = np.asarray(centres)
    s = stft(x, n, h, centres, limit)
    norm2 = np.zeros(len(centres))
    for t in range(-lim, lim + 1):
        inside = (centres + t >= 0) & (centres + t < len(x))
        norm2 += inside * np.abs(h[lh + t]) ** 2
    with np.errstate(all="ignore"):
        return np.abs(s) ** 2 / norm2, norm2


def wigner_ville(x, n, h=None, centres=None):
    """(Pseudo) Wigner-Ville distribution on n bins of [0, 1/2)."""
    x = np.asarray(x, dtype=complex)
    N = len(x)
    c = np.arange(N) if centres is None else np.asarray(centres)
    half = (n + 1) // 2 - 1
    lh = N if h is None else (len(h) - 1) // 2

    def w(t):
        return 1.0 if h is None else h[lh + t]
    lim = min(half, lh, N)
    prod = {t: w(t) * at(x, c + t) * np.conj(at(x, c - t)) for t in range(-lim, lim + 1)}
    if n % 2 == 0 and n // 2 <= lh:
        t = n // 2
        p = at(x, c + t) * np.conj(at(x, c - t))
        prod[t] = 0.5 * (w(t) * p + w(-t) * np.conj(p)) + 0 * c
    return np.real(lags_to_rows(prod, n))


def smoothed_pwv(x, n, g, h, centres, limit):
    """Pseudo Wigner-Ville distribution whose lag products are averaged in
    time over the points where both samples exist."""
    x = np.asarray(x, dtype=complex)
    N = len(x)
    lg, lh = (len(g) - 1) // 2, (len(h) - 1) // 2
    c = np.asarray(centres)

    def smooth(t):
        num = np.zeros(len(c), dtype=complex)
        den = np.zeros(len(c))
        for p in range(-lg, lg + 1):
            a, b = c - p + t, c - p - t
            ok = (np.minimum(a, b) >= 0) & (np.maximum(a, b) < N)
            num += g[lg + p] * at(x, a) * np.conj(at(x, b)) * ok
            den += g[lg + p] * ok
        return np.where(den != 0, num / np.where(den != 0, den, 1), 0)
    lim = min(lh, limit)
    prod = {t: h[lh + t] * smooth(t) for t in range(-lim, lim + 1)}
    if n % 2 == 0 and n // 2 <= lh:
        t = n // 2
        ok = (c - t >= 0) & (c + t < N)
        s = smooth(t)
        prod[t] = np.where(ok, 0.5 * (h[lh + t] * s + h[lh - t] * np.conj(s)), 0)
    return np.real(lags_to_rows(prod, n))


def rihaczek_real(x, n, centres, lags, h=None):
    """Re sum_lag h[lag] x[c] x*[c - lag] exp(-2 i pi k lag / n)."""
    c = np.asarray(centres)
    lh = 0 if h is None else (len(h) - 1) // 2
    prod = {t: (1.0 if h is None else h[lh + t]) * at(x, c) * np.conj(at(x, c - t))
            for t in lags}
    return np.real(lags_to_rows(prod, n))


def rihaczek_complex(x, n, centres, lags, h):
    c = np.asarray(centres)
    lh = (len(h) - 1) // 2
    return lags_to_rows({t: h[lh + t] * at(x, c) * np.conj(at(x, c - t)) for t in lags}, n)


def ambiguity(x, lags, n):
    """sum_t x[t + lag] x*[t - lag] exp(-2 i pi xi t) for the centred xi."""
    x = np.asarray(x, dtype=complex)
    t = np.arange(len(x))
    xi = (np.arange(n) - n // 2) / float(n)
    e = np.exp(-2j * np.pi * np.outer(np.arange(n) - n // 2, t) / n)
    cols = [e @ (at(x, t + int(l)) * np.conj(at(x, t - int(l)))) for l in lags]
    return np.array(cols).T.reshape(n, len(cols)), xi


def analytic(x):
    """Analytic signal of a real one, by its defining spectrum."""
    x = np.asarray(x, dtype=float)
    n = len(x)
    X = fourier(n) @ x
    gain = np.zeros(n)
    gain[0] = 1
    gain[1:(n + 1) // 2] = 2
    if n % 2 == 0 and n > 0:
        gain[n // 2] = 1
    return np.conj(fourier(n)) @ (X * gain) / n


def negative_energy(z):
    """Energy of the strictly negative frequencies, relative to the total."""
    z = np.asarray(z, dtype=complex)
    n = len(z)
    Z = np.fft.fft(z)
    neg = Z[n // 2 + 1:]
    return float(np.sum(np.abs(neg) ** 2) / max(np.sum(np.abs(Z) ** 2), 1e-300))


def trapezoid_2d(mat, x, y):
    """Trapezoidal rule, columns along x, rows along y."""
    total = 0.0
    m, n = mat.shape
    for i in range(m - 1):
        for j in range(n - 1):
            total += 0.25 * (mat[i, j] + mat[i + 1, j] + mat[i, j + 1] + mat[i + 1, j + 1]) \
                * (x[j + 1] - x[j]) * (y[i + 1] - y[i])
    return total


def trapezoid_2d_fast(mat, x, y):
    cell = 0.25 * (mat[:-1, :-1] + mat[1:, :-1] + mat[:-1, 1:] + mat[1:, 1:])
    total = np.sum(cell * np.diff(y)[:, None] * np.diff(x))
    return complex(total) if np.iscomplexobj(mat) else float(total)


def derivative_window(w):
    """Central differences of the window minus its linear trend, plus it."""
    w = np.asarray(w)
    n = len(w)
    step = (w[0] + w[-1]) / 2.0
    ramp = (w[-1] - w[0]) / (n - 1.0)
    lh = (n - 1) / 2.0
    inner = [0.0] + [w[i] - step - ramp * (i - lh) for i in range(n)] + [0.0]
    d = np.array([(inner[i + 2] - inner[i]) / 2.0 + ramp for i in range(n)])
    d[0] += step
    d[-1] -= step
    return d
