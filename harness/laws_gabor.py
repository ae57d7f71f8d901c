"""C26: Gabor representation."""

import numpy as np
from hypothesis import strategies as st

import gens as G
from core import Law, close, refused, require, sut

from tftb.processing import linear

PI = np.pi


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def near_root(n):
    """The largest divisor not above the root, rounded up."""
    s = int(np.ceil(np.sqrt(n)))
    return max(d for d in divisors(n) if d <= s)


@st.composite
def gabor_cases(draw, big=False):
    n = draw(st.one_of(st.integers(2, 60), st.sampled_from((16, 24, 32, 36, 48, 60, 64, 72, 96))))
    if big:
        n = draw(st.sampled_from((100, 108, 120, 125, 128, 144, 180, 192, 196, 210, 225, 240, 256,
                                  300, 360, 400, 512, 600, 720)))
    sig = draw(G.signals(n=n))
    n_coeff = draw(st.one_of(st.none(), st.sampled_from(divisors(n))))
    nc = near_root(n) if n_coeff is None else n_coeff
    q = draw(st.one_of(st.none(), st.sampled_from(divisors(nc))))
    qq = near_root(nc) if q is None else q
    hop = n // nc
    longest = max(1, min(n - 1, 2 * hop + 2 * qq))
    win = draw(st.one_of(st.none(), G.windows(longest, positive=True, min_len=1),
                         G.windows(longest, positive=True, min_len=min(hop, longest)),
                         G.windows(longest, positive=True, min_len=min(hop, longest))))
    if win is not None:
        win = dict(win, gain=win["gain"] * draw(st.sampled_from((1.0, 1.0, 1.0, 1e-6, 1e-9, 1e5))))
    return dict(sig=sig, n_coeff=n_coeff, q=q, win=win)


def placement(n, nh, nc, q):
    """Index of the first sample of the synthesis window."""
    alpha = int(np.round((2 * n / float(nc) - 1 - nh) / (2 * q)))
    return int(np.round((n - (nh - 1)) / 2.0)) - alpha - 1


def check_gabor(c):
    x = G.expand(c["sig"])
    z = np.asarray(x, dtype=complex)
    keep = x.copy()
    N = len(z)
    nc = near_root(N) if c["n_coeff"] is None else c["n_coeff"]
    q = near_root(nc) if c["q"] is None else c["q"]
    if c["win"] is None:
        nh = nc + 1 - nc % 2
        h = np.exp(np.log(0.005) * np.linspace(-1, 1, nh) ** 2)
        h = h / np.linalg.norm(h)
        arg = None
    else:
        h = arg = G.window(c["win"])
        nh = len(h)
    start = placement(N, nh, nc, q)
    if start + nh > N or start < -N or nh > N:
        return False                       # the window does not fit
    kw = {k: v for k, v in (("n_coeff", c["n_coeff"]), ("q_oversample", c["q"]),
                            ("window", arg)) if v is not None}
    tfr, dgr, gam = sut(linear.gabor, x, **kw)
    close(x, keep, "the Gabor transform changed the signal", 0.0)
    hop, M = N // nc, q * N // nc
    require(np.shape(dgr) == (M, nc), "shape of the coefficients", got=np.shape(dgr),
            expected=(M, nc))
    tol = 1e-9 if c["sig"]["dtype"] not in ("float32", "complex64") else 3e-4
    close(tfr, np.abs(dgr) ** 2, "the representation is not the squared modulus", 1e-12)
    gam = np.asarray(gam)
    require(gam.shape == (N,) and gam.dtype.kind == "f", "dual window", shape=gam.shape,
            dtype=gam.dtype)
    # analysis with the dual window
    g0 = np.roll(gam, N // 2)
    k = np.arange(N)
    e = np.exp(-2j * PI * (np.outer(np.arange(M), k) % M) / M)
    D = np.stack([e @ (z * np.roll(g0, n * hop)) for n in range(nc)], axis=1)
    close(dgr, D, "coefficients", tol, scale=np.max(np.abs(z)) * np.sum(np.abs(gam)) + 1e-300)
    # the dual window inverts the frame of the synthesis window
    h0 = np.zeros(N)
    h0[(start + np.arange(nh)) % N] = h
    h0 = np.roll(h0, N // 2)
    frame = np.zeros((N, N))
    for n in range(nc):
        w = np.roll(h0, n * hop)
        frame += np.outer(w, w)
    frame *= M * (((k[:, None] - k[None, :]) % M) == 0)
    ev = np.linalg.eigvalsh(frame)
    if ev[0] < 1e-6 * ev[-1] or ev[0] < 1e-9 * M * np.sum(h ** 2) / hop:
        return "incomplete" if N > 3 else False
    cond = ev[-1] / ev[0]
    close(g0, np.linalg.solve(frame, h0), "dual window", 1e-12 * cond + 1e-10)
    back = np.zeros(N, dtype=complex)
    for n in range(nc):
        back += np.roll(h0, n * hop) * (np.conj(e).T @ np.asarray(dgr)[:, n])
    close(back, z, "reconstruction from the coefficients", tol + 1e-12 * cond)
    return "reconstructed" if N > 3 else False


@st.composite
def even_cases(draw):
    n = draw(st.sampled_from((16, 24, 32, 64)))
    return dict(n=n, len=draw(st.integers(1, 6)))


def check_even(c):
    x = np.ones(c["n"], dtype=complex)
    require(refused(linear.gabor, x, window=np.ones(2 * c["len"])),
            "a window of even length is accepted")
    return True


C26 = [Law("frame", gabor_cases(), check_gabor, 1200),
       Law("long_signals", gabor_cases(True), check_gabor, 40),
       Law("even_window", even_cases(), check_even, 20)]
