"""Generators: Hypothesis strategies of JSON-serialisable descriptors, and the
functions which expand a descriptor into the actual arguments."""

import numpy as np
from hypothesis import strategies as st

SEEDS = st.integers(0, 2 ** 31 - 1)


def lengths(lo, hi, rare=None):
    """Lengths with emphasis on the bounds, odd and even, primes and powers of
    two; ``rare`` is a larger bound reached in a small share of the cases."""
    special = [n for n in (1, 2, 3, 4, 5, 7, 8, 11, 13, 15, 16, 17, 21, 24, 31, 32, 33, 40,
                           48, 49, 63, 64, 65, 96, 100, 101, 127, 128, 129, 200, 255, 256,
                           257, 512, 513, 1000, 1024, 1025) if lo <= n <= hi]
    parts = [st.integers(lo, hi)] * 4
    if special:
        parts.append(st.sampled_from(special))
    small = st.one_of(*parts)
    if rare is None or rare <= hi:
        return small
    big = st.one_of(st.integers(hi, rare),
                    st.sampled_from([n for n in (64, 100, 128, 200, 256, 300, 500, 512, 513,
                                                 777, 1000, 1024, 2000, 2048, 4096)
                                     if hi <= n <= rare] or [rare]))
    huge = st.sampled_from((33000, 46400, 65537, 70000))      # past the range of short integers
    return st.integers(0, 99).flatmap(
        lambda k: huge if k == 99 and rare >= 2000 else big if k >= 96 else small)


def reals(lo, hi, edges=()):
    """Floats of a closed interval, in few and in many digits."""
    opts = [st.floats(lo, hi, allow_nan=False, allow_infinity=False),
            st.integers(0, 1000).map(lambda k: lo + (hi - lo) * k / 1000.0),
            st.integers(0, 20).map(lambda k: lo + (hi - lo) * k / 20.0)]
    edges = [float(e) for e in edges]
    if edges:
        opts.append(st.sampled_from(edges))
    def tidy(v):
        v = float(min(max(v, lo), hi))
        return 0.0 if abs(v) < 1e-6 and lo <= 0 <= hi else v
    return st.one_of(*opts).map(tidy)


def freqs(lo=0.0, hi=0.5):
    return reals(lo, hi, [e for e in (0.0, 0.05, 0.1, 0.125, 0.2, 0.25, 0.375, 0.45, 0.5)
                          if lo <= e <= hi])


KINDS = ("noise", "noise", "noise", "tone", "chirp", "impulse", "sparse", "const",
         "ints", "atom", "silent_half", "two_tones", "decay", "few_values")
AMPS = (1.0, 1.0, 1.0, 1.0, 1e-4, 1e4, 3.7, -1.0)
DTYPES = ("complex128", "complex128", "complex128", "float64", "float64", "complex64", "int64",
          "float32", "int16")
LAYOUTS = ("C", "C", "C", "strided", "reversed", "readonly")


@st.composite
def signals(draw, n=None, lo=1, hi=40, rare=None, kinds=KINDS, dtypes=DTYPES,
            layouts=LAYOUTS, amps=AMPS, columns=False):
    """Descriptor of a signal."""
    if n is None:
        n = draw(lengths(lo, hi, rare))
    d = dict(n=n, kind=draw(st.sampled_from(kinds)), seed=draw(SEEDS),
             dtype=draw(st.sampled_from(dtypes)), layout=draw(st.sampled_from(layouts)),
             amp=draw(st.sampled_from(amps)))
    if columns:
        d["shape"] = draw(st.sampled_from(("1d", "1d", "1d", "col", "row")))
    return d


def samples(d):
    """The samples of a signal descriptor, before dtype and layout."""
    n, kind = d["n"], d["kind"]
    rs = np.random.RandomState(d["seed"])
    t = np.arange(n)
    cplx = d.get("dtype", "complex128").startswith("complex")

    def noise(k):
        return rs.randn(k) + 1j * rs.randn(k)

    if kind == "noise":
        x = noise(n)
    elif kind == "tone":
        x = np.exp(2j * np.pi * (rs.rand() - (0.5 if cplx else 0)) * t + 1j * rs.rand())
    elif kind == "grid_tone":              # a tone at a multiple of 0.05
        x = np.exp(2j * np.pi * 0.05 * rs.randint(1, 10) * t + 1j * rs.rand())
    elif kind == "two_tones":
        x = np.exp(2j * np.pi * rs.rand() * t) + rs.rand() * np.exp(2j * np.pi * rs.rand() * t)
    elif kind == "chirp":
        f0, f1 = rs.rand(2) * 0.5
        x = np.exp(2j * np.pi * (f0 * t + (f1 - f0) / (2.0 * n) * t ** 2))
    elif kind == "impulse":
        x = np.zeros(n, dtype=complex)
        x[rs.randint(n)] = noise(1)[0] + 0.5
    elif kind == "sparse":
        x = noise(n) * (rs.rand(n) < 0.25)
        x[rs.randint(n)] += 1.0
    elif kind == "const":
        x = np.ones(n) * (noise(1)[0] + 0.5)
    elif kind == "ints":
        x = rs.randint(-4, 5, n) + 1j * rs.randint(-4, 5, n)
        x[rs.randint(n)] += 2
    elif kind == "atom":
        c, w = n * rs.rand(), 1 + 0.3 * n * rs.rand()
        x = np.exp(-((t - c) / w) ** 2) * np.exp(2j * np.pi * rs.rand() * t)
        x[rs.randint(n)] += 1e-3
    elif kind == "silent_half":
        x = noise(n)
        if rs.rand() < 0.5:
            x[:n // 2] = 0
        else:
            x[(n + 1) // 2:] = 0
            x[0] += 1.0
    elif kind == "decay":
        x = np.exp(-t / (1 + 0.2 * n)) * np.exp(2j * np.pi * rs.rand() * t)
    elif kind == "few_values":
        x = rs.choice(np.array([1.0, -1.0, 1j, -1j, 0.0]), n).astype(complex)
        x[rs.randint(n)] = 1.0
    else:
        raise KeyError(kind)
    if not np.any(np.abs(x) > 1e-3):
        x[0] = 1.0
    return x * d.get("amp", 1.0)


def expand(d):
    """The array handed to the code under test."""
    x = samples(d)
    dtype = np.dtype(d.get("dtype", "complex128"))
    if dtype.kind == "i":
        y = np.real(x) / abs(d.get("amp", 1.0)) * 3
        if dtype.itemsize < 8:                    # the whole range of a short integer
            y = y / max(np.max(np.abs(y)), 1e-3) * 0.9 * np.iinfo(dtype).max
        y = np.round(y).astype(dtype)
        if not np.any(y):
            y[0] = 1
        x = y
    elif dtype.kind == "f":
        y = np.real(x)
        if not np.any(np.abs(y) > 1e-3 * abs(d.get("amp", 1.0))):
            y = y.copy()
            y[0] = d.get("amp", 1.0)
        x = y.astype(dtype)
    else:
        x = x.astype(dtype)
    return lay(x, d.get("layout", "C"), d.get("shape", "1d"))


def lay(x, layout, shape="1d"):
    """Same values, another memory layout or shape."""
    if layout == "strided":
        buf = np.zeros(2 * x.shape[0] + 1, dtype=x.dtype)
        buf[1::2] = x
        x = buf[1::2]
    elif layout == "reversed":
        x = np.ascontiguousarray(x[::-1])[::-1]
    else:
        x = np.array(x)
    if shape == "col":
        x = x.reshape(-1, 1)
    elif shape == "row":
        x = x.reshape(1, -1)
    if layout == "readonly":
        x.flags.writeable = False
    return x


def tolerance(d, base=1e-8):
    """Relative tolerance for the precision of a signal's type."""
    return max(base, 2e-4) if d.get("dtype") in ("complex64", "float32") else base


# -- windows ---------------------------------------------------------------

@st.composite
def windows(draw, max_len, positive=False, symmetric=False, min_len=1, average=False):
    """Descriptor of a window of odd length. ``average`` windows may have taps of
    both signs, but no run of their taps has a sum next to zero."""
    half_max = max((max_len - 1) // 2, (min_len - 1) // 2)
    half = draw(st.integers((min_len - 1) // 2, half_max))
    kinds = ["hamming", "ones", "kaiser", "gauss", "random_positive"]
    if not positive:
        kinds += ["hann", "random"]
    if average:
        kinds += ["signed"]
    if symmetric:
        kinds = [k for k in kinds if not k.startswith("random")]
    return dict(len=2 * half + 1, kind=draw(st.sampled_from(kinds)), seed=draw(SEEDS),
                gain=draw(st.sampled_from((1.0, 1.0, 1.0, 2.5, 0.01, 1e-9, 1e5, -1.5))))


def window(w):
    n, kind = w["len"], w["kind"]
    t = np.linspace(-1, 1, n) if n > 1 else np.zeros(1)
    if kind == "hamming":
        h = 0.54 + 0.46 * np.cos(np.pi * t)
    elif kind == "hann":
        h = 0.5 + 0.5 * np.cos(np.pi * t)
    elif kind == "ones":
        h = np.ones(n)
    elif kind == "kaiser":
        h = np.i0(5.0 * np.sqrt(np.maximum(0, 1 - t ** 2))) / np.i0(5.0)
    elif kind == "gauss":
        h = np.exp(np.log(0.005) * t ** 2)
    elif kind == "random_positive":
        h = 0.2 + np.random.RandomState(w["seed"]).rand(n)
    elif kind == "signed":
        h = -(0.1 + 0.5 * np.random.RandomState(w["seed"]).rand(n)) / n
        h[n // 2] = 1.0
    else:
        h = np.random.RandomState(w["seed"]).randn(n)
        h[n // 2] = 1.0 + abs(h[n // 2])
    return h * w["gain"]


def subsets(n, min_size=1, lo=0):
    """Selections of the integers ``lo .. n - 1`` (at least one), mostly
    increasing, sometimes in any order and with repetitions."""
    def make(k):
        mode, a, b, s = k
        idx = np.arange(lo, n)
        if mode == "all":
            pass
        elif mode == "step":
            idx = idx[a % len(idx)::1 + b % 4]
        elif mode == "block":
            i, j = sorted((a % len(idx), b % len(idx)))
            idx = idx[i:j + 1]
        elif mode == "any":
            rs = np.random.RandomState(s)
            idx = rs.choice(idx, 1 + a % len(idx))
        else:
            keep = np.random.RandomState(s).rand(len(idx)) < 0.5
            keep[a % len(idx)] = True
            idx = idx[keep]
        if len(idx) < min_size:
            idx = np.arange(lo, n)
        return [int(i) for i in idx]
    return st.tuples(st.sampled_from(("all", "all", "step", "block", "random", "any")),
                     st.integers(0, 10 ** 6), st.integers(0, 10 ** 6), SEEDS).map(make)
