"""C27, C28: post-processing of representations."""

import numpy as np
from hypothesis import strategies as st

import gens as G
import ref
from core import Law, close, refused, require, sut

from tftb.processing import postprocessing as PP
from tftb.processing import reassigned as R

PI = np.pi


# -- C27 Hough transform and Renyi information ---------------------------------

@st.composite
def image_cases(draw, lo=2, hi=16, most=30):
    return dict(h=draw(st.integers(lo, hi)), w=draw(st.integers(lo, hi)),
                kind=draw(st.sampled_from(("random", "sparse", "binary", "steps", "signed",
                                           "levels", "random", "constant"))),
                seed=draw(G.SEEDS), m=draw(st.one_of(st.none(), st.integers(2, most))),
                n=draw(st.one_of(st.none(), st.integers(1, most))),
                layout=draw(st.sampled_from(("C", "C", "F", "strided"))),
                gain=draw(st.sampled_from((1.0, 1e-5, 300.0))))


def image(c):
    rs = np.random.RandomState(c["seed"])
    shape = (c["h"], c["w"])
    if c["kind"] == "random":
        im = rs.rand(*shape)
    elif c["kind"] == "constant":
        im = np.ones(shape)
    elif c["kind"] == "sparse":
        im = rs.rand(*shape) * (rs.rand(*shape) < 0.15)
    elif c["kind"] == "binary":
        im = (rs.rand(*shape) < 0.3) * 1.0
    elif c["kind"] == "steps":
        im = rs.randint(0, 5, shape) * 0.03
    elif c["kind"] == "levels":                  # an eight bit picture
        im = rs.randint(0, 120, shape) * (rs.rand(*shape) < 0.5)
        im[rs.randint(c["h"]), rs.randint(c["w"])] = 127
        return im.astype(np.int16 if c["gain"] > 1 else np.uint8)
    else:
        im = rs.randn(*shape)
    im[rs.randint(c["h"]), rs.randint(c["w"])] = 1.0
    im = im * c["gain"]
    if c.get("layout") == "F":
        im = np.asfortranarray(im)
    elif c.get("layout") == "strided":
        im = np.repeat(im, 2, axis=1)[:, ::2]
    return im


def check_hough(c):
    im = image(c)
    keep = im.copy()
    H, W = im.shape
    m = c["m"] or H
    n = c["n"] or W
    kw = {k: c[k] for k in ("m", "n") if c[k] is not None}
    ht, rho, theta = sut(PP.hough_transform, im, **kw)
    close(im, keep, "the transform changed the image", 0.0)
    rmax = np.sqrt(H ** 2 + W ** 2) / 2.0
    step = rmax / (m - 1.0)
    close(rho, np.linspace(0, rmax, m), "radius axis", 1e-12)
    angles = 2 * PI * np.arange(n) / n
    close(theta, angles, "angle axis", 1e-12, scale=2 * PI)
    require(np.shape(ht) == (m, n), "shape of the transform", got=np.shape(ht))
    im = im.astype(float)
    top = im.max()
    lo, hi = np.zeros((m, n)), np.zeros((m, n))

    def vote(r, j, v, sure):
        if not 0 <= r < m:
            return
        lo[r, j] += v if sure else min(v, 0)
        hi[r, j] += v if sure else max(v, 0)
    # the origin is the middle pixel, or the last before the middle
    X, Y = np.arange(H) - (H - 1) // 2, np.arange(W) - (W - 1) // 2
    for i in range(H):
        for k in range(W):
            v = im[i, k]
            if abs(abs(v) - top / 20.0) < 1e-12 * top:
                certain = False
            elif abs(v) <= top / 20.0:
                continue
            else:
                certain = True
            r = X[i] * np.cos(angles) - Y[k] * np.sin(angles)
            for j in range(n):
                if r[j] < -1e-9 or r[j] > rmax + 1e-9:
                    continue
                p = r[j] / step
                edge = abs(r[j]) < 1e-9 or r[j] > rmax - 1e-9
                a, b = int(np.round(p - 1e-7)), int(np.round(p + 1e-7))
                if a == b:
                    vote(a, j, v, certain and not edge)
                else:
                    vote(a, j, v, False)
                    vote(b, j, v, False)
    slack = 1e-9 * (np.sum(np.abs(im)) + 1e-300)
    bad = (ht < lo - slack) | (ht > hi + slack)
    if np.any(bad):
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        require(False, "Hough transform", at=i, got=ht[i], between=(lo[i], hi[i]))
    return c["kind"]


@st.composite
def line_cases(draw):
    return dict(h=draw(st.integers(8, 26)), w=draw(st.integers(8, 26)),
                along=draw(st.sampled_from(("row", "col"))), pos=draw(st.integers(1, 12)),
                noise=draw(st.booleans()), seed=draw(G.SEEDS))


def check_line(c):
    """A straight line of the image is the largest entry, at its own angle and
    distance from the centre."""
    H, W = c["h"], c["w"]
    im = np.zeros((H, W))
    size = H if c["along"] == "row" else W
    reach = size // 2 if size % 2 == 0 else (size - 1) // 2
    d = 1 + c["pos"] % reach
    at = d + (size - 1) // 2
    if c["noise"]:
        im += 0.3 * np.random.RandomState(c["seed"]).rand(H, W) * 0.1
    if c["along"] == "row":
        im[at, :] = 1.0
        angle, total = 0.0, W
    else:
        im[:, at] = 1.0
        angle, total = 1.5 * PI, H                # -y sin(theta) = y
    n = 36
    cells = d / (np.sqrt(H ** 2 + W ** 2) / 2.0 / (2 * max(H, W) - 1.0))
    if abs(cells % 1 - 0.5) < 1e-7:
        return False                              # rounding decides on the radius
    ht, rho, theta = sut(PP.hough_transform, im, 2 * max(H, W), n)
    i, j = np.unravel_index(int(np.argmax(ht)), ht.shape)
    require(ht.max() >= total * (1 - 1e-9), "a line does not add up", got=ht.max(), expected=total)
    require(abs(rho[i] - d) <= 0.5 * (rho[1] - rho[0]) + 1e-9 and
            abs(theta[j] - angle) < 1e-9, "the line is found elsewhere",
            got=(rho[i], theta[j]), expected=(d, angle))
    return c["along"]


@st.composite
def renyi_cases(draw, lo=2, hi=14):
    return dict(h=draw(st.integers(lo, hi)), w=draw(st.integers(lo, hi)), seed=draw(G.SEEDS),
                kind=draw(st.sampled_from(("random", "sparse", "smooth", "signed", "counts"))),
                alpha=draw(st.one_of(st.none(), st.just(1), st.just(1.0), st.just(2), st.just(3),
                                     G.reals(0.3, 4.0, (0.5, 2.0, 3.0)))),
                gain=draw(st.sampled_from((1.0, 1e-3, 250.0, -2.0, -1e-2))),
                t=draw(st.sampled_from((None, "samples", "from_one", "seconds", "uneven"))),
                f=draw(st.sampled_from((None, "half", "log", "fft"))))


def renyi_axes(c):
    t = {None: None, "samples": np.arange(c["w"]), "from_one": np.arange(c["w"]) + 1,
         "seconds": 0.25 * np.arange(c["w"]) + 3,
         "uneven": np.cumsum(1 + (np.arange(c["w"]) * (c["seed"] % 5 + 1)) % 3)}[c["t"]]
    f = {None: None, "half": 0.5 * np.arange(c["h"]) / c["h"],
         "log": np.logspace(-2, -0.3, c["h"]), "fft": np.fft.fftfreq(c["h"])}[c["f"]]
    return t, f


def check_renyi(c):
    rs = np.random.RandomState(c["seed"])
    shape = (c["h"], c["w"])
    tfr = rs.rand(*shape) + 0.01
    if c["kind"] == "sparse":
        tfr = tfr * (rs.rand(*shape) < 0.4)
        tfr[0, 0] = 1.0
    elif c["kind"] == "smooth":
        y, x = np.mgrid[:c["h"], :c["w"]]
        tfr = np.exp(-(y - c["h"] / 2.0) ** 2 / 5.0 - (x - c["w"] / 2.0) ** 2 / 7.0)
    elif c["kind"] == "signed":
        tfr = rs.randn(*shape) * 0.3 + 0.6
    elif c["kind"] == "counts":
        tfr = rs.randint(0, 50, shape)
        tfr[0, 0] = 7
        c = dict(c, gain=1)
    tfr = tfr * c["gain"]
    keep = tfr.copy()
    t, f = renyi_axes(c)
    alpha = 3.0 if c["alpha"] is None else c["alpha"]
    kw = {} if c["alpha"] is None else dict(alpha=alpha)
    if t is not None:
        kw["timestamps"] = t
    if f is not None:
        kw["freq"] = f
    if alpha == 1 and tfr.min() < 0:
        require(refused(PP.renyi_information, tfr, **kw),
                "negative values are accepted for the first order")
        return "refused"
    if tfr.min() < 0 and float(alpha) not in (2.0, 3.0):
        return False
    x = np.arange(c["w"]) if t is None else t
    y = np.arange(c["h"]) if f is None else np.sort(f)
    p = tfr / ref.trapezoid_2d_fast(tfr, x, y)
    if alpha == 1:
        q = np.where(p > 0, p, 1.0)
        e = -ref.trapezoid_2d_fast(p * np.log2(q), x, y)
    else:
        if 0 < abs(alpha - 1) < 1e-3:
            return False
        s = ref.trapezoid_2d_fast(p ** alpha, x, y)
        if s < 1e-7:
            return False
        e = np.log2(s) / (1 - alpha)
    if not np.isfinite(e) or ref.trapezoid_2d_fast(np.abs(p), x, y) > 1e3:
        return False
    axes = {k: v.copy() for k, v in kw.items() if k != "alpha"}
    got = sut(PP.renyi_information, tfr, **kw)
    close(tfr, keep, "the measure changed the representation", 0.0)
    for k, v in axes.items():
        close(kw[k], v, "the measure changed the " + k, 0.0)
    close(np.asarray(got), np.asarray(e), "Renyi information", 1e-6 / min(1.0, abs(1 - alpha) or 1.0),
          scale=1.0 + abs(e))
    return "order %s" % ("one" if alpha == 1 else "integer" if alpha == round(alpha) else "other")


@st.composite
def copies_cases(draw):
    return dict(h=draw(st.integers(6, 16)), w=draw(st.integers(6, 16)), seed=draw(G.SEEDS),
                k=draw(st.integers(2, 4)), alpha=draw(st.sampled_from((1, 2, 3, 0.5, 2.5))))


def check_copies(c):
    """k disjoint copies of a component carry log2(k) bits more."""
    rs = np.random.RandomState(c["seed"])
    a = np.zeros((c["h"], c["w"]))
    a[1:-1, 1:-1] = rs.rand(c["h"] - 2, c["w"] - 2) + 0.05
    one = np.concatenate([a] + [0 * a] * (c["k"] - 1), axis=1)
    many = np.concatenate([a] * c["k"], axis=1)
    r1 = sut(PP.renyi_information, one, alpha=c["alpha"])
    r2 = sut(PP.renyi_information, many, alpha=c["alpha"])
    require(abs(r2 - r1 - np.log2(c["k"])) < 1e-5, "copies do not add their logarithm",
            got=r2 - r1, expected=np.log2(c["k"]))
    return True


C27 = [Law("hough", image_cases(), check_hough, 500),
       Law("large_images", image_cases(20, 56, 160), check_hough, 16),
       Law("large_renyi", renyi_cases(40, 300), check_renyi, 60),
       Law("line", line_cases(), check_line, 120),
       Law("renyi", renyi_cases(), check_renyi, 2500),
       Law("copies", copies_cases(), check_copies, 500)]


# -- C28 ideal representation, Friedman's density, ridges -----------------------

@st.composite
def ideal_cases(draw, lo=1, hi=40, most=60):
    n = draw(st.integers(lo, hi))
    return dict(n=n, laws=draw(st.integers(1, 4)), seed=draw(G.SEEDS),
                bins=draw(st.one_of(st.none(), st.integers(2, most))),
                ts=draw(st.one_of(st.none(), G.subsets(n))), nan=draw(st.booleans()),
                edges=draw(st.booleans()))


def check_ideal(c):
    rs = np.random.RandomState(c["seed"])
    n = c["n"]
    bins = c["bins"] or n
    laws = 0.5 * rs.rand(c["laws"], n)
    if c["edges"]:
        pick = rs.rand(*laws.shape)
        laws[pick < 0.2] = 0.0
        laws[pick > 0.8] = 0.5
    if c["nan"]:
        laws[rs.rand(*laws.shape) < 0.3] = np.nan
    keep = laws.copy()
    kw = {}
    if c["bins"] is not None:
        kw["n_fbins"] = bins
    if c["ts"] is not None:
        kw["timestamps"] = np.array(c["ts"])
    ts = np.arange(n) if c["ts"] is None else np.array(c["ts"])
    tfr, t, f = sut(PP.ideal_tfr, laws, **kw)
    require(np.array_equal(laws, keep, equal_nan=True), "the laws were changed")
    close(t, ts, "time axis", 1e-12, scale=1.0)
    close(f, 0.5 * np.arange(bins) / bins, "frequency axis", 1e-12, scale=1.0)
    require(np.shape(tfr) == (bins, len(ts)), "shape", got=np.shape(tfr))
    require(bool(np.all((tfr == 0) | (tfr == 1))), "values other than zero and one")
    for j, ti in enumerate(ts):
        pos = [2 * v * (bins - 1) for v in keep[:, ti] if not np.isnan(v)]
        must = {int(np.round(p)) for p in pos
                if np.round(p - 1e-9) == np.round(p + 1e-9)}
        may = must | {int(np.round(p + e)) for p in pos for e in (-1e-9, 1e-9)}
        rows = set(int(r) for r in np.nonzero(tfr[:, j])[0])
        require(must <= rows <= may, "lines of the ideal representation", column=j,
                got=sorted(rows), expected=sorted(must))
    return n > 2


@st.composite
def friedman_cases(draw, lo=2, hi=24):
    return dict(h=draw(st.integers(lo, hi)), w=draw(st.integers(lo - 1, hi - 4)), seed=draw(G.SEEDS),
                kind=draw(st.sampled_from(("real", "complex", "complex"))),
                signed=draw(st.booleans()), ties=draw(st.sampled_from((0, 0, 0, 2, 4, 8, 16))),
                method=draw(st.sampled_from(("rsp", "type1", "rspwv", "rpwv", "rpmh", "RSP", None))),
                fixed=draw(st.sampled_from((0.2, 0.6, 0.95))),
                t=draw(st.sampled_from((None, "samples", "shifted", "seconds"))))


def shape_of(c):
    """A power of two of points where the threshold has to be exact."""
    if not c.get("ties"):
        return c["h"], c["w"]
    return c["ties"], 2 ** (c["w"] % 5)


def tied(c, tfr, level):
    return not c.get("ties") and np.any(np.abs(tfr - level) < 1e-12)


def reassigned_like(c):
    rs = np.random.RandomState(c["seed"])
    h, w = shape_of(c)
    tfr = rs.rand(h, w) ** 3
    if c["signed"]:
        tfr = tfr - 0.1 * rs.rand(h, w)
    if c.get("ties"):
        # whole numbers whose mean is twice one of them, exactly: that one is
        # not above the threshold
        tfr = rs.choice(np.array([0.0, 1.0, 1.0, 2.0, 4.0]), (h, w))
        flat = tfr.ravel()
        for k in rs.permutation(h * w):
            d = 2.0 * h * w - flat.sum()
            flat[k] = min(max(flat[k] + d, 0.0), 6.0)
        assert flat.sum() == 2.0 * h * w
    row, col = np.mgrid[:h, :w]
    jhat = np.where(rs.rand(h, w) < c["fixed"], row, rs.randint(0, h, (h, w))).astype(float)
    ihat = np.where(rs.rand(h, w) < c["fixed"], col, rs.randint(0, w, (h, w))).astype(float)
    level = np.sum(tfr) * 0.5 / tfr.size
    weak = tfr < 0.2 * level if level > 0 else np.zeros((h, w), dtype=bool)
    hat = jhat + (1j * ihat if c["kind"] == "complex" else 0)
    hat[weak] = np.inf
    return tfr, hat, jhat, ihat, level, weak


def check_friedman(c):
    tfr, hat, jhat, _, level, weak = reassigned_like(c)
    strong = (tfr > level)
    if not np.any(strong) or np.any(strong & weak) or tied(c, tfr, level):
        return False
    keep = tfr.copy(), hat.copy()
    d = sut(PP.friedman_density, tfr, hat)
    require(np.array_equal(tfr, keep[0]) and np.array_equal(hat, keep[1]), "inputs were changed")
    e = np.zeros(tfr.shape)
    for j in range(tfr.shape[1]):
        for i in range(tfr.shape[0]):
            if strong[i, j]:
                e[int(jhat[i, j]), j] += 1
    close(d, e / e.sum(), "density", 1e-12)
    close(np.sum(d), 1.0, "the density does not add up to one", 1e-12)
    return c["kind"]


def check_ridges(c):
    tfr, hat, jhat, ihat, level, weak = reassigned_like(c)
    if tied(c, tfr, level):
        return False
    method = (c["method"] or "rsp")
    low = method.lower()
    h, w = tfr.shape
    if low in ("rpwv", "rpmh") and c["kind"] == "complex":
        hat = np.real(hat)
    if low not in ("rpwv", "rpmh") and c["kind"] == "real":
        return False
    ts = {None: None, "samples": np.arange(w), "shifted": np.arange(w) + 5,
          "seconds": np.arange(w) / 8.0}[c["t"]]
    kw = {} if ts is None else dict(timestamps=ts)
    if c["method"] is not None:
        kw["method"] = method
    tp, fp = sut(PP.ridges, tfr, hat, **kw)
    labels = np.arange(w) if ts is None else ts
    et, ef = [], []
    scale = h if low in ("rsp", "type1") else 2.0 * h
    for j in range(w):
        for i in range(h):
            if tfr[i, j] > level and not weak[i, j] and jhat[i, j] == i and \
                    (low in ("rpwv", "rpmh") or ihat[i, j] == j):
                et.append(labels[j])
                ef.append(i / scale)
    require(np.shape(tp) == np.shape(fp), "times and frequencies differ in number")
    require(len(tp) == len(et), "number of ridge points", got=len(tp), expected=len(et))
    if len(et):
        got = sorted(zip(np.asarray(tp, dtype=float).tolist(), np.asarray(fp, dtype=float).tolist()))
        close(np.array(got), np.array(sorted(zip(map(float, et), map(float, ef)))), "ridge points", 1e-12)
    return low if len(et) else False


def check_unknown(c):
    tfr, hat, _, _, _, _ = reassigned_like(dict(c, kind="complex"))
    require(refused(PP.ridges, tfr, hat, method=c["name"]), "an unknown method is accepted")
    return True


@st.composite
def chain_cases(draw):
    n = draw(st.integers(32, 64))
    return dict(n=n, k=draw(st.integers(5, n // 2 - 6)), kind=draw(st.sampled_from(("rsp", "rpwv"))),
                phase=draw(G.reals(0, 6)))


def check_chain(c):
    """The ridges and the density of a tone lie on its frequency."""
    n, k = c["n"], c["k"]
    f = k / float(n) if c["kind"] == "rsp" else k / (2.0 * n)
    x = np.exp(2j * PI * f * np.arange(n) + 1j * c["phase"])
    h = G.window(dict(len=17, kind="gauss", seed=0, gain=1.0))
    if c["kind"] == "rsp":
        tfr, r, hat = sut(R.spectrogram, x, window=h)
    else:
        tfr, r, hat = sut(R.pseudo_wigner_ville, x, fwindow=h)
    tfr = np.real(tfr)
    t, fr = sut(PP.ridges, tfr, hat, method=c["kind"])
    inner = (t > n // 4) & (t < n - n // 4)
    require(np.any(inner), "a tone has no ridge")
    require(bool(np.all(np.abs(fr[inner] - f) <= 1.51 / n)), "the ridge leaves the tone",
            worst=float(np.max(np.abs(fr[inner] - f))))
    d = sut(PP.friedman_density, tfr, hat)
    mid = d[:, n // 4:n - n // 4]
    require(mid[k - 2:k + 3].sum() > 0.8 * mid.sum(), "the density leaves the tone")
    return c["kind"]


C28 = [Law("ideal", ideal_cases(), check_ideal, 1500),
       Law("large_ideal", ideal_cases(60, 500, 600), check_ideal, 40),
       Law("large_friedman", friedman_cases(50, 300), check_friedman, 30),
       Law("large_ridges", friedman_cases(50, 300), check_ridges, 30),
       Law("friedman", friedman_cases(), check_friedman, 1200),
       Law("ridges", friedman_cases(), check_ridges, 1500),
       Law("unknown_method", st.fixed_dictionaries(dict(
           h=st.integers(2, 8), w=st.integers(2, 8), seed=G.SEEDS, signed=st.booleans(),
           fixed=st.just(0.6), name=st.sampled_from(("", "wv", "rs", "type3", "gabor")))),
           check_unknown, 40),
       Law("tone", chain_cases(), check_chain, 60)]
