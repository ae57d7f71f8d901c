"""Laws of the helpers: C12 (numbers), C29 (integration, window derivative)."""

import math

import numpy as np
from hypothesis import strategies as st

import gens as G
import ref
from core import Law, close, require, sut

from tftb import utils as U
from tftb.processing import utils as PU


# -- C12 ---------------------------------------------------------------------

def ints(hi):
    return st.one_of(st.integers(1, 300), st.integers(1, hi),
                     st.integers(1, int(hi ** 0.5)).map(lambda k: k * k),
                     st.integers(2, int(hi ** 0.5)).map(lambda k: k * (k - 1)),
                     st.integers(0, int(math.log2(hi))).map(lambda k: 2 ** k),
                     st.integers(2, int(hi ** 0.5)).map(lambda k: k * k - 1),
                     st.integers(2, int(hi ** 0.5) - 1).map(lambda k: k * k + 1))


# squares and the products of neighbours, beyond the precision of a floating point root
LARGE = st.integers(2 ** 20, 2 ** 40).flatmap(lambda k: st.sampled_from(
    (k * k, k * k - 1, k * (k - 1), k * (k + 2), k * (k + 1))))
NUMBERS = st.one_of(ints(2 ** 40), ints(2 ** 52),
                    st.tuples(st.integers(0, 52), st.integers(-1, 1)).map(
                        lambda p: max(1, 2 ** p[0] + p[1])),
                    st.floats(1e-6, 1e12), st.integers(-20, 45).map(lambda k: 2.0 ** k),
                    st.tuples(st.integers(-20, 45), st.booleans()).map(
                        lambda p: float(np.nextafter(2.0 ** p[0], 1e300 if p[1] else 0.0))))


def check_divider(c):
    n = c["n"]
    a, b = sut(U.divider, n)
    require(a == int(a) and b == int(b) and a >= 1 and b >= 1, "divider: not two positive integers",
            got=(a, b))
    require(int(a) * int(b) == n, "divider: the product is not the number", got=(a, b))
    k = math.isqrt(n)
    while n % k:
        k -= 1
    require(min(a, b) == k, "divider: not the factors nearest to the square root", got=(a, b),
            expected=(k, n // k))
    return n > 3


def check_nextpow2(c):
    vals = c["v"]
    got = sut(U.nextpow2, np.array(vals) if c["array"] else vals[0])
    got = [int(g) for g in np.atleast_1d(got)]
    require(len(got) == (len(vals) if c["array"] else 1), "nextpow2: wrong number of results")
    for v, g in zip(vals, got):
        m, e = math.frexp(v)                   # v = m * 2 ** e, m in [0.5, 1)
        e -= m == 0.5
        require(g == e, "nextpow2 of %r" % v, got=g, expected=e)
    return True


def odd_reference(v):
    f = math.floor(v)
    return f if f % 2 else f + 1


def check_nearest_odd(c):
    vals = c["v"]
    form = c["form"]
    if form == "scalar":
        got = [sut(U.nearest_odd, vals[0])]
        vals = vals[:1]
    else:
        if form == "range":
            start, step = int(vals[0]) % 1000, int(vals[-1]) % 7 + 1
            vals = list(range(start, start + step * len(vals), step))
            arg = range(start, start + step * len(vals), step)
        else:
            arg = {"array": np.array, "list": list, "tuple": tuple}[form](vals)
        keep = np.array(vals)
        got = sut(U.nearest_odd, arg)
        require(len(got) == len(vals), "nearest_odd: wrong number of results")
        require(bool(np.array_equal(np.array(arg), keep)), "nearest_odd changed its input")
    for v, g in zip(vals, got):
        require(g == odd_reference(v), "nearest_odd of %r" % v, got=g, expected=odd_reference(v))
        require(int(g) % 2 == 1 and abs(g - v) <= 1, "nearest_odd of %r is not a nearby odd" % v,
                got=g)
    return form


def check_modulo(c):
    n = c["n"]
    vals = c["x"] * c["tile"]
    x = np.array(vals)
    arg = x.copy() if c["array"] else list(vals)
    y = np.asarray(sut(U.modulo, arg, n))
    require(y.shape == x.shape, "modulo: wrong shape")
    require(bool(np.array_equal(np.array(arg), x)), "modulo changed its input")
    e = np.array([n if v % n == 0 else v % n for v in vals])
    close(y, e, "modulo", 1e-12, scale=float(n))
    require(bool(np.all(y > 0) and np.all(y <= n)), "modulo leaves (0, N]")
    return True


@st.composite
def linear_cases(draw):
    n = draw(st.one_of(st.integers(2, 60), st.integers(2, 60), st.integers(100, 700)))
    return dict(n=n, a=draw(st.integers(-1000, 1000)) / 10.0,
                b=draw(st.integers(-5000, 5000)) / 1000.0,
                decimals=draw(st.one_of(st.none(), st.integers(3, 7))),
                at=draw(st.integers(0, n - 1)),
                bump=draw(st.one_of(st.just(0.0), st.floats(1.5, 1e4), st.floats(-1e4, -1.5),
                                    st.just(0.0))))


def check_is_linear(c):
    d = 5 if c["decimals"] is None else c["decimals"]
    x = c["a"] + c["b"] * np.arange(c["n"])
    x[c["at"]] += c["bump"] * 10.0 ** -d
    kw = {} if c["decimals"] is None else {"decimals": c["decimals"]}
    got = sut(U.is_linear, x, **kw)
    expected = c["bump"] == 0 or c["n"] == 2
    require(bool(got) == expected, "is_linear", got=got, expected=expected)
    return "linear" if expected else "bent"


@st.composite
def zak_cases(draw):
    return dict(n=draw(st.integers(1, 24)), m=draw(st.integers(1, 24)), seed=draw(G.SEEDS),
                kind=draw(st.sampled_from(("complex", "complex", "real", "integer", "sparse", "constant"))),
                flat=draw(st.booleans()), order=draw(st.sampled_from("CF")))


def check_izak(c):
    n, m = c["n"], 1 if c["flat"] else c["m"]
    rs = np.random.RandomState(c["seed"])
    z = rs.randn(n, m) + 1j * rs.randn(n, m)
    if c["kind"] == "real":
        z = z.real
    elif c["kind"] == "integer":
        z = np.round(4 * z.real).astype(int)
        z[0, 0] = 3
    elif c["kind"] == "sparse":
        z = z * (rs.rand(n, m) < 0.3)
        z[-1, 0] = 2.0
    elif c["kind"] == "constant":
        z = np.full((n, m), 1.5 - 0.5j)
    z = np.asarray(z, order=c["order"])
    arg = z[:, 0].copy() if c["flat"] else z
    keep = arg.copy()
    y = np.asarray(sut(U.izak, arg))
    require(y.shape == (n * m,), "izak: wrong shape", got=y.shape)
    close(arg, keep, "izak changed its input", 0.0)
    # the Zak transform of what came out is what went in
    back = np.array([[np.sum(y[i + m * np.arange(n)] * np.exp(-2j * np.pi * k * np.arange(n) / n))
                      for i in range(m)] for k in range(n)]) / np.sqrt(n)
    close(back, z, "Zak transform of the inverse", 1e-9)
    require(abs(np.linalg.norm(y) / np.linalg.norm(z) - 1) < 1e-10, "izak changes the energy")
    return n > 1


REALS = st.one_of(st.integers(-200, 200), st.integers(0, 10 ** 6),
                  st.floats(-1000, 1000, allow_nan=False).filter(
                      lambda v: abs(v - round(v)) > 1e-6 or v == round(v)))


@st.composite
def odd_cases(draw):
    form = draw(st.sampled_from(("scalar", "array", "list", "tuple", "range")))
    kind = draw(st.booleans())
    s = st.integers(-50, 5000) if kind else REALS.map(float)
    return dict(form=form, v=draw(st.lists(s, min_size=1, max_size=8)) *
                draw(st.sampled_from((1, 1, 1, 50))))


@st.composite
def modulo_cases(draw):
    n = draw(st.one_of(st.integers(1, 60), st.integers(1, 60), st.integers(61, 3000)))
    s = st.one_of(st.integers(-500, 500), st.integers(-8, 8).map(lambda k: k * n))
    if draw(st.booleans()):
        s = s.map(float)
    return dict(n=n, x=draw(st.lists(s, min_size=1, max_size=12)), tile=draw(
        st.sampled_from((1, 1, 1, 40))), array=draw(st.booleans()))


def check_modulo_complex(c):
    """Both parts of complex numbers are reduced."""
    x = np.array([complex(a, b) for a, b in c["x"]])
    keep = x.copy()
    y = np.asarray(sut(U.modulo, x, c["n"]))
    close(x, keep, "the argument was changed", 0.0)
    require(y.shape == x.shape, "shape", got=y.shape)
    for part in (np.real, np.imag):
        r = part(y)
        require(bool(np.all(r >= 0) and np.all(r <= c["n"])), "a part is not reduced", got=r)
        q = (r - part(x)) / c["n"]
        require(bool(np.all(np.abs(q - np.round(q)) < 1e-9)), "a part is not congruent", got=r)
    return True


C12 = [Law("modulo_complex", st.fixed_dictionaries(dict(
           n=st.integers(1, 40), x=st.lists(st.tuples(
               st.integers(-300, 300), st.integers(-300, 300) | st.just(0)),
               min_size=1, max_size=8))), check_modulo_complex, 300),
       Law("divider", st.fixed_dictionaries(dict(n=ints(10 ** 11))), check_divider, 1500),
       Law("divider_large", st.fixed_dictionaries(dict(n=LARGE)), check_divider, 400),
       Law("nextpow2", st.fixed_dictionaries(dict(v=st.lists(NUMBERS, min_size=1, max_size=8),
                                                  array=st.booleans())), check_nextpow2, 2500),
       Law("nearest_odd", odd_cases(), check_nearest_odd, 3000),
       Law("modulo", modulo_cases(), check_modulo, 3000),
       Law("is_linear", linear_cases(), check_is_linear, 3000),
       Law("izak", zak_cases(), check_izak, 1500)]


# -- C29 ---------------------------------------------------------------------

@st.composite
def integrate_cases(draw):
    side = st.one_of(st.integers(1, 40), st.integers(1, 40), st.integers(1, 40), st.integers(41, 320))
    return dict(m=draw(side), n=draw(side), seed=draw(G.SEEDS),
                x=draw(st.sampled_from((None, "unit", "step", "random", "down", "any"))),
                y=draw(st.sampled_from((None, "even", "log", "random", "down", "any"))),
                order=draw(st.sampled_from("CF")), readonly=draw(st.booleans()),
                kind=draw(st.sampled_from(("float", "int", "complex", "bilinear"))))


def check_integrate(c):
    m, n = c["m"], c["n"]
    rs = np.random.RandomState(c["seed"])
    x = {None: None, "unit": np.arange(n), "step": 3.0 + 0.1 * (1 + rs.randint(9)) * np.arange(n),
         "random": np.sort(rs.rand(n) * 4), "down": -np.sort(rs.rand(n) * 4),
         "any": rs.randint(-9, 10, n)}[c["x"]]
    y = {None: None, "even": np.linspace(0, 0.5, m), "log": np.logspace(-1.3, -0.3, m),
         "random": np.sort(rs.rand(m) * 4), "down": -np.sort(rs.rand(m) * 4),
         "any": rs.randint(-9, 10, m)}[c["y"]]
    mat = rs.randn(m, n)
    if c["kind"] == "int":
        mat = rs.randint(-9, 10, (m, n)) if c["seed"] % 2 else \
            rs.randint(0, 256, (m, n)).astype(np.uint8)
    elif c["kind"] == "complex":
        mat = mat + 1j * rs.randn(m, n)
    xx = np.arange(n) if x is None else x
    yy = np.arange(m) if y is None else y
    if c["kind"] == "bilinear":
        a = rs.randn(4)
        mat = a[0] + a[1] * xx[None, :] + a[2] * yy[:, None] + a[3] * xx[None, :] * yy[:, None]
    mat = np.asarray(mat, order=c["order"])
    if c["readonly"]:
        mat.flags.writeable = False
    keep = mat.copy()
    kw = {k: v for k, v in (("x", x), ("y", y)) if v is not None}
    got = sut(PU.integrate_2d, mat, **kw)
    require(bool(np.array_equal(mat, keep)), "integrate_2d changed its input")
    e = (ref.trapezoid_2d if m * n <= 900 else ref.trapezoid_2d_fast)(mat.astype(complex), xx, yy)
    size = float(np.max(np.abs(mat * 1.0)) * np.sum(np.abs(np.diff(xx))) *
                 np.sum(np.abs(np.diff(yy))))
    close(got, e, "two dimensional integral", 1e-9, scale=size + 1e-12)
    if c["kind"] == "bilinear":
        X0, X1, Y0, Y1 = xx[0], xx[-1], yy[0], yy[-1]
        exact = (a[0] * (X1 - X0) * (Y1 - Y0) + a[1] * (X1 ** 2 - X0 ** 2) / 2 * (Y1 - Y0) +
                 a[2] * (X1 - X0) * (Y1 ** 2 - Y0 ** 2) / 2 +
                 a[3] * (X1 ** 2 - X0 ** 2) * (Y1 ** 2 - Y0 ** 2) / 4)
        close(got, exact, "integral of a bilinear function", 1e-9, scale=size + 1e-12)
    return c["kind"]


@st.composite
def derive_cases(draw):
    return dict(w=draw(st.one_of(G.windows(61, min_len=3), G.windows(1200, min_len=3))), even=draw(st.booleans()),
                layout=draw(st.sampled_from(G.LAYOUTS)))


def check_derive(c):
    w = G.window(c["w"])
    if c["even"] and len(w) > 3:
        w = w[:-1]
    arg = G.lay(w, c["layout"])
    d = np.asarray(sut(PU.derive_window, arg))
    require(bool(np.array_equal(arg, w)), "derive_window changed its input")
    n = len(w)
    require(d.shape == (n,), "derivative: wrong shape", got=d.shape)
    s = float(np.max(np.abs(w)))
    close(d[1:-1], (w[2:] - w[:-2]) / 2, "derivative inside the window", 1e-9, scale=s)
    close(d, ref.derivative_window(w), "derivative of the window", 1e-9, scale=s)
    if np.allclose(w / s, w[::-1] / s, atol=1e-12):
        close(d, -d[::-1], "derivative of a symmetric window is antisymmetric", 1e-9, scale=s)
    return True


@st.composite
def smooth_cases(draw):
    return dict(n=draw(st.integers(20, 150).map(lambda k: 2 * k + 1)), p=draw(st.integers(1, 3)),
                gain=draw(G.reals(0.1, 10.0)))


def check_derive_smooth(c):
    """Against the analytic derivative of a smooth window vanishing at its ends."""
    n = c["n"]
    u = np.linspace(0, np.pi, n)
    w = c["gain"] * np.sin(u) ** (c["p"] + 1)
    e = c["gain"] * (c["p"] + 1) * np.sin(u) ** c["p"] * np.cos(u) * np.pi / (n - 1)
    d = sut(PU.derive_window, w)
    close(d[1:-1], e[1:-1], "derivative of a smooth window", 0.08)
    return True


C29 = [Law("integral", integrate_cases(), check_integrate, 2500),
       Law("window_derivative", derive_cases(), check_derive, 3000),
       Law("smooth_window", smooth_cases(), check_derive_smooth, 800)]
