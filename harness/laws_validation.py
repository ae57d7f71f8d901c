"""C04: what is outside a domain is refused, what is inside is accepted."""

import numpy as np
from hypothesis import strategies as st

import gens as G
from core import Law, refused, require, sut, warns

import tftb.generators as T
import tftb.processing as P
from tftb.processing import ambiguity, linear, postprocessing, reassigned

F_OUT = st.one_of(G.reals(0.5000001, 3.0), G.reals(-3.0, -0.5000001))
F_IN = G.freqs(-0.5, 0.5)
F_POS = G.freqs(0.0, 0.5)
F_POS_OUT = st.one_of(G.reals(0.5000001, 3.0), G.reals(-3.0, -0.000002))


def _noise(n, seed=0, cols=None):
    rs = np.random.RandomState(seed)
    shape = (n,) if cols is None else (n, cols)
    return rs.randn(*shape) + 1j * rs.randn(*shape)


# name -> (strategy of the arguments inside, strategy outside, call)
N = st.integers(1, 60)
N_BAD = st.integers(-20, 0)


def _pair(good, bad):
    return good, bad


TABLE = {
    "amgauss length": (st.tuples(N), st.tuples(N_BAD), lambda n: T.amgauss(n, 1.0, 1.0)),
    "amexpos length": (st.tuples(N, st.sampled_from(("bilateral", "unilateral"))),
                       st.tuples(N_BAD, st.sampled_from(("bilateral", "unilateral"))),
                       lambda n, k: T.amexpos(n, 1.0, 1.0, kind=k)),
    "amexpos kind": (st.tuples(st.integers(1, 60), st.sampled_from(("bilateral", "unilateral"))),
                     st.tuples(st.integers(1, 60), st.sampled_from(("", "both", "Unilaterial",
                                                                    "left", "bi"))),
                     lambda n, k: T.amexpos(n, kind=k)),
    "amrect length": (st.tuples(N), st.tuples(N_BAD), lambda n: T.amrect(n, 1.0, 1.0)),
    "amtriang length": (st.tuples(N), st.tuples(N_BAD), lambda n: T.amtriang(n, 1.0, 1.0)),
    "fmconst frequency": (st.tuples(N, F_IN), st.tuples(N, F_OUT), T.fmconst),
    "fmconst length": (st.tuples(N, F_IN), st.tuples(N_BAD, F_IN), T.fmconst),
    "fmlin frequencies": (st.tuples(st.integers(1, 60), F_IN, F_IN),
                          st.one_of(st.tuples(st.integers(1, 60), F_IN, F_OUT),
                                    st.tuples(st.integers(1, 60), F_OUT, F_IN)), T.fmlin),
    "fmlin length": (st.tuples(st.integers(1, 60), F_IN, F_IN), st.tuples(N_BAD, F_IN, F_IN),
                     T.fmlin),
    "fmodany law": (st.tuples(st.lists(F_IN, min_size=1, max_size=20)),
                    st.tuples(st.tuples(st.lists(F_IN, max_size=10), F_OUT,
                                        st.lists(F_IN, max_size=10)).map(
                        lambda t: list(t[0]) + [t[1]] + list(t[2]))),
                    lambda law: T.fmodany(np.array(law))),
    "fmodany column law": (st.tuples(st.lists(F_IN, min_size=1, max_size=20)),
                           st.tuples(st.tuples(st.lists(F_IN, max_size=10), F_OUT,
                                               st.lists(F_IN, max_size=10)).map(
                               lambda t: list(t[0]) + [t[1]] + list(t[2]))),
                           lambda law: T.fmodany(np.array(law).reshape(-1, 1))),
    "fmodany shape": (st.tuples(N, st.just(1)), st.tuples(N, st.integers(2, 4)),
                      lambda n, k: T.fmodany(np.full((n, k), 0.1))),
    "fmodany time centre": (st.integers(1, 30).flatmap(
        lambda n: st.tuples(st.just(n), st.integers(1, n))),
        st.integers(1, 30).flatmap(lambda n: st.tuples(
            st.just(n), st.one_of(st.integers(-5, 0), st.integers(n + 1, n + 6)))),
        lambda n, t0: T.fmodany(np.full(n, 0.1), t0)),
    "digital carrier": (st.tuples(st.sampled_from(("anaask", "anabpsk", "anaqpsk")), N, F_POS),
                        st.tuples(st.sampled_from(("anaask", "anabpsk", "anaqpsk")), N,
                                  F_POS_OUT),
                        lambda name, n, f: getattr(T, name)(n, 2, f)),
    "doppler distance": (st.tuples(G.reals(0.01, 10.0)), st.tuples(G.reals(-10.0, 0.0)),
                         lambda d: T.doppler(32, 200.0, 50.0, d, 20.0)),
    "doppler time centre": (st.integers(2, 60).flatmap(lambda n: st.tuples(
        st.just(n), st.one_of(st.integers(1, n), G.reals(1.0, float(n))))),
        st.integers(2, 60).flatmap(lambda n: st.tuples(st.just(n), st.one_of(
            G.reals(-10.0, 0.999), G.reals(n + 0.001, n + 10.0)))),
        lambda n, t0: T.doppler(n, 200.0, 50.0, 10.0, 20.0, t0=t0)),
    "doppler frequency": (G.reals(1.0, 500.0).flatmap(lambda fs: st.tuples(
        st.just(fs), st.one_of(st.just(fs / 2), st.just(0.0), G.reals(0.0, fs / 2)))),
        G.reals(1.0, 500.0).flatmap(lambda fs: st.tuples(st.just(fs), st.one_of(
            G.reals(fs / 2 * 1.001, fs * 2), G.reals(-10.0, -0.001)))),
        lambda fs, f: T.doppler(32, fs, f, 10.0, 20.0)),
    "doppler velocity": (st.tuples(G.reals(0.0, 100.0)), st.tuples(G.reals(-100.0, -0.001)),
                         lambda v: T.doppler(32, 200.0, 50.0, 10.0, v)),
    "klauder frequency": (st.tuples(G.reals(0.001, 0.499)),
                          st.tuples(st.one_of(G.reals(-1.0, 0.0), G.reals(0.5, 2.0))),
                          lambda f: T.klauder(32, 10.0, f)),
    "klauder length": (st.tuples(st.integers(2, 60)), st.tuples(N_BAD), T.klauder),
    "mexhat frequency": (st.tuples(G.reals(0.01, 0.5)),
                         st.tuples(st.one_of(G.reals(-1.0, -0.001), G.reals(0.501, 2.0))),
                         T.mexhat),
    "gdpower rate": (st.tuples(st.integers(4, 60), G.reals(-1.0, 3.0), st.one_of(
        G.reals(0.01, 2.0), G.reals(-2.0, -0.01))),
        st.tuples(st.integers(4, 60), G.reals(-1.0, 3.0), st.sampled_from((0, 0.0, -0.0))),
        T.gdpower),
    "noisecg length": (st.tuples(N), st.tuples(N_BAD), T.noisecg),
    "sigmerge shape": (st.tuples(N, st.just("1d")),
                       st.tuples(N, st.sampled_from(("first", "second"))),
                       lambda n, w: T.sigmerge(_noise(n, 1).reshape((n, 1) if w == "first" else n),
                                               _noise(n, 2).reshape((n, 1) if w == "second" else n),
                                               1.0)),
    "loctime shape": (st.tuples(N, st.just(1)), st.tuples(st.integers(2, 30), st.integers(2, 4)),
                      lambda n, k: P.loctime(_noise(n, 3, k))),
    "locfreq shape": (st.tuples(N, st.just(1)), st.tuples(st.integers(2, 30), st.integers(2, 4)),
                      lambda n, k: P.locfreq(_noise(n, 3, k))),
    "inst_freq shape": (st.tuples(st.integers(3, 30), st.just(1)),
                        st.tuples(st.integers(3, 30), st.integers(2, 4)),
                        lambda n, k: P.inst_freq(_noise(n, 3, k))),
    "inst_freq instants": (st.tuples(st.integers(6, 30), st.just(1)),
                           st.tuples(st.integers(6, 30), st.integers(2, 3)),
                           lambda n, k: P.inst_freq(_noise(n, 3), np.full((4, k), 3))),
    "group_delay shape": (st.tuples(st.integers(3, 30), st.just(1)),
                          st.tuples(st.integers(3, 30), st.integers(2, 4)),
                          lambda n, k: P.group_delay(_noise(n, 3, k))),
    "wide_band shape": (st.tuples(st.integers(16, 30), st.just(1)),
                        st.tuples(st.integers(16, 30), st.integers(2, 3)),
                        lambda n, k: ambiguity.wide_band(np.real(_noise(n, 3, k)), 0.1, 0.4, 8)),
    "smoothed frequency window": (st.tuples(st.integers(0, 5).map(lambda k: 2 * k + 1)),
                                  st.tuples(st.integers(1, 5).map(lambda k: 2 * k)),
                                  lambda m: P.smoothed_pseudo_wigner_ville(
                                      _noise(16), fwindow=np.ones(m))),
    "smoothed time window": (st.tuples(st.integers(0, 5).map(lambda k: 2 * k + 1)),
                             st.tuples(st.integers(1, 5).map(lambda k: 2 * k)),
                             lambda m: P.smoothed_pseudo_wigner_ville(
                                 _noise(16), twindow=np.ones(m))),
    "reassigned window": (
        st.tuples(st.sampled_from(("pseudo_wigner_ville", "pseudo_margenau_hill", "pseudo_page",
                                   "spectrogram", "smoothed_pseudo_wigner_ville")),
                  st.integers(1, 5).map(lambda k: 2 * k + 1)),
        st.tuples(st.sampled_from(("pseudo_wigner_ville", "pseudo_margenau_hill", "pseudo_page",
                                   "spectrogram", "smoothed_pseudo_wigner_ville")),
                  st.integers(1, 5).map(lambda k: 2 * k)),
        lambda name, m: getattr(reassigned, name)(
            _noise(16), **{"window" if name == "spectrogram" else "fwindow": np.ones(m)})),
    "reassigned time window": (
        st.tuples(st.integers(1, 5).map(lambda k: 2 * k + 1)),
        st.tuples(st.integers(1, 5).map(lambda k: 2 * k)),
        lambda m: reassigned.smoothed_pseudo_wigner_ville(_noise(16), twindow=np.ones(m))),
    "reassigned instants": (
        st.tuples(st.sampled_from(("spectrogram", "smoothed_pseudo_wigner_ville",
                                   "morlet_scalogram")),
                  st.integers(1, 4), st.integers(2, 5), st.just(0)),
        st.tuples(st.sampled_from(("spectrogram", "smoothed_pseudo_wigner_ville",
                                   "morlet_scalogram")),
                  st.integers(1, 4), st.integers(2, 5), st.integers(1, 3)),
        lambda name, step, count, jump: getattr(reassigned, name)(
            _noise(32), np.r_[np.arange(count) * step, count * step + jump])),
    "gabor window": (st.tuples(st.integers(1, 4).map(lambda k: 2 * k + 1)),
                     st.tuples(st.integers(1, 4).map(lambda k: 2 * k)),
                     lambda m: linear.gabor(_noise(16), 8, 2, np.hanning(m + 2)[1:-1])),
    "renyi sign": (st.tuples(G.reals(0.0, 1.0)), st.tuples(G.reals(-1.0, -0.001)),
                   lambda v: postprocessing.renyi_information(
                       np.array([[1.0, 1.0], [2.0, v]]), alpha=1)),
    "ridges method": (st.tuples(st.sampled_from(("rsp", "rpwv", "rpmh", "rspwv", "type1", "RSP",
                                                 "RPWV"))),
                      st.tuples(st.sampled_from(("", "xyz", "wv", "rs", "type9"))),
                      lambda m: postprocessing.ridges(np.ones((4, 4)),
                                                      np.zeros((4, 4), dtype=complex), method=m)),
}


@st.composite
def domain_cases(draw):
    name = draw(st.sampled_from(sorted(TABLE)))
    inside = draw(st.booleans())
    return dict(name=name, inside=inside,
                args=list(draw(TABLE[name][0] if inside else TABLE[name][1])))


def check_domain(c):
    f = TABLE[c["name"]][2]
    np.random.seed(1)
    if c["inside"]:
        sut(f, *c["args"])
        return c["name"] + " (in)"
    require(refused(f, *c["args"]), "accepted out of its domain: " + c["name"])
    return c["name"] + " (out)"


@st.composite
def warning_cases(draw):
    name = draw(st.sampled_from(("fmpar", "fmhyp", "fmpower")))
    n = draw(G.lengths(1, 60, 500))
    t1 = draw(st.integers(1, max(2, n)))
    t2 = draw(st.integers(1, max(2, n)).filter(lambda v: v != t1))
    return dict(name=name, n=n, t1=t1, t2=t2,
                v=[draw(st.one_of(G.reals(0.01, 0.49), G.reals(0.01, 0.49), G.reals(-0.3, 0.8)))
                   for _ in range(3)], k=draw(st.sampled_from((0.5, 2, 0.3, 1.5, 3))))


def check_warning(c):
    n = c["n"]
    v = c["v"]
    if c["name"] == "fmpar":
        a2 = 2 * (v[2] - 2 * v[1] + v[0]) / float(n) ** 2
        a1 = (v[2] - v[0]) / n - a2 * n
        args = (n, (v[0], a1, a2))
    elif c["name"] == "fmhyp":
        args = (n, (c["t1"], v[0]), (c["t2"], v[1]))
    else:
        args = (n, c["k"], (c["t1"], v[0], c["t2"], v[1]))
    (y, law), caught = warns(getattr(T, c["name"]), *args)
    lo, hi = float(np.min(law)), float(np.max(law))
    if min(abs(lo), abs(lo - 0.5), abs(hi), abs(hi - 0.5)) < 1e-9:
        return False
    bad = lo < 0 or hi > 0.5
    require(bool(caught) == bad, c["name"] + (": no warning for an aliased law" if bad else
                                              ": warning for a law inside [0, 0.5]"),
            low=lo, high=hi)
    return "aliased" if bad else "inside"


@st.composite
def touching_cases(draw):
    """Laws made of exact binary fractions, that touch 0 or 0.5 or miss them
    by a little."""
    name = draw(st.sampled_from(("fmpar", "fmhyp", "fmpower")))
    off = draw(st.sampled_from((0.0, 0.0, 2.0 ** -40, -2.0 ** -40, 2.0 ** -20, -2.0 ** -20)))
    return dict(name=name, n=draw(st.sampled_from((1, 2, 8, 33, 64))), off=off,
                low=draw(st.booleans()), flat=draw(st.booleans()),
                k=draw(st.sampled_from((2, 0.5, 3))))


def check_touching(c):
    n, low = c["n"], c["low"]
    edge = (0.0 if low else 0.5) + c["off"]
    slope = 0.0 if c["flat"] else (0.25 if low else -0.25)     # inwards, from t = 1 (or 0)
    if c["name"] == "fmpar":
        args = (n, (edge, slope / 64, 0.0))
    elif c["name"] == "fmhyp":
        # f(1) = edge, f(2) = edge + slope / 2: f0 = edge + slope, c = -slope
        args = (n, (1, edge), (2, edge + slope / 2))
    else:
        args = (n, c["k"], (edge + slope, -slope))
    (y, law), caught = warns(getattr(T, c["name"]), *args)
    bad = edge < 0 or edge > 0.5
    require(bool(caught) == bad, c["name"] + (": no warning for an aliased law" if bad else
                                              ": warning for a law inside [0, 0.5]"), edge=edge)
    return "touching" if c["off"] == 0 else "near"


C04 = [Law("touching", touching_cases(), check_touching, 200),
       Law("domains", domain_cases(), check_domain, 6000),
       Law("aliasing_warning", warning_cases(), check_warning, 4000)]
