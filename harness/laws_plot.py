"""C31: plots show the computed representation, at its times and frequencies."""

import contextlib

import numpy as np
from hypothesis import strategies as st

import gens as G
from core import Law, close, require, sut

import matplotlib.pyplot as plt
from matplotlib.axes import Axes
import mpl_toolkits.axes_grid1  # noqa: F401
from mpl_toolkits.mplot3d import Axes3D
import tftb.processing as P
from tftb.processing import cohen

CLASSES = {
    "stft": P.ShortTimeFourierTransform, "spectrogram": P.Spectrogram,
    "wvd": P.WignerVilleDistribution, "pwvd": P.PseudoWignerVilleDistribution,
    "mh": P.MargenauHillDistribution, "pmh": cohen.PseudoMargenauHillDistribution,
    "page": cohen.PageRepresentation, "ppage": cohen.PseudoPageRepresentation,
    "scalogram": P.Scalogram, "bertrand": P.BertrandDistribution,
    "unterberger": P.UnterbergerDistribution, "dflandrin": P.DFlandrinDistribution,
}
AFFINE = ("scalogram", "bertrand", "unterberger", "dflandrin")
HALF = ("stft", "spectrogram", "mh", "pmh", "page", "ppage")     # only half the rows are shown
LABELLED = ("stft", "wvd", "pwvd", "pmh", "ppage")               # free time labels
SQMOD = {"stft": True, "wvd": False, "pwvd": False, "mh": True, "pmh": True, "page": True,
         "ppage": True}


@contextlib.contextmanager
def recorded():
    """Records what is handed to the drawing functions without arrays of their own."""
    seen = []
    saved = [(Axes, "contour"), (Axes3D, "plot_surface"), (Axes3D, "plot_wireframe")]
    saved = [(k, n, getattr(k, n)) for k, n in saved]

    def wrap(name, real):
        def f(self, *args, **kw):
            arrays = [np.array(a) for a in args[:3]]
            levels = args[3] if len(args) > 3 else kw.get("levels")
            seen.append((name, self, arrays, levels))
            return real(self, *args, **kw)
        return f
    shows = []
    show = plt.show
    try:
        for k, n, f in saved:
            setattr(k, n, wrap(n, f))
        plt.show = lambda *a, **kw: shows.append(1)
        yield seen, shows
    finally:
        for k, n, f in saved:
            setattr(k, n, f)
        plt.show = show


def thresholded(data, threshold):
    """What is shown, and where the threshold is decided by rounding."""
    level = threshold * np.max(data)
    return np.where(data <= level, 0.0, data), np.abs(data - level) <= 1e-9 * np.max(np.abs(data))


def compare(shown, expected, tie, what):
    shown = np.ma.filled(np.ma.asarray(shown), np.nan)
    require(shown.shape == expected.shape, what + ": shape of what is shown", got=shown.shape,
            expected=expected.shape)
    close(np.where(tie, 0, shown), np.where(tie, 0, expected), what, 1e-9,
          scale=float(np.max(np.abs(expected))) + 1e-300)


@st.composite
def plot_cases(draw):
    cls = draw(st.sampled_from(sorted(CLASSES)))
    affine = cls in AFFINE
    n = draw(st.one_of(st.integers(18 if affine else 8, 40), st.integers(18 if affine else 8, 40),
                       st.integers(41, 150)))
    c = dict(cls=cls, n=n, sig=draw(G.signals(
        n=n, kinds=("noise", "chirp", "atom", "two_tones", "decay"), columns=False,
        layouts=("C",), amps=(1.0, 1e-3, 50.0), dtypes=("complex128", "float64"))),
        kind=draw(st.sampled_from((None, "cmap", "cmap", "contour", "contour", "surf", "wireframe"))),
        tf=draw(st.sampled_from((None, False, True))), ax=draw(st.booleans()),
        threshold=draw(st.one_of(st.none(), st.sampled_from((0.0, 0.01, 0.2, 0.5)))),
        annotate=draw(st.sampled_from((None, None, True, False))),
        show=draw(st.sampled_from((None, True, False))))
    if affine:
        c["bins"] = draw(st.integers(4, 20))
        c["form"] = draw(st.sampled_from("AP"))
        c["ts"] = draw(st.sampled_from((None, None, "subset", "down")))
    else:
        c["bins"] = draw(st.one_of(st.none(), st.integers(0, 12)))
        if cls not in ("mh", "page") and draw(st.integers(0, 2)) == 2:
            c["bins"] = draw(st.integers(5, n)) - n              # fewer bins than samples
        c["ts"] = draw(st.sampled_from((None, None, "shifted", "seconds", "subset")))
        if cls != "spectrogram":
            c["sqmod"] = draw(st.sampled_from((None, None, True, False)))
        if cls in ("wvd", "pwvd"):
            c["log"] = draw(st.booleans())
    c["levels"] = draw(st.sampled_from((None, None, None, 5)))
    c["cmap"] = draw(st.sampled_from((None, None, "viridis")))
    c["extent"] = draw(st.integers(0, 4)) == 4
    return c


def build(c):
    x = G.expand(c["sig"])
    n = c["n"]
    kw = {}
    if c["cls"] in AFFINE:
        kw.update(fmin=0.1, fmax=0.4, n_voices=c["bins"])
        if c["cls"] == "unterberger":
            kw["form"] = c["form"]
        if c["ts"]:
            t = np.arange(2, n, 2)
            kw["timestamps"] = t if c["ts"] == "subset" else t[::-1].copy()
    else:
        if c["bins"] is not None:
            kw["n_fbins"] = n + c["bins"]
        if c["ts"] in ("shifted", "seconds") and c["cls"] in LABELLED:
            kw["timestamps"] = np.arange(n) + 30 if c["ts"] == "shifted" else np.arange(n) / 8.0
        elif c["ts"] == "subset" and c["cls"] in ("spectrogram", "mh", "page"):
            kw["timestamps"] = np.arange(2, n, 2)
    return x, sut(CLASSES[c["cls"]], x, **kw)


def check_plot(c):
    cls = c["cls"]
    x, obj = build(c)
    out = sut(obj.run)
    tfr, ts, freqs = [np.array(a) for a in out[:3]]
    data, f = np.real(tfr) if cls != "stft" else tfr, freqs
    if cls in HALF:
        rows = tfr.shape[0] // 2
        data, f = data[:rows], np.abs(freqs[:rows])
    sq = SQMOD.get(cls) if c.get("sqmod") is None else c.get("sqmod")
    if cls in SQMOD:
        if sq:
            data = np.abs(data) ** 2
        elif cls in ("stft", "wvd", "pwvd"):
            data = np.abs(data)
    if np.max(data) <= 0 or data.shape[0] < 2 or data.shape[1] < 2:
        return False
    default = 0.0 if cls == "spectrogram" else 0.05
    shown, tie = thresholded(data, default if c["threshold"] is None else c["threshold"])
    kind = c["kind"] or ("contour" if cls in AFFINE or cls == "pwvd" else "cmap")
    tf = c["tf"] if c["tf"] is not None else cls in AFFINE
    if tf and kind not in ("cmap", "contour"):
        kind = "cmap"
        if c["kind"] is not None:
            c = dict(c, kind="cmap")
    kw = {}
    for a, b in (("kind", "kind"), ("tf", "show_tf"), ("threshold", "threshold"),
                 ("annotate", "default_annotation"), ("show", "show"), ("sqmod", "sqmod")):
        if c.get(a) is not None:
            kw[b] = c[a]
    if c.get("log"):
        kw["scale"] = "log"
        if not (np.max(tfr) > 0):
            return False
        if c["threshold"] == 0.0:
            return False
    levels = None
    if c["levels"] and kind == "contour" and not c.get("log"):
        levels = np.linspace(0.1, 0.9, c["levels"]) * np.max(data)
        kw["levels"] = levels
    if not tf and kind in ("cmap", "contour") and kw.get("show_tf") is None and cls in AFFINE:
        kw["show_tf"] = False
    if c.get("cmap") and kind == "cmap":
        kw["cmap"] = plt.get_cmap(c["cmap"])
    extent = None
    if c.get("extent") and kind == "cmap" and cls not in ("mh", "page", "pmh", "ppage"):
        extent = kw["extent"] = [-3.0, 7.5, 0.25, 2.0]
    plt.close("all")
    if c.get("log") and kind in ("surf", "wireframe", "cmap"):
        kw.pop("scale")
    mine = other = None
    if c["ax"] and not tf and kind in ("cmap", "contour"):
        fig, (mine, other) = plt.subplots(1, 2)
        kw["ax"] = mine
    try:
        with recorded() as (seen, shows):
            sut(obj.plot, **kw)
        require(len(shows) == (0 if c["show"] is False else 1), "show", calls=len(shows))
        figs = [plt.figure(k) for k in plt.get_fignums()]
        axes = [a for g in figs for a in g.axes]
        if mine is not None:
            require(len(figs) == 1, "a figure is made although axes were given")
            require(not other.has_data(), "other axes are drawn on")
        require(all(g.axes for g in figs), "an empty figure is shown", figures=len(figs))
        bin_ = float(np.max(np.abs(np.diff(f))))
        if kind == "cmap":
            withim = [a for a in axes if a.images]
            require(len(withim) == 1 and len(withim[0].images) == 1, "one image is shown",
                    got=len(withim))
            main = withim[0]
            im = main.images[0]
            compare(im.get_array(), shown, tie, "image of the representation")
            require(im.origin == "lower", "the image is upside down")
            ext = np.array(im.get_extent(), dtype=float)
            if "cmap" in kw:
                require(im.get_cmap().name == c["cmap"], "colours of the image",
                        got=im.get_cmap().name)
            if extent is not None:
                close(ext, extent, "extent of the image", 1e-12)
            else:
                close(ext[:2], [ts.min(), ts.max()], "times of the image", 1e-9)
            require(extent is not None or bool(np.all(np.abs(ext[2:] - [f.min(), f.max()]) <= 1.6 * bin_)),
                    "frequencies of the image", got=ext[2:], expected=(f.min(), f.max()))
        else:
            name = {"contour": "contour", "surf": "plot_surface", "wireframe": "plot_wireframe"}[kind]
            calls = [s for s in seen if s[0] == name]
            require(len(calls) == 1, "one %s plot is drawn" % kind, got=[s[0] for s in seen])
            main, (X, Y, Z), lev = calls[0][1:]
            require(main in axes, "the plot is on axes which are not shown")
            compare(Z, np.abs(shown) if kind != "contour" else shown, tie, "%s of the representation" % kind)
            if X.ndim == 2:
                X, Y = X[0], Y[:, 0]
            close(X, ts, "times of the plot", 1e-9, scale=max(1.0, float(np.max(np.abs(ts)))))
            if cls in AFFINE:
                close(Y, f, "frequencies of the plot", 1e-9)
            else:
                require(Y.shape == f.shape and bool(np.all(np.abs(Y - f) <= 1.6 * bin_)) and
                        bool(np.all(np.diff(Y) > 0)), "frequencies of the plot", got=Y, expected=f)
            if levels is not None:
                close(lev, levels, "levels of the contours", 1e-9)
            if kind == "contour" and kw.get("scale") == "log":
                top = float(np.max(tfr))
                low = max(float(np.min(tfr)), top * (default if c["threshold"] is None else
                                                     c["threshold"]))
                require(lev is not None and len(lev) > 1, "logarithmic levels are missing")
                close(lev, np.exp(np.linspace(np.log(low), np.log(top), len(lev))),
                      "logarithmic levels", 1e-7)
        if mine is not None:
            require(main is mine, "the plot is not on the axes given")
        if c["annotate"] is False:
            require(main.get_xlabel() == "" and main.get_title() == "", "annotations are drawn")
        else:
            require(main.get_xlabel() == "Time" and main.get_ylabel() == "Normalized Frequency" and
                    main.get_title() == obj.name.upper(), "annotations",
                    got=(main.get_xlabel(), main.get_ylabel(), main.get_title()))
        if tf:
            panels = [a for a in axes if a is not main]
            require(len(panels) == 2, "signal and spectrum are shown", got=len(panels))
            lines = [np.array(a.lines[0].get_data(), dtype=float) for a in panels if len(a.lines) == 1]
            require(len(lines) == 2, "one line in each panel")
            close(lines[0][1], np.real(x), "signal beside the plot", 1e-9)
            z = np.asarray(x, dtype=complex)
            if cls in AFFINE and cls != "scalogram":
                z = z[ts.min():ts.max() + 1]            # the part which is analysed
                m = tfr.shape[0]
                fy = 0.5 * np.arange(m) / m
                e = np.abs(np.exp(-2j * np.pi * np.outer(fy, np.arange(len(z)))) @ z) ** 2
                close(lines[1][0], e, "spectrum beside the plot", 1e-7)
                close(lines[1][1], fy, "frequencies of the spectrum", 1e-9)
            else:
                k = len(z) // 2
                fy = (len(z) - 1 - np.arange(k) - len(z) // 2) / float(len(z))
                e = np.abs(np.exp(-2j * np.pi * np.outer(fy, np.arange(len(z)))) @ z) ** 2
                close(lines[1][0], e, "spectrum beside the plot", 1e-7)
                close(lines[1][1], np.arange(k), "bins of the spectrum", 1e-9)
                if c["annotate"] is not False:
                    require(panels[1].yaxis_inverted(), "the spectrum is upside down")
    finally:
        plt.close("all")
    return "%s%s" % (kind, " with signal" if tf else "")


# -- frequency laws --------------------------------------------------------------

@st.composite
def law_cases(draw):
    n = draw(st.integers(3, 40))
    return dict(n=n, laws=draw(st.integers(1, 3)), seed=draw(G.SEEDS), nan=draw(st.booleans()),
                negative=draw(st.booleans()), zero=draw(st.booleans()), signal=draw(st.booleans()), start=draw(st.integers(0, 9)))


def check_plotifl(c):
    rs = np.random.RandomState(c["seed"])
    n = c["n"]
    laws = 0.5 * rs.rand(n, c["laws"])
    if c["negative"]:
        laws[rs.randint(n), 0] = -0.2
    if c["zero"]:
        laws[rs.randint(n), 0] = 0.0
    if c["nan"]:
        laws[rs.randint(n), -1] = np.nan
    if c["laws"] == 1 and rs.rand() < 0.5:
        laws = laws[:, 0]
    t = np.arange(n) + c["start"]
    x = np.exp(2j * np.pi * rs.rand(n))
    keep = laws.copy()
    plt.close("all")
    try:
        with recorded() as (_, shows):
            sut(P.plotifl, t, laws, **(dict(signal=x) if c["signal"] else {}))
        require(np.array_equal(laws, keep, equal_nan=True), "plotifl changes the laws")
        require(len(plt.get_fignums()) == 1, "one figure is made")
        axes = plt.figure(plt.get_fignums()[0]).axes
        require(len(axes) == (2 if c["signal"] else 1), "panels", got=len(axes))
        if c["signal"]:
            require(len(axes[0].lines) == 1, "one line for the signal")
            close(axes[0].lines[0].get_xdata(), t, "times of the signal", 1e-12)
            close(axes[0].lines[0].get_ydata(), np.real(x), "signal", 1e-12)
            close(axes[0].get_xlim(), (t[0], t[-1]), "time limits of the signal", 1e-12)
        main = axes[-1]
        cols = keep.reshape(n, -1)
        require(len(main.lines) == cols.shape[1], "one line per law", got=len(main.lines))
        for k, ln in enumerate(main.lines):
            close(ln.get_xdata(), t, "times of the law", 1e-12)
            y = np.asarray(ln.get_ydata(), dtype=float)
            require(np.array_equal(y, cols[:, k], equal_nan=True), "law")
        close(main.get_xlim(), (t[0], t[-1]), "time limits", 1e-12)
        low = -0.5 if np.nanmin(keep) < 0 else 0.0
        close(main.get_ylim(), (low, 0.5), "frequency limits", 1e-12)
    finally:
        plt.close("all")
    return True


C31 = [Law("shown", plot_cases(), check_plot, 600),
       Law("frequency_laws", law_cases(), check_plotifl, 150)]
