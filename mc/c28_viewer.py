"""C28: what the viewers return and draw is what the calculation functions give for the current selection, after every history of user actions."""
import itertools, math, warnings
import numpy as np
from mc import ref
from mc.c14_select import plane, ring, in_sector

PID = "C28"
IMPORTS = ("cddm.viewer", "cddm.core", "cddm.multitau", "cddm.norm", "cddm.map")
RULE = ("state = (viewer, data, selection, widgets, drawn line); transition = one user action (method call, slider, button, check box); "
        "trace = one history; after every action the returned data, the drawn line, the marked wave vectors, mean k and the settings are compared "
        "with a model that normalizes the data with the calculation functions and selects the wave vectors in a loop")
BLOCK = 1
STALL_S = 300
VIEWERS = ("DataViewer", "CorrViewer", "MultitauViewer")
ARRAYS = ("DataArrayViewer", "CorrArrayViewer", "MultitauArrayViewer")


def bounds(tier):
    q = tier == "quick"
    return ("half planes up to 6x4, image shapes with equal and different sides, all norms of all methods, scale, size, fold, real and complex data, unmasked / partly computed / compressed data; "
            "all sequences of up to %d user actions from a new viewer and all windows of %d actions of an open figure; all frames and button sequences of videos of up to %d frames; streaming calculations with a viewer") % (2 if q else 3, 3 if q else 4, 5 if q else 7)


def cases(tier):
    q = tier == "quick"
    out = []
    for v in VIEWERS:
        for h, w in ((1, 3), (3, 3), (5, 3), (6, 4), (4, 1)) if q else itertools.product((1, 3, 4, 5, 6, 7), (1, 2, 3, 4, 5)):
            out.append(("select", v, h, w))
    for v in VIEWERS[1:] + ARRAYS[1:]:
        for m in ("corr", "fft", "diff"):
            for cross in (True, False):
                out.append(("norms", v, m, cross))
    for v in VIEWERS:
        for md in ("none", "partial", "masked"):
            nops = len(OPS[v])
            for a in range(nops):
                out.append(("fresh", v, md, a, 2 if q else 3))
            for seed in range(nops):
                out.append(("window", v, md, seed, 3 if q else 4))
    for v in ARRAYS:
        for a in range(len(OPS[v])):
            out.append(("fresh", v, "none", a, 2 if q else 3))
            out.append(("window", v, "none", a, 3 if q else 4))
    for v in ARRAYS:
        out.append(("axes", v))
    for kind in ("list", "array", "iter"):
        for n in range(1, 6 if q else 8):
            out.append(("video", kind, n, 3 if q else 4))
    for fn in ("ccorr", "acorr", "ccorr_multi", "acorr_multi"):
        out.append(("stream", fn))
    return out


# ------------------------------------------------------------------ environment
PAUSES = [0, None]


def env_init():
    import matplotlib
    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt
    from matplotlib.backends.backend_agg import FigureCanvasAgg

    def pause(interval):
        PAUSES[0] += 1
        if PAUSES[0] > 1000:
            raise Hang("endless animation")
        if PAUSES[1] is not None:
            PAUSES[1](PAUSES[0])
    plt.pause = pause
    # painting of pixels is matplotlib's part: canvases only count how often they were asked to draw
    FigureCanvasAgg.draw = lambda self: None
    FigureCanvasAgg.draw_idle = lambda self, *a, **k: None
    warnings.filterwarnings("ignore", message="FigureCanvasAgg is non-interactive")
    warnings.filterwarnings("ignore", category=RuntimeWarning)


class Hang(Exception):
    pass


def click(widget, index=0):
    """a mouse click on a button of the figure"""
    from matplotlib.backend_bases import MouseEvent
    canvas = widget.ax.figure.canvas
    xy = widget.ax.transAxes.transform((0.5, 0.5))
    for name in ("button_press_event", "button_release_event"):
        canvas.callbacks.process(name, MouseEvent(name, canvas, xy[0], xy[1], 1))


# ------------------------------------------------------------------ model of the selection
def half_selection(h, w, shape, sel, computed=None):
    """contributions of the stored half plane: list of (i, j, conjugated, k) and the marked full plane; None when decided by rounding"""
    k0, angle, sector, kstep = sel
    fw = 2 * w - 1 if shape is None or shape[1] >= 2 * w - 1 else shape[1]
    k, a = plane(h, fw, shape)
    mark = np.zeros((h, fw), bool)
    for i in range(h):
        for j in range(fw):
            if i == 0 and j == 0:
                mark[i, j] = int(k0) == 0
                continue
            s = in_sector(a[i, j], angle, sector)
            r = ring(k[i, j], kstep)
            if s is None or r[0] != r[1]:
                return None
            mark[i, j] = s and r[0] == int(k0)
    pts = []
    for i in range(h):
        for j in range(w):
            if computed is not None and not computed[i, j]:
                continue
            anti = j > 0 and mark[-i % h, -j % fw]
            if mark[i, j] or anti:
                pts.append((i, j, anti))
    if computed is not None:
        for i in range(h):
            for j in range(fw):
                # the half that is not stored is there when its conjugate is
                c = computed[i, j] if j < w else computed[-i % h, -j % fw]
                mark[i, j] &= bool(c)
    return pts, mark, k, fw


def repr_of(y, mode):
    return {"real": np.real, "imag": np.imag, "abs": np.abs, "phase": np.angle}[mode](y)


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol * 10, equal_nan=True))


def same_phase(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.array_equal(np.isnan(a), np.isnan(b)):
        return False
    return bool(np.all(np.isnan(a) | (np.abs(np.exp(1j * a) - np.exp(1j * b)) < 1e-8)))


# ------------------------------------------------------------------ data
NF = 12
_DATA = {}


def spectra(h, w, salt):
    """spectra with the symmetry that transforms of real images have in the first column"""
    return ref.gdata((NF, h, w), salt, True) + np.arange(NF)[:, None, None]


def source(kind, h, w, salt=1, method="corr", cross=True, cplx=False, norm=None, mask=None):
    key = (kind, h, w, salt, method, cross, cplx, norm, None if mask is None else mask.tobytes())
    if key in _DATA:
        return _DATA[key]
    import cddm.core as core, cddm.multitau as mt
    f1, f2 = spectra(h, w, salt), spectra(h, w, salt + 50)
    if mask is not None:
        f1, f2 = f1[:, mask], f2[:, mask]
    kw = dict(method=method, norm=norm)
    if cross:
        if kind.startswith("Multi"):
            d = mt.ccorr_multi(f1, f2, level_size=6, complex=cplx, **kw)
        else:
            d = core.ccorr(f1, f2, n=None if method == "fft" else 10, complex=cplx, **kw)
        bg, var = core.stats(f1, f2)
    else:
        if kind.startswith("Multi"):
            d = mt.acorr_multi(f1, level_size=6, **kw)
        else:
            d = core.acorr(f1, n=None if method == "fft" else 10, **kw)
        bg, var = core.stats(f1)
    _DATA[key] = d, bg, var
    return _DATA[key]


def freeze(x):
    if isinstance(x, np.ndarray):
        x.flags.writeable = False
    elif isinstance(x, (tuple, list)):
        for y in x:
            freeze(y)
    return x


def processed(kind, d, bg, var, norm, scale, size, fold, semilogx):
    """(t, data of every stored wave vector), by the calculation functions"""
    import cddm.norm as nm, cddm.multitau as mt
    if kind.startswith("Data"):
        return np.arange(d.shape[-1]), d
    do = fold if fold is not None else (isinstance(bg, tuple) or isinstance(var, tuple))
    if kind.startswith("Multi"):
        y = mt.normalize_multi(d, bg, var, norm=norm, scale=scale)
        if np.iscomplexobj(y[0]) and do:
            y = nm.fold_data(y[0], 1), nm.fold_data(y[1], 1)
        if semilogx:
            return mt.log_merge(*y, fold=False)
        return np.arange(y[0].shape[-1]), y[0]
    y = nm.normalize(d, bg, var, norm=norm, scale=scale)
    if np.iscomplexobj(y) and do:
        y = nm.fold_data(y)
    if size is not None:
        return mt.log_average(y, size, fold=False)
    return np.arange(y.shape[-1]), y


def selected_mean(y, pts, mask):
    """mean over the selected wave vectors; y is (h, w, n) or compressed"""
    nothing = complex(np.nan, np.nan) if np.iscomplexobj(y) else np.nan
    if not pts:
        return np.full(y.shape[-1], nothing)
    index = None
    if mask is not None and y.ndim == 2:
        index = np.full(mask.shape, -1)
        index[mask] = np.arange(int(mask.sum()))
    vals = []
    for i, j, anti in pts:
        v = y[i, j] if index is None else y[index[i, j]]
        vals.append(np.conj(v) if anti else v)
    v = np.array(vals)
    ok = ~np.isnan(v)
    c = ok.sum(0)
    return np.where(c == 0, nothing, np.where(ok, v, 0).sum(0) / np.where(c == 0, 1, c))


def equal_repr(got, want, mode):
    return same_phase(got, want) if mode == "phase" else close(got, want)


# ------------------------------------------------------------------ models of the viewers
COMMON = [("set_mask", (0, 0., 31., 1)), ("set_mask", (1, 90., 61.7, 1)), ("set_mask", (2, -40., 123.4, 1.7)), ("set_data", 1), ("plot",),
          ("k", 2.4), ("k", 0), ("angle", 33.3), ("sector", 171.3), ("mode", 1), ("mode", 2)]
INDEX = [("set_indices", (1, 0)), ("set_indices", (2, 2)), ("set_data", 1), ("plot",), ("slider0", 2.), ("slider0", -1.), ("slider1", 1.6), ("slider1", 0), ("mode", 1), ("mode", 3)]
NORMS = [("set_norm", 1), ("set_norm", 3), ("check", 0), ("check", 1), ("check", 2), ("check", 3)]
OPS = {"DataViewer": COMMON, "CorrViewer": COMMON + NORMS, "MultitauViewer": COMMON + NORMS,
       "DataArrayViewer": INDEX, "CorrArrayViewer": INDEX + NORMS, "MultitauArrayViewer": INDEX + NORMS}
H, W = 5, 3
MODES = ("real", "imag", "abs", "phase")
MASK = np.array([[True, True, False], [True, False, True], [True, True, True], [False, True, True], [True, True, False]])


def raw_data(kind, i, md):
    mask = MASK if md == "masked" else None
    if kind.startswith("Data"):
        y = ref.gdata((H, W, 6), 5 + i, True, 1, 9)
        return (y if mask is None else y[mask]), None, None
    return source(kind, H, W, 1 + 7 * i, "corr", True, False, 7, mask)


class Model:
    """a viewer and what the user may expect of it"""

    def __init__(self, kind, md, rec, hist):
        import cddm.viewer as vw
        self.kind, self.md, self.rec, self.hist = kind, md, rec, hist
        self.array = "Array" in kind
        self.computed = None if md == "none" else MASK
        if self.array:
            self.v = getattr(vw, kind)(axes=(0, 1))
            self.sel = (0, 0)
        else:
            self.v = getattr(vw, kind)(shape=None, mask=None if self.computed is None else MASK.copy())
            self.sel = None
        self.mode, self.norm, self.line = "real", None, None
        self.fig = False
        self.widgets = self.boxes = None
        self.setdata(0)

    def setdata(self, i):
        self.idata = i
        self.d = raw_data(self.kind, i, self.md)
        if self.kind.startswith("Data"):
            self.v.set_data(self.d[0])
        else:
            self.v.set_data(*self.d)

    def expected(self):
        key = self.kind, self.md, self.idata, self.norm, self.sel
        if key not in _EXP:
            _EXP[key] = self._expected()
            self.rec.outcome(key, repr(_EXP[key]))
        return _EXP[key]

    def _expected(self):
        d, bg, var = self.d
        t, y = processed(self.kind, d, bg, var, self.norm, False, None, None, True)
        if self.array:
            return t, y[self.sel]
        if (self.sel, self.md) not in _SEL:
            _SEL[self.sel, self.md] = half_selection(H, W, None, self.sel, self.computed)
        s = _SEL[self.sel, self.md]
        assert s is not None, self.sel
        pts = s[0]
        return t, selected_mean(y, pts, self.computed if self.md == "masked" else None)

    def from_widgets(self):
        if self.array:
            self.sel = tuple(int(x) for x in self.widgets)
        else:
            self.sel = (int(round(self.widgets[0])), self.widgets[1], self.widgets[2], self.sel[3])

    def draw(self):
        if not self.fig:
            if self.sel is None:
                self.sel = (0, 0, 5, 1)
            if self.array:
                self.widgets = [0, 0]
            else:
                self.widgets = [self.sel[0], self.sel[1], self.sel[2]]
            self.fig = True
            if not self.kind.startswith("Data"):
                n = self.norm if self.norm is not None else 7
                self.norm = n
                self.boxes = [bool(n & 2), bool(n & 4), n & 3 == 3, n & 8 == 8]
        t, y = self.expected()
        self.line = t, repr_of(y, self.mode)

    def apply(self, op):
        """performs one user action; False when it is not possible now"""
        v, name = self.v, op[0]
        if name == "set_mask":
            ok = v.set_mask(*op[1])
            self.sel = op[1]
            pts = half_selection(H, W, None, self.sel, self.computed)[0]
            self.rec.check(bool(ok) == bool(pts), "set_mask:returned", lambda: "%s after %s" % (ok, self.hist))
        elif name == "set_indices":
            v.set_indices(*op[1])
            self.sel = op[1]
        elif name == "set_data":
            self.setdata(op[1])
        elif name == "set_norm":
            v.set_norm(op[1])
            self.norm = op[1]
        elif name == "plot":
            v.plot()
            self.draw()
        elif not self.fig:
            return False
        elif name == "mode":
            v.selectorindex.set_active(op[1])
            self.mode = MODES[op[1]]
            self.from_widgets()
            self.draw()
        elif name in ("k", "angle", "sector"):
            i = ("k", "angle", "sector").index(name)
            (v.kindex, v.angleindex, v.sectorindex)[i].set_val(op[1])
            self.widgets[i] = op[1]
            self.from_widgets()
            self.draw()
        elif name.startswith("slider"):
            i = int(name[-1])
            v.sliders[i].set_val(op[1])
            self.widgets[i] = op[1]
            self.from_widgets()
            self.draw()
        elif name == "check":
            v.check.set_active(op[1])
            b = list(self.boxes)
            b[op[1]] = not b[op[1]]
            f = (2 if b[0] else 1) | (4 if b[1] else 0) | (3 if b[2] else 0) | (8 if b[3] else 0)
            self.boxes, self.norm = b, f
            if not self.array:
                self.from_widgets()
            self.draw()
        return True

    def check(self):
        rec, v = self.rec, self.v
        label = lambda: "%s, %s data: %s" % (self.kind, self.md, self.hist)
        if self.sel is not None:
            got = rec.call("get_data", v.get_data)
            t, y = self.expected()
            ok = rec.check(close(got[0], t), "get_data:times", lambda: label())
            ok &= rec.check(equal_repr(got[1], repr_of(y, self.mode), self.mode), "get_data", lambda: "%s\ngot %s\nexpected %s" % (label(), got[1], repr_of(y, self.mode)))
            if not ok:
                return False
            if not self.array:
                if (self.sel, self.md) not in _SEL:
                    _SEL[self.sel, self.md] = half_selection(H, W, None, self.sel, self.computed)
                pts, mark, k, fw = _SEL[self.sel, self.md]
                if pts:
                    rec.same(rec.call("get_k", v.get_k), k[mark].mean(), "get_k", label())
        if self.line is not None:
            x, yy = line_of(v).get_data()
            if not rec.check(close(x, self.line[0]) and equal_repr(yy, self.line[1], self.mode if self.mode == "phase" else "real"), "line", lambda: "drawn line: %s\ngot %s\nexpected %s" % (label(), yy, self.line[1])):
                return False
        if self.norm is not None:
            rec.check(v.norm == self.norm, "norm", lambda: "norm %s expected %s: %s" % (v.norm, self.norm, label()))
        rec.check(v.mode == self.mode, "mode", label)
        return True

    def marked(self):
        """the picture of the plane marks exactly the selected wave vectors"""
        v, rec = self.v, self.rec
        pts, mark, k, fw = _SEL[self.sel, self.md]
        pic = np.ma.masked_invalid(image_of(v).get_array())
        # the selected ones are drawn with a value of their own, instead of the index of their ring
        if hasattr(v, "_max_graph_value"):
            top = pic == v._max_graph_value + 1
        elif mark.any():
            val = np.fft.ifftshift(pic)[mark][0]
            top = (pic == val) & (val != self.sel[0])
        else:
            return
        rec.check(np.array_equal(np.fft.ifftshift(np.ma.filled(top, False)), mark), "marked", lambda: "marked wave vectors: %s" % (self.hist,))


def line_of(v):
    """the drawn line"""
    if hasattr(v, "l"):
        return v.l
    return [l for ax in v.fig.axes for l in ax.lines if len(l.get_xdata()) > 2][0]


def image_of(v):
    if hasattr(v, "im"):
        return v.im
    return [im for ax in v.fig.axes for im in ax.images][0]


_SEL, _EXP = {}, {}


def debruijn(k, n):
    """cyclic sequence that has every word of length n once"""
    a, seq = [0] * (k * n), []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq


class Short:
    """shows the end of a long history"""

    def __init__(self):
        self.ops = []

    def __repr__(self):
        return "%d actions, last: %s" % (len(self.ops), self.ops[-8:])


def verbosity_guard(rec):
    import cddm.print_tools as pt
    rec.check(pt.CDDMConfig.verbose == 1 if hasattr(pt, "CDDMConfig") else True, "verbosity", "verbosity level changed")


def run_hist(kind, md, ops, rec):
    import matplotlib.pyplot as plt
    hist = Short()
    PAUSES[0] = 0
    try:
        m = Model(kind, md, rec, hist)
        for op in ops:
            hist.ops.append(op)
            PAUSES[0] = 0
            if op[0] == "check":
                # combinations of check boxes with an unsupported norm are left out (all norms of this data are supported)
                pass
            if not m.apply(op):
                hist.ops.pop()
                continue
            rec.step()
            rec.state(kind, md, m.sel, m.mode, m.norm, m.fig, op)
            if not m.check():
                return False
            if op[0] == "plot" and not m.array:
                m.marked()
        rec.trace()
        return True
    finally:
        plt.close("all")


def run(case, rec):
    env_init()
    import cddm.viewer as vw, cddm.norm as nm
    kind = case[0]
    if kind == "fresh":
        _, v, md, first, depth = case
        ops = OPS[v]
        for n in range(depth):
            for rest in itertools.product(range(len(ops)), repeat=n):
                # complete histories of n+1 actions; a plot in front when none is there
                seq = [ops[i] for i in (first,) + rest]
                if not run_hist(v, md, seq, rec):
                    return
                if n < depth - 1 or depth < 3:
                    if not run_hist(v, md, [("plot",)] + seq, rec):
                        return
    elif kind == "window":
        _, v, md, part, depth = case
        ops = OPS[v]
        seq = debruijn(len(ops), depth)
        nparts = len(ops)
        size = -(-len(seq) // nparts)
        seq = (seq + seq[:depth])[part * size:(part + 1) * size + depth]
        run_hist(v, md, [("plot",)] + [ops[i] for i in seq], rec)
    elif kind == "select":
        select(rec, case, vw)
    elif kind == "norms":
        norms(rec, case, vw)
    elif kind == "axes":
        axes(rec, case, vw)
    elif kind == "video":
        video(rec, case, vw)
    elif kind == "stream":
        stream(rec, case, vw)


def select(rec, case, vw):
    _, kind, h, w = case
    mask = np.array([[(i * 3 + j * 2) % 5 != 1 for j in range(w)] for i in range(h)])
    for shape in (None, (h, 2 * w - 1), (h, 2 * w - 2) if w > 1 else (2 * h, w), (12, 20), (20, 12)):
        if h == 2:
            continue
        for md in ("none", "partial", "masked"):
            m = None if md == "none" else mask
            dm = mask if md == "masked" else None
            for conf in ((True, 1), (True, 3), (False, 1)) if kind != "DataViewer" else ((True, 0), (False, 0)):
                cross, norm = conf
                if kind == "DataViewer":
                    y = ref.gdata((h, w, 4), 3 + h, cross, 1, 9)
                    d = (y if dm is None else y[dm]), None, None
                else:
                    if norm == 3 and (shape is not None or md == "partial"):
                        continue
                    d = source(kind, h, w, 1, "corr", cross, False, norm, dm)
                freeze(d)
                v = getattr(vw, kind)(shape=shape, mask=m, **({} if kind == "DataViewer" else {"norm": norm}))
                if kind == "DataViewer":
                    t0 = np.arange(d[0].shape[-1]) * 3 + 1
                    v.set_data(d[0], t0)
                else:
                    v.set_data(*d)
                t, y = processed(kind, *d, norm, False, None, None, True)
                if kind == "DataViewer":
                    t = t0
                top = int(math.hypot(h, 2 * w) * 2)
                for k, angle, sector, kstep in itertools.product(range(0, min(top, 7)), (0, 30.5, -90, 90, 171, -135.5), (5, 61.7, 123.4, 180), (1, 1.7)):
                    s = half_selection(h, w, shape, (k, angle, sector, kstep), m)
                    if s is None:
                        continue
                    pts, mark, kk, fw = s
                    amb = any(anti and mark[i, j] for i, j, anti in pts)
                    rec.step()
                    rec.state("select", kind, h, w, shape, md, conf, k, angle, sector, kstep)
                    label = lambda: "%s %s shape %s %s data, k=%s angle=%s sector=%s kstep=%s" % (kind, (h, w), shape, md, k, angle, sector, kstep)
                    ok = rec.call("set_mask", v.set_mask, k, angle, sector, kstep)
                    nyq = fw % 2 == 0 and any(j == fw // 2 for i, j, anti in pts)   # coefficients that are their own conjugates
                    rec.check(nyq or bool(ok) == bool(pts), "set_mask:returned", lambda: "%s: %s" % (ok, label()))
                    if not pts:
                        continue
                    got = rec.call("get_data", v.get_data)
                    want = selected_mean(y, pts, dm)
                    if not rec.check(close(got[0], t), "select:times", label):
                        return
                    # the two halves of an even Nyquist column are conjugates of each other only when the data is
                    if not amb and not rec.check(close(got[1], np.real(want)), "select:data", lambda: "%s\ngot %s\nexpected %s" % (label(), got[1], np.real(want))):
                        return
                    if not rec.check(nyq or abs(rec.call("get_k", v.get_k) - kk[mark].mean()) < 1e-9, "select:k", label):
                        return
                    if (k, kstep) == (2, 1):
                        for mode in ("imag", "abs", "phase"):
                            v.mode = mode
                            g = v.get_data()[1]
                            rec.check(amb or equal_repr(g, repr_of(want, mode), mode), "select:" + mode, label)
                        v.mode = "real"
                rec.trace()


def norms(rec, case, vw):
    _, kind, method, cross = case
    import cddm.norm as nm
    arr = "Array" in kind
    base = "MultitauViewer" if kind.startswith("Multi") else "CorrViewer"
    supported = (1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15) if method != "diff" else (2, 6)
    for cplx in (False, True):
        if cplx and (not cross or method == "diff"):
            continue
        for dn in ((7, 3, 1) if method == "corr" else (7, 1) if method == "fft" else (6, 2)):
            if not cross and dn == 6:
                continue
            try:
                d = source(base, H, W, 3, method, cross, cplx, dn)
            except ValueError:
                continue            # not a norm of this method
            freeze(d)
            for norm, scale, size, fold, semilogx, give in itertools.product((None,) + supported, (False, True), (None, 3), (None, True, False), (True, False), ("both", "none")):
                if size is not None and kind.startswith("Multi"):
                    continue
                if fold is not None and not cplx:
                    continue
                bg, var = (d[1], d[2]) if give == "both" else (None, None)
                kw = dict(norm=norm, scale=scale, fold=fold, semilogx=semilogx)
                if not kind.startswith("Multi") and size is not None:
                    kw["size"] = size
                rec.step()
                rec.state("norms", kind, method, cross, cplx, dn, norm, scale, size, fold, semilogx, give)
                label = lambda: "%s %s of norm %s data: %s %s complex=%s" % (kind, method, dn, kw, give, cplx)
                try:
                    t, y = processed(base, d[0], bg, var, norm, scale, size, fold, semilogx)
                    err = cplx and fold is None and give == "none"
                except ValueError:
                    err = True
                if arr:
                    v = getattr(vw, kind)(axes=(0, 1), **kw)
                    v.set_data(d[0], bg, var)
                    v.set_indices(2, 1)
                    pts = [(2, 1, False)]
                else:
                    v = getattr(vw, kind)(**kw)
                    v.set_data(d[0], bg, var)
                    v.set_mask(1, 30, 123.4)
                    pts = half_selection(H, W, None, (1, 30, 123.4, 1))[0]
                if err:
                    rec.raises("norms:error", ValueError, v.get_data)
                    continue
                got = rec.call("norms:get_data", v.get_data)
                want = np.real(selected_mean(y, pts, None))
                rec.check(close(got[0], t), "norms:times", label)
                rec.check(close(got[1], want), "norms:data", lambda: "%s\ngot %s\nexpected %s" % (label(), got[1], want))
                rec.trace()
            # invalid norms are refused and leave the setting
            v = getattr(vw, kind)(**({"axes": (0, 1)} if arr else {}))
            v.set_data(*d)
            for n in supported if hasattr(nm, "_default_norm_from_data") else ():
                try:
                    want = nm._default_norm_from_data(d[0][0] if kind.startswith("Multi") else d[0], method if method == "diff" else "corr", n)
                except ValueError:
                    keep = v.norm
                    rec.raises("set_norm", ValueError, v.set_norm, n)
                    rec.check(v.norm == keep, "set_norm:kept", "refused norm %s changed the norm" % n)
                    continue
                v.set_norm(n)
                rec.check(v.norm == want, "set_norm", "%s" % n)


def axes(rec, case, vw):
    """one or more axes anywhere in the data"""
    _, kind = case
    for nd in (1, 2, 3):
        for k in range(nd + 1):
            for ax in itertools.combinations(range(nd), k):
                if kind == "DataArrayViewer":
                    d = ref.gdata((3, 4, 2)[:nd] + (5,), 3, True, 1, 9)
                    v = vw.DataArrayViewer(axes=ax)
                    v.set_data(d)
                    for idx in itertools.product(*(range(-(3, 4, 2)[a], (3, 4, 2)[a]) for a in ax)):
                        rec.step()
                        rec.state("axes", kind, nd, ax, idx)
                        v.set_indices(*idx)
                        t, y = rec.call("axes", v.get_data)
                        want = d
                        for a, i in sorted(zip(ax, idx), reverse=True):
                            want = np.take(want, i, axis=a)
                        want = want.reshape(-1, 5).mean(0)
                        rec.check(close(t, np.arange(5)) and close(y, want.real), "axes:data", lambda: "axes %s indices %s" % (ax, idx))
                        rec.trace()
                elif nd == 2:
                    d = source("CorrViewer" if kind.startswith("Corr") else "MultitauViewer", H, W, 3, "corr", True, False, 3)
                    v = getattr(vw, kind)(axes=ax)
                    v.set_data(*d)
                    t, y = processed(kind, *d, None, False, None, None, True)
                    for idx in itertools.product(*(range(-(H, W)[a], (H, W)[a]) for a in ax)):
                        rec.step()
                        rec.state("axes", kind, nd, ax, idx)
                        v.set_indices(*idx)
                        got = rec.call("axes", v.get_data)
                        want = y
                        for a, i in sorted(zip(ax, idx), reverse=True):
                            want = np.take(want, i, axis=a)
                        want = want.reshape(-1, len(t)).mean(0)
                        rec.check(close(got[0], t) and close(got[1], want.real), "axes:data", lambda: "axes %s indices %s" % (ax, idx))
                        rec.trace()
    v = vw.DataArrayViewer(axes=(0,))
    rec.raises("axes:time", ValueError, v.set_data, ref.gdata((3, 5), 1), np.arange(4))
    rec.raises("axes:nodata", ValueError, vw.DataArrayViewer(axes=(0,)).get_data)


def video(rec, case, vw):
    import matplotlib.pyplot as plt
    _, kind, n, depth = case
    frames = [(ref.gdata((3, 4), 2 * i + 1, True, 0, 200), ref.gdata((3, 4), 2 * i + 2, True, 0, 200)) for i in range(n)]
    A = ["next", "prev", "next2", "prev2", "play", "stop", "fast"] + [("set", i) for i in range(n)]
    norm = lambda x: np.abs(x) + 1
    for cam in (0, 1):
        for fn in (None, norm):
            for ln in range(depth if (cam, fn is None) == (1, True) else 2):
                for seq in itertools.product(A, repeat=ln):
                    if kind == "list":
                        src, cnt = list(frames), None
                    elif kind == "array":
                        src, cnt = np.array([f[cam] for f in frames]), None
                    else:
                        src, cnt = iter(frames), n
                    v = vw.VideoViewer(src, cnt, id=cam, **({} if fn is None else {"norm_func": fn}))
                    try:
                        f = fn or (lambda x: x.real)
                        pos, top = 0, 0
                        hist = []
                        ok = shown(rec, v, f(frames[0][cam]), (kind, n, "new"))
                        for a in seq:
                            rec.step()
                            hist.append(a)
                            rec.state("video", kind, n, pos, top, a)
                            PAUSES[0], PAUSES[1] = 0, None
                            before = v.sframe.val
                            if a == "next":
                                click(v.bnext)
                                pos = min(pos + 1, n - 1)
                            elif a == "prev":
                                click(v.bprev)
                                pos = max(pos - 1, 0)
                            elif a == "next2":
                                click(v.bnext2)
                                rec.check(v.sframe.val >= before, "video:forward", "%s" % hist)
                                pos = int(v.sframe.val)
                            elif a == "prev2":
                                click(v.bprev2)
                                rec.check(v.sframe.val <= before, "video:back", "%s" % hist)
                                pos = int(v.sframe.val)
                            elif a == "stop":
                                click(v.bstop)
                            elif a in ("play", "fast"):
                                seen = []
                                PAUSES[1] = lambda i: (seen.append(int(v.sframe.val)), shown(rec, v, f(frames[max(int(v.sframe.val), top) if kind == "iter" else int(v.sframe.val)][cam]), (kind, n, hist)))
                                try:
                                    click(v.bplay if a == "play" else v.bfast)
                                except Hang:
                                    rec.fail("video:hang", "%s never ends: %s" % (a, hist))
                                    return
                                PAUSES[1] = None
                                rec.check(seen == list(range(pos, n)), "video:play", "frames shown %s from %d of %d" % (seen, pos, n))
                                rec.check(not v.playing, "video:playing", "%s" % hist)
                                pos = n - 1
                            else:
                                v.sframe.set_val(a[1])
                                pos = a[1]
                            top = max(top, pos)
                            if not rec.check(int(v.sframe.val) == pos, "video:position", lambda: "slider at %s expected %s after %s" % (v.sframe.val, pos, hist)):
                                return
                            if not shown(rec, v, f(frames[top if kind == "iter" else pos][cam]), (kind, n, hist)):
                                return
                        rec.trace()
                        # stopping after any number of frames
                        if ln == 0 and kind == "list":
                            for stop_at in range(1, n + 1):
                                v.sframe.set_val(0)
                                PAUSES[0], PAUSES[1] = 0, lambda i: click(v.bstop) if i == stop_at else None
                                click(v.bplay)
                                PAUSES[1] = None
                                rec.step()
                                rec.check(int(v.sframe.val) == min(stop_at, n - 1) or int(v.sframe.val) == min(stop_at - 1, n - 1), "video:stop", "stopped after %d: at %s" % (stop_at, v.sframe.val))
                                shown(rec, v, f(frames[int(v.sframe.val)][cam]), (kind, n, "stop", stop_at))
                    finally:
                        PAUSES[1] = None
                        plt.close("all")
    rec.raises("video:count", Exception, vw.VideoViewer, iter(frames))
    plt.close("all")


def shown(rec, v, want, label):
    got = np.asarray(v.img.get_array())
    return rec.check(got.shape == want.shape and np.array_equal(got, want), "video:image", lambda: "wrong frame shown: %s" % (label,))


def stream(rec, case, vw):
    """a viewer that follows a running calculation ends with its result, and is refreshed at the given interval"""
    import matplotlib.pyplot as plt, cddm.core as core, cddm.multitau as mt
    _, fn = case
    cross = fn.startswith("c")
    multi = fn.endswith("multi")
    kind = "MultitauViewer" if multi else "CorrViewer"
    N = 40
    f1, f2 = ref.gdata((N, H, W), 3, True), ref.gdata((N, H, W), 4, True)
    frames = [(a, b) if cross else (a,) for a, b in zip(f1, f2)]
    for method, stats, interval, chunk in itertools.product(("corr", "diff"), (True, False), (1, 2, 3), (10, 20)):
        if method == "diff" and not stats:
            continue
        rec.step()
        rec.state("stream", fn, method, stats, interval, chunk)
        shots = []

        class V(getattr(vw, kind)):
            def plot(self):
                super().plot()
                shots.append(np.array(line_of(self).get_ydata()))
        v = V(norm=None if stats else 0) if stats else None
        if v is None:
            continue
        v.k, v.angle, v.sector = 1, 30, 123.4
        f = getattr(mt if multi else core, "i" + fn)
        ts = (np.arange(N),) * (2 if cross else 1)
        kw = dict(level_size=10) if multi else dict(n=10)
        try:
            d, bg, var = rec.call("stream", f, iter(frames), *ts, count=N, chunk_size=chunk, method=method, viewer=v, viewer_interval=interval, mode="full", **kw)
            n = len(shots)
            pts = half_selection(H, W, None, (1, 30, 123.4, 1))[0]
            t, y = processed(kind, d, bg, var, None, False, None, None, True)
            want = np.real(selected_mean(y, pts, None))
            rec.check(n >= 1, "stream:plots", "%s plots" % n)
            v.set_data(d, bg, var)
            got = v.get_data()
            rec.check(close(got[1], want), "stream:data")
            if interval == 1:
                rec.check(close(shots[-1], want), "stream:last", "the last plot is not the result")
            rec.trace()
        finally:
            plt.close("all")
