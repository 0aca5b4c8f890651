"""C26: calculation functions leave their inputs and the global state as they are; repeated and interleaved calls give the same results."""
import copy, itertools, warnings
import numpy as np
from mc import ref

PID = "C26"
IMPORTS = ("cddm.core", "cddm.multitau", "cddm.norm", "cddm.avg", "cddm.map", "cddm.fft", "cddm.video", "cddm.window", "cddm.sim")
RULE = ("state = (history of calls on shared data, memory layout, dtype); transition = one call; "
        "trace = complete history; input arrays (all bytes), global settings and results are compared with those before / of fresh data")
BLOCK = 1
LAYOUTS = ("C", "F", "strided", "reversed", "readonly", "offset")
DTYPES = ("c16", "c8", "f8", "f4", "i8", "u1")


def bounds(tier):
    return ("%d function/option variants x 6 memory layouts x 6 dtypes, each called three times (result of the first overwritten in between); "
            "all ordered pairs of the variants on shared data%s" % (len(OPS), "" if tier == "quick" else ", in two layouts; all triples of a core set"))


OPS = {}


def op(name, **variants):
    def deco(f):
        OPS[name] = f
        return f
    return deco


def add(name, f):
    assert name not in OPS, name
    OPS[name] = f


NT, SH = 8, (2, 3)
FFTLIBS = ("numpy", "scipy", "pyfftw")


def base_data():
    """all inputs, by name; fresh arrays"""
    d = {}
    d["f1"] = ref.gdata((NT,) + SH, 3, True, 1, 9)
    d["f2"] = ref.gdata((NT,) + SH, 5, True, 1, 9)
    d["fl1"] = np.moveaxis(d["f1"], 0, -1).copy()
    d["fl2"] = np.moveaxis(d["f2"], 0, -1).copy()
    d["frames1"] = [(x.copy(),) for x in d["f1"]]
    d["frames2"] = [(x.copy(), y.copy()) for x, y in zip(d["f1"], d["f2"])]
    d["t1"] = np.array([0, 1, 3, 4, 6, 7, 9, 10])
    d["t2"] = np.array([0, 2, 3, 5, 6, 8, 9, 11])
    d["bg1"], d["bg2"] = ref.gdata(SH, 7, True, 1, 3), ref.gdata(SH, 8, True, 1, 3)
    d["var1"], d["var2"] = ref.gdata(SH, 9, False, 5, 9), ref.gdata(SH, 10, False, 5, 9)
    d["var3"], d["mask3"] = ref.gdata((3, 2), 29, False, 5, 9), np.array([[True, False], [True, True], [False, True]])
    d["mask"] = np.array([[True, False, True], [True, True, False]])
    n = 8
    d["cdata"] = (ref.gdata(SH + (n,), 11, False, 2, 30), np.arange(n, 0, -1) * 3, ref.gdata(SH + (n,), 12, False, 100, 200), ref.gdata(SH + (n,), 13, False, 3, 9), ref.gdata(SH + (n,), 14, False, 3, 9))
    d["ddata"] = (ref.gdata(SH + (n,), 15, False, 2, 30), np.arange(n, 0, -1) * 3, ref.gdata(SH + (n,), 16, False, 3, 9), ref.gdata(SH + (n,), 17, False, 3, 9))
    d["mdata"] = (tuple(x.copy() for x in d["cdata"]), tuple(np.stack([x, x + 1]) for x in d["cdata"]))
    d["norm"] = ref.gdata(SH + (16,), 18, False, 1, 9)
    d["norm2d"] = ref.gdata(SH + (16,), 19, True, 1, 9)
    d["odd"] = ref.gdata(SH + (15,), 23, True, 1, 9)
    d["lin"], d["multi"] = ref.gdata(SH + (16,), 20, False, 1, 9), ref.gdata((3,) + SH + (16,), 21, False, 1, 9)
    d["count"], d["mcount"] = np.arange(16, 0, -1) * 5, np.arange(3 * 16).reshape(3, 16)
    d["map"] = ref.gdata((5, 3, 16), 22, False, 1, 9)
    d["kmask"] = np.ones((5, 3), bool)
    d["kmask"][1, 1] = False
    d["img"] = ref.gdata((4, 6), 24, False, 1, 9)
    d["cimg"] = ref.gdata((4, 6), 25, True, 1, 9)
    d["video"] = [(ref.gdata((4, 6), 30 + i, False, 1, 9), ref.gdata((4, 6), 40 + i, False, 1, 9)) for i in range(3)]
    d["cvideo"] = [(ref.gdata((4, 6), 30 + i, True, 1, 9), ref.gdata((4, 6), 40 + i, True, 1, 9)) for i in range(3)]
    d["x"], d["y"] = np.arange(1., 9), ref.gdata((8,), 26, False, 1, 9)
    d["xi"] = np.array([1, 2, 4, 5, 8, 9, 11, 16])
    d["xnew"] = np.array([1., 1.5, 4, 7.25])
    d["pos"] = ref.gdata((4, 2), 27, False, 0, 7) + .25
    d["vec"] = ref.gdata((3, 2), 28, False, 1, 3)
    return d


CAST = ("f1", "f2", "fl1", "fl2", "frames1", "frames2", "bg1", "bg2", "var1", "var2", "var3", "cdata", "ddata", "mdata", "norm", "norm2d", "odd", "lin", "multi", "map", "img", "cimg", "video", "cvideo", "x", "y", "xnew", "pos")
_KEEP = []


def relay(a, how):
    if not isinstance(a, np.ndarray):
        return type(a)(relay(x, how) for x in a)
    if how == "F":
        return np.asfortranarray(a).copy("F")
    if how == "strided":
        b = np.full(a.shape[:-1] + (2 * a.shape[-1],), 0, a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if how == "reversed":
        return a[::-1].copy()[::-1]
    if how == "readonly":
        a = a.copy()
        a.flags.writeable = False
        return a
    if how == "offset":
        b = np.zeros((a.shape[0] + 2,) + a.shape[1:], a.dtype)
        b[1:-1] = a
        return b[1:-1]
    return a.copy()


def recast(a, dt, counts=False):
    if not isinstance(a, np.ndarray):
        return type(a)(recast(x, dt) for x in a)
    if a.dtype.kind not in "fc" or dt is None:
        return a
    if dt in ("c16", "c8"):
        return a.astype(dt)
    return a.real.astype(dt)


def data(how="C", dt=None):
    d = base_data()
    for k in d:
        if k in CAST and dt is not None:
            d[k] = recast(d[k], dt)
        d[k] = relay(d[k], how)
    return d


def buffers(a, out):
    if isinstance(a, np.ndarray):
        out.append(a)
        if a.base is not None and isinstance(a.base, np.ndarray):
            out.append(a.base)
    elif isinstance(a, (list, tuple)):
        for x in a:
            buffers(x, out)
    elif isinstance(a, dict):
        for x in a.values():
            buffers(x, out)
    return out


def snapshot(d):
    return {k: [(b.shape, b.dtype.str, b.strides, b.tobytes()) for b in buffers(v, [])] for k, v in d.items()}


def copyres(r):
    if isinstance(r, np.ndarray):
        return r.copy()
    if isinstance(r, (list, tuple)):
        return [copyres(x) for x in r]
    return r


def sameres(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and bool(np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(sameres(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and a != a:
        return b != b
    return a is b or a == b


def overwrite(r, protect):
    """garbage into the result, where it is not (documented to be) the input itself"""
    for b in buffers(r, []):
        if b.flags.writeable and b.dtype.kind in "fciub" and not any(np.shares_memory(b, p) for p in protect):
            b[...] = 1 if b.dtype.kind == "b" else 99


RANDOM = ("iacorr", "iccorr")  # draw random numbers, for the random selection of the multiple-tau levels


# select or rearrange data: the result may be (a view of) the input
VIEWS = ("as_rfft2_data", "reshape_", "scale_factor:auto", "sim.t", "slice_data", "subtract_background:bg", "take_data", "video.", "rfft2_crop", "fft2_crop", "merge_multilevel")


def glob(name=""):
    import cddm.conf as conf
    st = np.random.get_state() if not name.startswith(RANDOM) else ("", np.zeros(0), 0)
    return (repr(sorted(conf.CDDMConfig.__dict__.items())), st[0], st[1].tobytes(), st[2:], str(np.geterr()), repr(np.get_printoptions()), len(warnings.filters), repr(warnings.filters))


def last(it):
    out = None
    for out in it:
        pass
    return out


def build():
    import cddm.core as core, cddm.multitau as mt, cddm.norm as norm, cddm.avg as avg, cddm.map as kmap, cddm.fft as fft, cddm.video as video, cddm.window as window, cddm.sim as sim, cddm.conf as conf
    # linear calculations
    for tt in (0, 1):
        T = (lambda d: (d["t1"], d["t2"])) if tt else (lambda d: (None, None))
        T1 = (lambda d: d["t1"]) if tt else (lambda d: None)
        for ax, a, b in ((0, "f1", "f2"), (2, "fl1", "fl2"), (-1, "fl1", "fl2")):
            for al in (False, True):
                for fn in ("cross_correlate", "cross_difference"):
                    for cp in ((0, 1) if fn == "cross_correlate" else (0,)):
                        kw = dict(axis=ax, align=al, n=5)
                        if cp:
                            kw["complex"] = True
                        add("%s:t%d:ax%d:al%d:c%d" % (fn, tt, ax, al, cp), lambda d, fn=fn, T=T, a=a, b=b, kw=kw: getattr(core, fn)(d[a], d[b], *T(d), **kw))
                for fn in ("auto_correlate", "auto_difference", "auto_sum"):
                    add("%s:t%d:ax%d:al%d" % (fn, tt, ax, al), lambda d, fn=fn, T1=T1, a=a, al=al, ax=ax: getattr(core, fn)(d[a], T1(d), axis=ax, align=al))
                for inv in (False, True):
                    for cp in (False, True):
                        add("cross_sum:t%d:ax%d:al%d:inv%d:c%d" % (tt, ax, al, inv, cp), lambda d, T=T, a=a, al=al, ax=ax, inv=inv, cp=cp: core.cross_sum(d[a], *T(d), axis=ax, align=al, time_inversion=inv, complex=cp, n=6))
            add("cross_correlate_fft:t%d:ax%d" % (tt, ax), lambda d, T=T, a=a, b=b, ax=ax: core.cross_correlate_fft(d[a], d[b], *T(d), axis=ax))
            add("cross_correlate_fft:c:t%d:ax%d" % (tt, ax), lambda d, T=T, a=a, b=b, ax=ax: core.cross_correlate_fft(d[a], d[b], *T(d), axis=ax, complex=True, n=5))
            add("auto_correlate_fft:t%d:ax%d" % (tt, ax), lambda d, T1=T1, a=a, ax=ax: core.auto_correlate_fft(d[a], T1(d), axis=ax))
            if tt:
                add("cross_sum_fft:ax%d" % ax, lambda d, a=a, ax=ax: core.cross_sum_fft(d[a], d["t1"], d["t2"], axis=ax))
                add("auto_sum_fft:ax%d" % ax, lambda d, a=a, ax=ax: core.auto_sum_fft(d[a], d["t1"], axis=ax))
            for m, norms in (("corr", (1, 2, 3, 7)), ("fft", (1, 7)), ("diff", (2, 6))):
                for nm in norms:
                    add("ccorr:%s:%d:t%d:ax%d" % (m, nm, tt, ax), lambda d, T=T, a=a, b=b, ax=ax, m=m, nm=nm: core.ccorr(d[a], d[b], *T(d), axis=ax, norm=nm, method=m))
                    if not (m == "diff" and nm == 6):
                        add("acorr:%s:%d:t%d:ax%d" % (m, nm, tt, ax), lambda d, T1=T1, a=a, ax=ax, m=m, nm=nm: core.acorr(d[a], T1(d), axis=ax, norm=nm, method=m))
        for auto in (0, 1):
            fr = "frames1" if auto else "frames2"
            for m in ("corr", "diff", "fft"):
                for mask in (0, 1):
                    def run(d, auto=auto, m=m, mask=mask, tt=tt, fr=fr, multi=False):
                        kw = dict(method=m, mask=d["mask"] if mask else None, chunk_size=8)
                        if multi:
                            kw.update(level_size=5)
                            fn = mt.iacorr_multi if auto else mt.iccorr_multi
                        else:
                            kw.update(n=4)
                            fn = core.iacorr if auto else core.iccorr
                        ts = (d["t1"],) if auto else (d["t1"], d["t2"])
                        if not tt:
                            ts = (np.arange(NT),) * len(ts)
                        return fn(d[fr], *ts, **kw)
                    add("i%scorr:%s:mask%d:t%d" % ("a" if auto else "c", m, mask, tt), run)
                    add("i%scorr_multi:%s:mask%d:t%d" % ("a" if auto else "c", m, mask, tt), lambda d, run=run: run(d, multi=True))
            for multi in (0, 1):
                for mask in (0, 1):
                    # background of the first chunk, signed delays, split frames
                    def runbg(d, auto=auto, mask=mask, tt=tt, fr=fr, multi=multi):
                        kw = dict(auto_background=True, complex=True, norm=7, chunk_size=4, mask=d["mask"] if mask else None, mode="chunk" if mask else "full")
                        kw.update(dict(level_size=4) if multi else dict(n=4))
                        if not mask:
                            kw["thread_divisor"] = 2
                        ts = (np.asarray(d["t1"]),) if auto else (d["t1"], d["t2"])
                        if not tt:
                            ts = (np.arange(NT),) * len(ts)
                        fn = ((core.iccorr, mt.iccorr_multi), (core.iacorr, mt.iacorr_multi))[auto][multi]
                        return fn(d[fr], *ts, **kw)
                    add("i%scorr%s:background:mask%d:t%d" % ("a" if auto else "c", "_multi" if multi else "", mask, tt), runbg)
        for m in ("corr", "diff", "fft"):
            for bn in (0, 1) if m != "diff" else (0,):
                for mask in (0, 1):
                    add("ccorr_multi:%s:bin%d:mask%d:t%d" % (m, bn, mask, tt), lambda d, m=m, bn=bn, mask=mask, T=T: mt.ccorr_multi(d["f1"], d["f2"], *T(d), level_size=5, method=m, binning=bn, mask=d["mask"] if mask else None, norm=7 if m == "corr" else (1 if m == "fft" else 2)))
                    add("acorr_multi:%s:bin%d:mask%d:t%d" % (m, bn, mask, tt), lambda d, m=m, bn=bn, mask=mask, T1=T1: mt.acorr_multi(d["f1"], T1(d), level_size=5, method=m, binning=bn, mask=d["mask"] if mask else None))
    for cp in (False, True):
        add("cross_count:%d" % cp, lambda d, cp=cp: core.cross_count(d["t1"], d["t2"], n=5, complex=cp))
    add("auto_count", lambda d: core.auto_count(d["t1"], n=5))
    add("subtract_background", lambda d: core.subtract_background(d["f1"]))
    add("subtract_background:bg", lambda d: core.subtract_background(d["f1"], bg=d["bg1"], return_bg=True))
    add("subtract_background:ax", lambda d: core.subtract_background(d["fl1"], axis=-1, return_bg=True))
    add("stats1", lambda d: core.stats(d["f1"]))
    add("stats2", lambda d: core.stats(d["fl1"], d["fl2"], axis=-1))
    add("ccorr:sq", lambda d: core.ccorr(d["f1"], d["f2"], f1s=np.abs(d["f1"]) ** 2, f2s=np.abs(d["f2"]) ** 2, norm=2, method="corr"))
    for div in (None, 2):
        add("reshape_input:%s" % div, lambda d, div=div: core.reshape_input(d["f1"], 0, div)[0])
        add("reshape_input:mask:%s" % div, lambda d, div=div: core.reshape_input(d["f1"], 0, div, d["mask"])[0])
    add("reshape_output:mask", lambda d: core.reshape_output(tuple(x[d["mask"]] if i != 1 else x for i, x in enumerate(d["cdata"])), mask=d["mask"]))
    add("reshape_frame", lambda d: core.reshape_frame(d["bg1"], (6,)))
    # normalization
    for k, names in (("cdata", (1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15)), ("ddata", (2, 6))):
        for nm in names:
            for mode in ("corr", "diff"):
                for sc in (False, True):
                    add("normalize:%s:%d:%s:%d" % (k, nm, mode, sc), lambda d, k=k, nm=nm, mode=mode, sc=sc: norm.normalize(d[k], (d["bg1"], d["bg2"]), (d["var1"], d["var2"]), norm=nm, mode=mode, scale=sc))
    for nm in (1, 2, 3, 7, 11, 15):
        add("normalize:mask:%d" % nm, lambda d, nm=nm: norm.normalize(d["cdata"], (d["bg1"], d["bg2"]), (d["var1"], d["var2"]), norm=nm, scale=True, mask=d["mask"]))
        add("normalize:auto:%d" % nm, lambda d, nm=nm: norm.normalize(tuple(d["cdata"][:4]) + (None,), d["bg1"][:1], d["var1"][:1], norm=nm))
        add("normalize_multi:%d" % nm, lambda d, nm=nm: mt.normalize_multi(d["mdata"], (d["bg1"], d["bg2"]), (d["var1"], d["var2"]), norm=nm, scale=True))
        add("normalize_multi:mask:%d" % nm, lambda d, nm=nm: mt.normalize_multi(d["mdata"], (d["bg1"], d["bg2"]), (d["var1"], d["var2"]), norm=nm, mask=d["mask"]))
    for m in (0, 1):
        msk = (lambda d: d["mask"]) if m else (lambda d: None)
        add("scale_factor:%d" % m, lambda d, msk=msk: norm.scale_factor((d["var1"], d["var2"]), mask=msk(d)))
        add("scale_factor:auto:%d" % m, lambda d, msk=msk: norm.scale_factor(d["var3"], mask=d["mask3"] if msk(d) is not None else None))
        for sc in (False, True):
            add("noise_delta:%d:%d" % (m, sc), lambda d, msk=msk, sc=sc: norm.noise_delta((d["var1"], d["var2"]), mask=msk(d), scale=sc))
    for mode in ("corr", "diff"):
        add("noise_mean:" + mode, lambda d, mode=mode: norm.noise_mean(d["norm"], 2., mode))
        add("noise_mean:array:" + mode, lambda d, mode=mode: norm.noise_mean(d["norm"], d["var1"], mode))
        for pf in (False, True):
            add("weight_from_data:%s:%d" % (mode, pf), lambda d, mode=mode, pf=pf: norm.weight_from_data(d["norm"], d["var1"] / 10, d["var1"], mode, pf))
            add("weight_prime:%s:%d" % (mode, pf), lambda d, mode=mode, pf=pf: norm.weight_prime_from_data(d["norm"], d["bg1"].real / 10, d["bg2"].real / 10, d["var1"] / 10, d["var1"], mode, pf))
    add("noise_level", lambda d: norm.noise_level(d["img"], 20))
    add("weighted_sum", lambda d: norm.weighted_sum(d["norm"], d["norm"] * 2, d["norm"] / 10))
    add("take_data", lambda d: norm.take_data(d["cdata"], d["mask"]))
    add("shift_data", lambda d: norm.shift_data(d["odd"]))
    add("equalize_data", lambda d: norm.equalize_data(d["odd"]))
    for m in (0, 1, -1):
        add("fold_data:%d" % m, lambda d, m=m: norm.fold_data(d["odd"], m))
    # multitau and averaging
    for bn in (0, 1):
        add("multilevel:%d" % bn, lambda d, bn=bn: mt.multilevel(d["norm"], 8, bn))
        add("multilevel_count:%d" % bn, lambda d, bn=bn: mt.multilevel_count(d["count"], 8, bn))
        add("log_merge:%d" % bn, lambda d, bn=bn: mt.log_merge(d["lin"], d["multi"], bn))
        add("log_merge_count:%d" % bn, lambda d, bn=bn: mt.log_merge_count(d["count"], d["mcount"], bn))
        add("ccorr_multi_count:%d" % bn, lambda d, bn=bn: mt.ccorr_multi_count(100, 1, 4, bn))
        add("mean_data:%d" % bn, lambda d, bn=bn: (mt.mean_data_cpu if bn else mt.mean_data_parallel)(d["f1"], 0))
    add("slice_data", lambda d: mt.slice_data(d["f1"], 0))
    add("merge_multilevel:full", lambda d: mt.merge_multilevel(d["multi"], "full"))
    add("merge_multilevel:half", lambda d: mt.merge_multilevel(d["multi"], "half"))
    add("log_average", lambda d: mt.log_average(d["norm"], 4))
    add("log_average:odd", lambda d: mt.log_average(d["odd"], 4, fold=True))
    add("log_average_count", lambda d: mt.log_average_count(d["count"], 4))
    add("t_multilevel", lambda d: mt.t_multilevel((3, 8)))
    add("triangular_kernel", lambda d: mt.triangular_kernel(4))
    for f in ("denoise", "median", "convolve", "increasing", "decreasing"):
        add("avg." + f, lambda d, f=f: getattr(avg, f)(d["norm"]))
    add("avg.interpolate", lambda d: avg.interpolate(d["xnew"], d["x"], d["y"]))
    add("avg.log_interpolate", lambda d: avg.log_interpolate(d["xi"], d["xi"], d["y"]))
    # k-space
    for ang, sec in ((0, 5), (30, 40), (90, 180)):
        add("k_select:%s:%s" % (ang, sec), lambda d, ang=ang, sec=sec: list(kmap.k_select(d["map"], ang, sec, 1, shape=(5, 5))))
    add("k_select:mask", lambda d: list(kmap.k_select(d["map"], 0, 60, 1, mask=d["kmask"], shape=(5, 5))))
    add("k_select:k", lambda d: kmap.k_select(d["map"], 0, 60, 1, k=1, mask=d["kmask"], shape=(5, 5)))
    for f in ("rfft2_kangle", "fft2_kangle", "rfft2_grid", "fft2_grid"):
        add(f, lambda d, f=f: getattr(kmap, f)(2, 3) if "r" != f[0] else getattr(kmap, f)(3, 3))
    add("sector_indexmap", lambda d: kmap.sector_indexmap(d["var1"], d["var2"] / 3, 0.3, 1.))
    add("fft2_sector_indexmap", lambda d: kmap.fft2_sector_indexmap(d["var1"], d["var2"] / 3, 10., 40.))
    add("k_indexmap", lambda d: kmap.k_indexmap(5, 3, 0, 30))
    add("fft2_k_indexmap", lambda d: kmap.fft2_k_indexmap(5, 3, 0, 30))
    add("as_rfft2_mask", lambda d: kmap.as_rfft2_mask(d["kmask"]))
    add("as_rfft2_conj", lambda d: kmap.as_rfft2_conj(d["f1"]))
    add("as_rfft2_data", lambda d: kmap.as_rfft2_data(d["f1"]))
    add("from_rfft2_data", lambda d: kmap.from_rfft2_data(d["f1"], shape=(2, 4)))
    add("k_point_kernel", lambda d: kmap.k_point_kernel(d["img"], 1, 2))
    # fft of videos
    for lib in FFTLIBS:
        def with_lib(fn, lib=lib):
            old = conf.set_rfft2lib(lib), conf.set_fftlib(lib)
            try:
                return fn()
            finally:
                conf.set_rfft2lib(old[0])
                conf.set_fftlib(old[1])
        add("rfft2_video:" + lib, lambda d, w=with_lib: w(lambda: list(fft.rfft2_video(d["video"], 2, 2))))
        add("rfft2_video:full:" + lib, lambda d, w=with_lib: w(lambda: list(fft.rfft2_video(d["video"]))))
        add("fft2_video:" + lib, lambda d, w=with_lib: w(lambda: list(fft.fft2_video(d["cvideo"], 2, 2))))
        add("fft2_video:full:" + lib, lambda d, w=with_lib: w(lambda: list(fft.fft2_video(d["cvideo"]))))
        add("dls:" + lib, lambda d, w=with_lib: w(lambda: fft.dls(d["cimg"], d["img"], (1, 2))))
        add("dls_video:" + lib, lambda d, w=with_lib: w(lambda: list(fft.dls_video(d["cvideo"], d["img"], (1, 1)))))
        add("cross_correlate_fft:" + lib, lambda d, w=with_lib: w(lambda: core.cross_correlate_fft(d["f1"], d["f2"])))
        add("auto_correlate_fft:" + lib, lambda d, w=with_lib: w(lambda: core.auto_correlate_fft(d["f1"], d["t1"])))
    add("fft.rfft2", lambda d: list(fft.rfft2(d["video"])))
    add("fft.fft2", lambda d: list(fft.fft2(d["cvideo"], 1, 1)))
    add("rfft2_crop", lambda d: fft.rfft2_crop(d["cimg"], 1, 1))
    add("fft2_crop", lambda d: fft.fft2_crop(d["cimg"], 1, 2))
    add("normalize_fft", lambda d: list(fft.normalize_fft(d["cvideo"])))
    add("normalize_fft:dtype", lambda d: list(fft.normalize_fft(d["cvideo"], dtype="complex64")))
    # video
    for f in ("subtract", "add", "multiply"):
        add("video." + f, lambda d, f=f: list(getattr(video, f)(d["video"], d["cvideo"])))
        add("video.%s:dtype" % f, lambda d, f=f: list(getattr(video, f)(d["video"], d["video"], dtype="float32")))
    add("video.normalize", lambda d: list(video.normalize_video(d["video"])))
    add("video.crop", lambda d: list(video.crop(d["video"], ((1, 3), (0, 2)))))
    add("video.mask", lambda d: list(video.mask([(a[:2, :3],) for a, b in d["video"]], d["mask"])))
    add("video.asarrays", lambda d: video.asarrays(iter(d["video"]), 3))
    add("video.load", lambda d: video.load(d["video"], 3))
    add("video.fromarrays", lambda d: list(video.fromarrays((d["f1"], d["f2"]))))
    for m in ("real", "imag", "abs"):
        add("norm_rfft2:" + m, lambda d, m=m: video.norm_rfft2(mode=m)(d["cimg"]))
    add("norm_rfft2:clip", lambda d: video.norm_rfft2(clip=3.)(d["cimg"]))
    # windows, simulator
    for f, a in (("blackman", ()), ("gaussian", (2.,)), ("tukey", (0.3,)), ("hann", ())):
        add("window." + f, lambda d, f=f, a=a: getattr(window, f)((4, 6), *a))
    add("sim.transform", lambda d: sim.coordinate_transform(d["pos"], (8, 8), offset=(1., 2.), rotation=.3))
    add("sim.transform:none", lambda d: sim.coordinate_transform(d["pos"], (8, 8)))
    add("sim.walk", lambda d: list(sim.brownian_walk(d["pos"], 3, (8, 8), 0, .5, (1., .5))))
    add("sim.video", lambda d: list(sim.particles_video([d["pos"], d["pos"]], [0, 1], (8, 8), t2=[0, 1], intensity=d["vec"].ravel()[:4].astype("uint8"), sigma=1.)))
    add("sim.adc", lambda d: sim.adc(d["img"], noise_model="none"))
    add("sim.form_factor", lambda d: sim.form_factor(np.ones((4, 4)), navg=2))
    add("sim.random_time_count", lambda d: sim.random_time_count(4, 3))
    add("sim.trigger", lambda d: list(sim.data_trigger(d["f1"], d["t1"][:3])))


class Lazy(dict):
    pass


def ops():
    if not OPS:
        build()
    return OPS


def cases(tier):
    names = sorted(ops())
    out = [("single", n) for n in names]
    out += [("pairs", n) for n in names]
    if tier != "quick":
        out += [("pairsF", n) for n in names]
        core = names[::9]
        out += [("triples", a, b) for a in core for b in core]
    return out


def names_of():
    return sorted(ops())


def call(fn, d):
    with warnings.catch_warnings():
        pass
    try:
        return "ok", fn(d)
    except Exception as e:
        return "err", e


_FRESH = {}


def fresh(name, how="C"):
    if (name, how) not in _FRESH:
        st, r = call(ops()[name], data(how))
        _FRESH[name, how] = st, copyres(r) if st == "ok" else type(r)
    return _FRESH[name, how]


def run(case, rec):
    kind, name = case[0], case[1]
    fn = ops()[name]
    if kind == "single":
        ok = 0
        for how, dt in itertools.product(LAYOUTS, (None,) + DTYPES):
            d = data(how, dt)
            before, g0 = snapshot(d), glob(name)
            rec.step()
            rec.state(name, how, dt)
            label = lambda: "%s, layout %s, dtype %s" % (name, how, dt)
            st, r = call(fn, d)
            after, g1 = snapshot(d), glob(name)
            bad = [k for k in before if before[k] != after[k]]
            rec.check(not bad, "input", lambda: "%s changed the input %s" % (label(), bad))
            rec.check(g0 == g1, "global", lambda: "%s changed the global state %s -> %s" % (label(), [a for a, b in zip(g0, g1) if a != b], [b for a, b in zip(g0, g1) if a != b]))
            if st == "err":
                rec.check("read-only" not in str(r), "readonly", lambda: "%s writes to its input: %s" % (label(), r))
                if dt is None and how == "C":
                    rec.fail("call", "%s failed: %s: %s" % (label(), type(r).__name__, r))
                continue
            ok += 1
            keep = copyres(r)
            st2, r2 = call(fn, d)
            rec.step()
            if not rec.check(st2 == "ok" and sameres(keep, r2), "repeat", lambda: "second call of %s gives another result" % label()):
                continue
            rec.check(sameres(keep, r), "shared", lambda: "second call of %s changed the result of the first" % label())
            protect = buffers(d, [])
            k2 = copyres(r2)
            if not name.startswith(VIEWS):
                rec.check(not any(np.shares_memory(b, q) for b in buffers(r, []) for q in protect), "shared:input", lambda: "result of %s shares memory with its input" % label())
            shared = any(np.shares_memory(b, p) for b in buffers(r, []) for p in buffers(r2, []) if not any(np.shares_memory(b, q) for q in protect))
            rec.check(not shared, "shared", lambda: "results of two calls of %s share memory" % label())
            overwrite(r, protect)
            overwrite(r2, protect)
            st3, r3 = call(fn, d)
            rec.step()
            rec.check(st3 == "ok" and sameres(k2, r3), "repeat:overwritten", lambda: "%s gives another result after the previous result was overwritten" % label())
            rec.check(snapshot(d) == before, "input", lambda: "%s changed the input when called again" % label())
            rec.trace()
            rec.outcome(name, repr(keep)[:200])
        return
    how = "F" if kind == "pairsF" else "C"
    if kind in ("pairs", "pairsF"):
        # the second function on the data that the first one has used
        d = data(how)
        before = snapshot(d)
        for other in names_of():
            if kind == "pairs" and name.split(":")[0] == other.split(":")[0] and name.split(":")[0] not in ("normalize",) and name > other:
                pass
            rec.state(kind, name, other)
            rec.step(2)
            call(fn, d)
            st, r = call(ops()[other], d)
            want = fresh(other, how)
            rec.check(st == want[0] and (sameres(want[1], r) if st == "ok" else True), "pair", lambda: "%s after %s gives another result" % (other, name))
            rec.trace()
        rec.check(snapshot(d) == before, "input", lambda: "functions called after %s changed the input" % name)
        return
    _, a, b = case
    d = data("C")
    for other in names_of():
        rec.state(kind, a, b, other)
        rec.step(3)
        call(ops()[a], d)
        call(ops()[b], d)
        st, r = call(ops()[other], d)
        want = fresh(other)
        rec.check(st == want[0] and (sameres(want[1], r) if st == "ok" else True), "triple", lambda: "%s after %s, %s gives another result" % (other, a, b))
        rec.trace()
