"""C30: every route from the recorded frames to the final curves gives the values of the definition."""
import itertools, math
import numpy as np
from mc import ref
from mc import c07_multi as m7
from mc import c10_normalize as m10
from mc import c12_logavg as m12
from mc.c15_geometry import dft
from mc.c14_select import freq

PID = "C30"
RULE = ("state = (number of cameras, frame times, kind of video source, crop, window, pre-processing, FFT library and limits, way of masking or splitting, in memory or streaming, linear or multiple tau, "
        "method, norm, mode, scale, averaging); transition = one stage of the analysis executed; trace = one complete route whose raw data, statistics, normalized data, log-averaged data and k-averages "
        "are compared with the definition evaluated directly on the recorded frames")
L, LS = 24, 6
H, W = 8, 7
ROIS = (None, ((1, 7), (0, 6)))
KMAX = ((2, 2), (None, None))
WIN = (False, True)
SRC = ("list", "generator", "arrays", "memory map")
PRE = ("none", "subtract", "normalize", "gain")
MEMORY = ("linear", "multi", "stream linear", "stream multi")
ROUTES = ("plain", "video mask", "mask argument", "mask and divisor", "divisor", "normalize mask")


def bounds(tier):
    return ("%d frames of %d x %d pixels, 1 and 2 cameras, regular and 2 irregular triggering patterns; %s; methods corr/fft/diff, 9 norms, both modes, scaled or not, real and complex data; "
            "in-memory and streaming, linear and multiple-tau calculation, 6 ways of masking and splitting, 2 masks") % (
        L, H, W, "all combinations of 4 sources, 2 crops, 2 windows, 4 pre-processing steps, 3 FFT libraries, 2 wave-vector limits with 3 calculations; 4 of them with every calculation" if tier == "quick" else
        "every combination of 4 sources, 2 crops, 2 windows, 4 pre-processing steps, 3 FFT libraries and 2 wave-vector limits with every calculation")


def cases(tier):
    fronts = list(itertools.product(range(len(SRC)), range(len(ROIS)), range(len(KMAX)), range(len(WIN)), range(len(PRE)), range(3)))
    out = []
    for kind in ("c", "a"):
        for p in (0, 1, 3):
            for i, fr in enumerate(fronts):
                if tier == "thorough":
                    out.append((kind, p, "all", [fr]))
                elif i % 96 == 5:
                    out.append((kind, p, "all", [fronts[(i + 17 * p) % len(fronts)]]))
            out += [(kind, p, "some", fronts[i::16]) for i in range(16)]
    return out


# --------------------------------------------------------------------------- the definition
def window():
    """any window: values exactly representable"""
    return lambda h, w: (1 + np.arange(h * w).reshape(h, w) * 5 % 7) / 8.


def video_oracle(frames, roi, win, pre):
    """recorded frames -> frames before the Fourier transform"""
    out = []
    for fr in frames:
        new = []
        for c, x in enumerate(fr):
            x = x.astype(float)
            if roi is not None:
                x = x[roi[0][0]:roi[0][1], roi[1][0]:roi[1][1]]
            if pre == "normalize":
                x = x / x.mean() * gain(x.shape, c)
            elif pre == "subtract":
                x = x - dark(x.shape, c)
            elif pre == "gain":
                x = x * gain(x.shape, c)
            if win:
                x = x * window()(*x.shape)
            new.append(x)
        out.append(tuple(new))
    return out


def dark(shape, c):
    return (np.arange(shape[0] * shape[1]).reshape(shape) + 2 * c) % 4 + 0.


def gain(shape, c):
    return (np.arange(shape[0] * shape[1]).reshape(shape) + c) % 3 / 2. + 0.5


def fourier(frames, c, kimax, kjmax):
    out = []
    for fr in frames:
        h, w = fr[c].shape
        si = freq(h) if kimax is None else list(range(kimax + 1)) + list(range(-kimax, 0))
        sj = list(range(w // 2 + 1)) if kjmax is None else list(range(kjmax + 1))
        out.append(dft(fr[c], np.array(si) / h, np.array(sj) / w))
    return np.array(out)


def averages(data, kind):
    """correlation, squares and means per frame pair, from a raw tuple calculated for norm 7"""
    cnt = np.asarray(data[1])
    with np.errstate(all="ignore"):
        c = np.where(cnt > 0, cnt, np.nan).astype(float)
        c = c.reshape(c.shape[:-1] + (1,) * (data[0].ndim - c.ndim) + c.shape[-1:])
        A, S, M1 = (data[i] / c for i in (0, 2, 3))
        M2 = data[4] / c if kind == "c" else M1
    return A, S, M1, M2


def formula(avg, norm, bg1, bg2, off, cplx):
    A, S, M1, M2 = avg
    b1, b2, o = bg1[..., None], bg2[..., None], off[..., None]
    sub, comp = bool(norm & 4), bool(norm & 8) and not norm & 4
    if norm & 3 == 1:
        if comp:
            r = A - np.conj(M1) * M2
        elif sub:
            r = A - np.conj(b1) * M2 - np.conj(M1) * b2 + np.conj(b1) * b2
        else:
            r = A - np.conj(b1) * b2
        return r if cplx else r.real
    d = b1 - b2
    D = S - 2 * A.real
    if comp:
        D = D - m10.abs2(M1 - M2)
    elif sub:
        D = D - 2 * ((M1 - M2) * np.conj(d)).real + m10.abs2(d)
    else:
        D = D - m10.abs2(d)
    return o - D / 2


def normalized(avg, norm, stat, mode, scale, cplx):
    bg1, bg2, v1, v2 = stat
    off = (v1 + v2) / 2.
    if norm & 3 == 3:
        base, comp = (formula(avg, norm & 12 | k, bg1, bg2, off, cplx) for k in (1, 2))
        delta = (v2 - v1) / (v1 + v2)
        w = m10.weight(base / off[..., None], delta)
        for _ in range(2):
            w = m10.weight(m10.mix(comp, base, w) / off[..., None], delta)
        r = m10.mix(comp, base, w)
    else:
        r = formula(avg, norm, bg1, bg2, off, cplx)
    if mode == "diff":
        r = 2 * off[..., None] - 2 * r
    return r / off[..., None] if scale else r


class Definition:
    """everything the routes must produce, from the Fourier coefficients of the recorded frames; memoised"""

    def __init__(self, kind, F1, F2, t1, t2):
        self.kind, self.F1, self.F2, self.t1, self.t2 = kind, F1, F2, t1, t2
        self.fn = "ccorr" if kind == "c" else "acorr"
        b1, b2 = F1.mean(0), F2.mean(0)
        v1, v2 = m10.abs2(F1 - b1).mean(0), m10.abs2(F2 - b2).mean(0)
        self.stat = (b1, b2, v1, v2)
        self.memo = {}

    def raw(self, what, cplx, binning):
        """fast part, slow part (None for linear data)"""
        key = ("raw", what, cplx, binning if what != "linear" else None)
        if key not in self.memo:
            if what == "linear":
                S1, S2 = m10.abs2(self.F1), m10.abs2(self.F2)
                self.memo[key] = m7.level_data(self.fn, self.F1, self.F2, S1, S2, self.t1, self.t2, LS * 2, 7, "corr", cplx), None
            else:
                per = 1 if self.regular() else 2
                f, s, _ = m7.reference(self.fn + "_multi", self.F1, self.F2, self.t1, self.t2, LS, per, None, 7, "corr", cplx, binning)
                self.memo[key] = f, s
        return self.memo[key]

    def regular(self):
        return list(self.t1) == list(range(L)) and list(self.t2) == list(range(L))

    def period(self):
        return 1 if self.regular() else 2

    def norm(self, what, cplx, binning, norm, mode, scale):
        key = ("norm", what, cplx, binning if what != "linear" else None, norm, mode, scale)
        if key not in self.memo:
            f, s = self.raw(what, cplx, binning)
            a = normalized(averages(f, self.kind), norm, self.stat, mode, scale, cplx)
            b = None if s is None else normalized(averages(s, self.kind), norm, self.stat, mode, scale, cplx)
            self.memo[key] = a, b
        return self.memo[key]


# --------------------------------------------------------------------------- the routes
def libs():
    from cddm import conf
    return [l for l, ok in (("numpy", True), ("scipy", conf.SCIPY_INSTALLED), ("pyfftw", conf.PYFFTW_INSTALLED)) if ok]


def source(v, kind, frames, rec):
    if kind == "list":
        return [tuple(x.copy() for x in fr) for fr in frames]
    if kind == "generator":
        return (tuple(x.copy() for x in fr) for fr in frames)
    arrays = tuple(np.array([fr[c] for fr in frames]) for c in range(len(frames[0])))
    if kind == "arrays":
        return v.fromarrays(arrays)
    import os, tempfile
    d = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH") or None)
    maps = rec.call("asmemmaps", v.asmemmaps, os.path.join(d, "v"), iter(frames), count=len(frames))
    got = v.fromarrays(tuple(np.asarray(m) for m in maps))
    del maps
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    return got


def prepare(rec, frames, front):
    """the documented analysis up to the Fourier transformed video"""
    import cddm.video as v
    import cddm.fft as ff
    src, roi, km, win, pre, lib = front
    x = source(v, SRC[src], frames, rec)
    if ROIS[roi] is not None:
        x = v.crop(x, roi=ROIS[roi])
        shape = (ROIS[roi][0][1] - ROIS[roi][0][0], ROIS[roi][1][1] - ROIS[roi][1][0])
    else:
        shape = (H, W)
    ncam = len(frames[0])
    if PRE[pre] == "normalize":
        x = v.normalize_video(x, dtype=float)
    if PRE[pre] == "subtract":
        x = v.subtract(x, (tuple(dark(shape, c) for c in range(ncam)),) * L, dtype=float)
    elif PRE[pre] in ("gain", "normalize"):
        x = v.multiply(x, (tuple(gain(shape, c) for c in range(ncam)),) * L, dtype=float)
    if WIN[win]:
        x = v.multiply(x, ((window()(*shape),) * ncam,) * L, dtype=float)
    return ff.rfft2_video(x, *KMAX[km])


def masks(shape):
    h, w = shape
    a = np.array([[(i * 3 + j * 2) % 5 < 3 for j in range(w)] for i in range(h)])
    b = np.zeros(shape, bool)
    b[0, 1] = b[-1, 2] = b[1, 0] = True
    return [a, b]


def divisor(n):
    return next((d for d in (3, 2, 5, 7) if n % d == 0), 1)


def calculate(rec, key, kind, mem, route, fft, mask, t1, t2, norm, method, cplx, period, chunk):
    """raw data (as returned by the library) with background and variance, full sized where the route is"""
    import cddm.core as core, cddm.multitau as mt, cddm.video as v
    args = dict(norm=norm, method=method, complex=cplx)
    if "multi" in mem:
        args.update(level_size=LS, period=period)
    else:
        args.update(n=LS * 2)
    if route == "video mask":
        fft = v.mask(fft, mask)
    td = None
    if route in ("mask and divisor", "divisor"):
        td = divisor(int(mask.sum()) if route == "mask and divisor" else mask.size)
    m = mask if route in ("mask argument", "mask and divisor") else None
    if mem.startswith("stream"):
        fn = getattr(mt if "multi" in mem else core, {"c": "iccorr", "a": "iacorr"}[kind] + ("_multi" if "multi" in mem else ""))
        t = (t1, t2) if kind == "c" else (t1,)
        return rec.call(key, fn, fft, *t, count=L, chunk_size=chunk, mask=m, thread_divisor=td, **args)
    arrays = rec.call(key, v.asarrays, fft, L)
    arrays = arrays if isinstance(arrays, tuple) else (arrays,)
    st = rec.call(key, core.stats, *arrays)
    if "multi" in mem:
        args.update(mask=m, thread_divisor=td)
        if kind == "c":
            return (rec.call(key, mt.ccorr_multi, arrays[0], arrays[1], t1, t2, **args),) + tuple(st)
        return (rec.call(key, mt.acorr_multi, arrays[0], t1, **args),) + tuple(st)
    shape = None
    if m is not None or td is not None:
        new = [core.reshape_input(a, 0, td, m) for a in arrays]
        arrays, shape = [n[0] for n in new], new[0][1]
    if kind == "c":
        d = rec.call(key, core.ccorr, arrays[0], arrays[1], t1, t2, **args)
    else:
        d = rec.call(key, core.acorr, arrays[0], t1, **args)
    if shape is not None:
        d = rec.call(key, core.reshape_output, d, shape, m)
    return (d,) + tuple(st)


NORMS = {"corr": (1, 2, 3, 5, 6, 7, 9, 10, 11), "fft": (1, 2, 3, 5, 6, 7, 9, 10, 11), "diff": (2, 6)}


class Look:
    """what a full sized array looks like after a route"""

    def __init__(self, route, mask):
        self.packed = route in ("video mask", "normalize mask")
        self.mask = mask if route not in ("plain", "divisor") else None

    def __call__(self, x, level=None):
        """x has the delay axis last, frame axes before it"""
        if x is None or self.mask is None:
            return x
        if self.packed:
            return x[..., self.mask, :]
        y = np.full(x.shape, np.nan, x.dtype)
        y[..., self.mask, :] = x[..., self.mask, :]
        return y

    def stat(self, x):
        return self(x[..., None])[..., 0]


def close(rec, got, want, key, unit):
    got, want = np.asarray(got), np.asarray(want)
    if not rec.check(got.shape == want.shape, key + ":shape", "%s expected %s" % (got.shape, want.shape)):
        return
    rec.check(np.iscomplexobj(got) == np.iscomplexobj(want), key + ":dtype", str(got.dtype))
    # nothing divided by nothing: rounding errors of the FFT may give an infinite value
    if not rec.check(np.array_equal(~np.isfinite(got), np.isnan(want)), key + ":undefined", "undefined values at different places"):
        return
    m = ~np.isnan(want)
    u = np.broadcast_to(unit, want.shape)[m]
    g, w = got[m], want[m]
    rec.outcome(want.shape, np.nan_to_num(want).tobytes())
    bad = np.abs(g - w) > 1e-7 * u + 1e-7 * np.abs(w)
    rec.check(not bad.any(), key, "got %s expected %s" % (g[bad][:4], w[bad][:4]))


def rings(y, kj, mask, angle, sector, step, shape):
    """average over the wave vectors of each ring, half plane data completed by its conjugate"""
    h = y.shape[-3]
    out = {}
    big = max(shape)
    for i, ki in enumerate(freq(h)):
        for j in range(kj):
            if mask is not None and not mask[i, j]:
                continue
            for s in (1, -1):
                if s == -1 and j == 0:
                    continue       # that wave vector is stored itself
                fy, fx = s * ki * big / shape[0], s * j * big / shape[1]
                k = math.hypot(fy, fx)
                a = math.degrees(math.atan2(-fy, fx))
                d = abs((a - angle + 180) % 360 - 180)
                assert not (k and abs(d - sector / 2) < 1e-6), "boundary"
                r = k / step + 0.5
                assert not k or abs(r - round(r)) > 1e-6, "boundary"
                if k == 0 or d < sector / 2:
                    v = y[..., i, j, :]
                    out.setdefault(int(r), []).append((k, v if s == 1 else np.conj(v)))
    return [(np.mean([k for k, _ in out[r]]), np.mean([v for _, v in out[r]], axis=0)) for r in sorted(out)]


def run(case, rec):
    kind, p, what, fronts = case
    for fr in fronts:
        route_all(rec, kind, p, what, fr)


def route_all(rec, kind, p, what, front):
    from cddm import conf
    import cddm.multitau as mt
    import cddm.map as mp
    from cddm.norm import normalize
    src, roi, km, win, pre, lib = front
    names = libs()
    if lib >= len(names):
        return
    ncam = 2 if kind == "c" else 1
    dt = ("uint8", "uint16", "float64")[(src + win + pre) % 3]
    frames = [tuple((ref.gdata((H, W), 5 + 10 * i + c, False, 0, 40) + 60).astype(dt) for c in range(ncam)) for i in range(L)]
    keep = [tuple(x.copy() for x in f) for f in frames]
    prepared = video_oracle(frames, ROIS[roi], WIN[win], PRE[pre])
    shape = prepared[0][0].shape
    F = [fourier(prepared, c, *KMAX[km]) for c in range(ncam)]
    t1, t2 = m10.times(p, L)
    if kind == "a":
        t2 = t1
    D = Definition(kind, F[0], F[-1], t1, t2)
    reg = D.regular()
    T1, T2 = (None, None) if reg else (t1, t2)
    done = []
    old = conf.set_rfft2lib(names[lib])
    try:
        if what == "all":
            combos = list(itertools.product(MEMORY, ROUTES, ("corr", "fft", "diff"), (False, True)))
        else:
            k = sum(front)
            combos = [(MEMORY[(k + i) % 4], ROUTES[(k * 2 + i + roi) % 6], ("corr", "fft", "diff")[(k + i) % 3], False) for i in range(3)]
        for mem, route, method, cplx in combos:
            if cplx and method == "diff":
                continue
            allmasks = masks(F[0].shape[1:])
            for imask, mask in enumerate(allmasks if route not in ("plain", "divisor") else allmasks[:1]):
                if imask and what != "all":
                    continue
                chunks = (6, 12, 24) if mem == "stream multi" else (12, 24) if mem == "stream linear" else (None,)
                if what != "all":
                    chunks = chunks[:1]
                for chunk in chunks:
                    one(rec, kind, front, D, mem, route, method, cplx, mask, T1, T2, chunk, frames, shape, what, done)
        rec.check(all(np.array_equal(a, b) for x, y in zip(frames, keep) for a, b in zip(x, y)), "the recorded frames are changed")
    finally:
        conf.set_rfft2lib(old)


def one(rec, kind, front, D, mem, route, method, cplx, mask, T1, T2, chunk, frames, shape, what, done):
    import cddm.multitau as mt
    import cddm.map as mp
    from cddm.norm import normalize
    cross = kind == "c"
    top = (6 if cross else 2) if method == "diff" else 7
    multi = "multi" in mem
    binning = m7.FIRST if method == "diff" else m7.MEAN
    per = D.period()
    label = "%s:%s:%s:%s%s" % ({"c": "cross", "a": "auto"}[kind], mem, route, method, ":complex" if cplx else "")
    rec.state(label, front, list(D.t1), list(D.t2), chunk, mask.tobytes())
    if what == "some" or route == "plain" or not done:
        fft = rec.call(label, prepare, rec, frames, front)
        if what == "all" and not done:
            done += [tuple(f.copy() for f in x) for x in fft]
            rec.check(len(done) == L, label + ":frames")
            for i, x in enumerate(done):
                for c, f in enumerate(x):
                    close(rec, f, (D.F1, D.F2)[c][i], label + ":fourier", np.max(np.abs(D.F1)))
            fft = iter(done)
    else:
        fft = iter([tuple(f.copy() for f in x) for x in done])
    data, bg, var = calculate(rec, label, kind, mem, route, fft, mask, T1, T2, top, method, cplx, per, chunk)
    look = Look(route, mask)
    before = Look("plain" if route == "normalize mask" else route, mask)
    # statistics of the frames
    S = D.stat
    unit = np.max(np.abs(D.F1)) ** 2
    # in-memory routes with a mask argument keep the statistics of all pixels
    slook = Look("plain", mask) if not mem.startswith("stream") and route in ("mask argument", "mask and divisor") else before
    if cross:
        for i in (0, 1):
            close(rec, bg[i], slook.stat(S[i]), label + ":background", unit ** 0.5)
            close(rec, var[i], slook.stat(S[2 + i]), label + ":variance", unit)
    else:
        close(rec, bg, slook.stat(S[0]), label + ":background", unit ** 0.5)
        close(rec, var, slook.stat(S[2]), label + ":variance", unit)
    nm = mt.normalize_multi if multi else normalize
    kw = dict(mask=mask) if route == "normalize mask" else {}
    off = (S[2] + S[3]) / 2.
    for norm in NORMS[method]:
        if cplx and norm not in (1, 5, 9):
            continue
        if method == "diff" and not cross and norm == 6:
            continue
        if norm & 3 == 3 and any((np.asarray(x[1]) == 0).any() for x in ([data] if not multi else data)):
            continue      # smoothing spreads undefined values
        for mode, scale in itertools.product(("corr", "diff"), (False, True)):
            if what != "all" and (mode == "diff") != scale:
                continue
            key = "%s:norm%d" % (label, norm)
            rec.state(key, mode, scale, front, chunk, mask.tobytes(), list(D.t1))
            got = rec.call(key, nm, data, bg, var, norm=norm, mode=mode, scale=scale, **kw)
            want = D.norm("multi" if multi else "linear", cplx, binning, norm, mode, scale)
            u = (1. + 0 * off if scale else off)[..., None] * (1 if scale else 1.) + (unit / off if scale else unit + 0 * off)[..., None]
            u = look(u)
            g = got if multi else (got,)
            for part, a, b in zip(("fast", "slow"), g, want):
                close(rec, a, look(b), "%s:%s:%s" % (key, mode, part), u)
            # averaging in time, then over wave vectors
            if mode == "diff" and what == "all" and norm not in (2, 7):
                rec.trace()
                continue
            fold = m12.fold if cplx and cross else lambda z: z
            fo = dict(fold=cross) if cplx else {}
            if multi:
                t, y = m12.merged(m12.ml(fold(want[0]), LS, binning), LS)
                ok = t < LS * per
                t, y = t[ok], y[..., ok]
                a, b = m12.merged(fold(want[1]), LS, False)
                t, y = np.concatenate((t, 2 * per * a)), np.concatenate((y, b), -1)
                x, g = rec.call(key + ":log_merge", mt.log_merge, *got, binning=binning, **fo)
            else:
                t, y = m12.merged(m12.ml(fold(want[0]), LS, m12.MEAN), LS)
                x, g = rec.call(key + ":log_average", mt.log_average, got, LS // 2, **fo)
            rec.same(x, t, key + ":times")
            close(rec, g, look(y), key + ":averaged", u)
            if KMAX[front[2]] == (2, 2):
                # wave vectors: sectors and rings whose limits meet no wave vector
                for angle, sector, step in ((10., 66., 1.3), (-80., 53., 0.9), (95., 179., 1.7)):
                    args = dict(angle=angle, sector=sector, kstep=step, shape=shape)
                    if look.mask is not None:
                        args["mask"] = mask
                    res = rec.call(key + ":k_select", mp.k_select, g, **args)
                    wr = rings(y, y.shape[-2], look.mask, angle, sector, step, shape)
                    if not rec.check(len(res) == len(wr), key + ":k_select", "%d wave vectors, expected %d" % (len(res), len(wr))):
                        continue
                    for (ka, da), (kb, db) in zip(res, wr):
                        rec.same(ka, kb, key + ":k_select:k")
                        close(rec, da, db, key + ":k_select", np.max(u[~np.isnan(u)]))
            rec.trace()
