"""C09: stream statistics are those of the consumed frames; background subtraction acts on every frame."""
import itertools
import numpy as np
from mc import ref
from mc import c07_multi as m7
from mc import c08_multistream as m8
from mc.c06_stream import stream, used_frames, reference

PID = "C09"
RULE = ("state = (function, method, norm, real/complex, stream length, chunk size, mask, thread divisor, auto background, mode, chunks consumed); transition = "
        "one chunk consumed; after each chunk the published background and variance, and at the end all returned data, are compared with the "
        "mean/variance of the frames consumed so far and with the correlation of the background-subtracted frames")


def bounds(tier):
    return ("streams of 1..%d frames, every chunk size (1-camera and 2-camera, linear and multiple-tau), both modes, with and without automatic "
            "background, all masks of a 2x2 frame, all thread divisors; in-memory stats/subtract_background for all shapes of up to 3 dimensions and all axes") % (9 if tier == "quick" else 16) + "; 11 data types; a few instances with up to 130 frames or 1320 pixels"


FN = ("iccorr", "iacorr", "iccorr_multi", "iacorr_multi")
CONF = [("corr", 1, False), ("corr", 2, False), ("corr", 3, False), ("corr", 5, True), ("corr", 7, False), ("corr", 7, True), ("fft", 7, False), ("fft", 5, True), ("diff", 2, False), ("diff", 6, False)]


def cases(tier):
    big = 9 if tier == "quick" else 16
    out = []
    for fn in FN:
        for cfg in CONF:
            if "acorr" in fn and cfg[:2] == ("diff", 6):
                continue
            for L in range(1, big + 1):
                out.append(("reg", fn, cfg, L))
            out.append(("times", fn, cfg))
        for cfg in (("corr", 7, False), ("diff", 2, False)):
            for ab in (False, True):
                out.append(("mask", fn, cfg, ab))
                out.append(("thread", fn, cfg, ab))
                for L, chunk, n, sh in ((64, 8, 8, (2, 2)), (96, 12, 5, (1,)), (130, 32, 16, (3,)), (8, 2, 2, (40, 33)), (8, 4, 2, (1100,))):
                    out.append(("large", fn, cfg, ab, L, chunk, n, sh))
    for nd in (1, 2, 3):
        out.append(("mem", nd))
    for dt in ref.DATA_TYPES:
        out.append(("types", dt))
    return out


def snap(x):
    if isinstance(x, (tuple, list)):
        return tuple(snap(i) for i in x)
    return None if x is None else np.array(x)


class SView:
    def __init__(self):
        self.seen = []

    def set_data(self, data, background=None, variance=None):
        self.seen.append((snap(data), snap(background), snap(variance)))

    def plot(self):
        pass


def mean_var(f):
    """boring mean and variance (population) per pixel"""
    s = np.zeros(f.shape[1:], complex)
    for x in f:
        s = s + x
    m = s / len(f)
    v = np.zeros(f.shape[1:], float)
    for x in f:
        d = x - m
        v = v + d.real ** 2 + d.imag ** 2
    return m, v / len(f)


def check_stats(rec, key, fn, bg, var, g1, g2, mask):
    cross = "ccorr" in fn
    if cross:
        ok = rec.check(isinstance(bg, tuple) and len(bg) == 2 and isinstance(var, tuple) and len(var) == 2, key + ":form", "two cameras need two backgrounds and variances")
        if not ok:
            return
        pairs = [(bg[0], var[0], g1), (bg[1], var[1], g2)]
    else:
        pairs = [(bg, var, g1)]
    for i, (b, v, g) in enumerate(pairs):
        m, s = mean_var(g)
        if mask is not None:
            mm, ss = np.full(m.shape, np.nan, complex), np.full(s.shape, np.nan)
            mm[mask], ss[mask] = m[mask], s[mask]
            b, m = np.asarray(b), mm
            rec.check(b.shape == m.shape and bool(np.all(np.isnan(b[~mask]))), key + ":cam%d:background outside the mask" % i, repr(b))
            if b.shape == m.shape:
                rec.same(b[mask], m[mask], key + ":cam%d:background" % i)
            s = ss
        else:
            rec.same(b, m, key + ":cam%d:background" % i)
        rec.same(v, s, key + ":cam%d:variance" % i, atol=1e-8)


def execute(rec, key, fn, cfg, f1, f2, n, chunk, mode, auto, t1=None, t2=None, mask=None, td=None, reuse=False):
    import cddm.core as core
    import cddm.multitau as mt
    method, norm, cplx = cfg
    multi = fn.endswith("_multi")
    base = fn.replace("_multi", "")
    L = len(f1)
    used = used_frames(L, chunk)
    if auto:
        b1, b2 = mean_var(f1[:chunk])[0], mean_var(f2[:chunk])[0]
    else:
        b1, b2 = 0.0, 0.0
    g1, g2 = f1 - b1, f2 - b2
    v = SView()
    kw = dict(norm=norm, method=method, count=L, chunk_size=chunk, auto_background=auto, viewer=v, mode=mode, mask=mask, thread_divisor=td, stats=True, complex=cplx)
    kw.update(dict(level_size=n) if multi else dict(n=n))
    f = getattr(mt if multi else core, fn)
    rec.state(key)
    args = (stream(base, f1, f2, reuse),) + (() if t1 is None else ((t1, t2) if base == "iccorr" else (t1,)))
    got = rec.call(key, f, *args, **kw)
    if not rec.check(isinstance(got, tuple) and len(got) == 3, key + ":form", "with stats the result must be (data, background, variance)"):
        return
    check_stats(rec, key + ":final", fn, got[1], got[2], g1[:used], g2[:used], mask)
    for i, (_, bg, var) in enumerate(v.seen):
        upto = min((i + 1) * chunk, used)
        rec.step()
        rec.state(key, upto)
        check_stats(rec, "%s:after%d" % (key, upto), fn, bg, var, g1[:upto], g2[:upto], mask)
    # the correlation itself is the one of the background-subtracted frames
    T1 = list(range(L)) if t1 is None else t1
    T2 = T1 if t2 is None else t2

    def expand(w):
        if mask is None:
            return w
        return tuple(x if x is None or i == 1 else np.where(np.broadcast_to(mask[..., None], x.shape), x, np.nan) for i, x in enumerate(w))
    T = m7.T(rec)
    if multi:
        me, no, cp, be = m7.effective(fn, cfg, None)
        mod = m8.Model(fn, g1, g2, T1, T2, n, 1, no, me, cp, be, mode, chunk, used)
        nl = mod.levels(None)
        full = [expand(mod.data(k, len(mod.lev[k][0]))) for k in range(nl + 1)]
        ref.same_data(T, got[0][0], full[0], key + ":fast")
        if nl:
            ref.same_data(T, got[0][1], tuple(None if full[0][i] is None else np.array([w[i] for w in full[1:]]) for i in range(len(full[0]))), key + ":slow")
    else:
        ref.same_data(T, got[0], expand(reference(base, g1, g2, T1, T2, n, norm, method, cplx, chunk, used, mode)), key + ":data")
    rec.trace()


def run(case, rec):
    import cddm.core as core
    kind = case[0]
    if kind == "reg":
        _, fn, cfg, L = case
        f1, f2 = ref.gdata((L, 1, 2), L) + 20, ref.gdata((L, 1, 2), L + 31) - 7j
        for chunk in range(1, L + 1):
            for n in sorted({1, (chunk + 1) // 2, chunk}):
                for auto in (False, True):
                    for mode in ("full", "chunk"):
                        execute(rec, "%s:%s:L%d:chunk%d:n%d:auto%d:%s" % (fn, cfg, L, chunk, n, auto, mode), fn, cfg, f1, f2, n, chunk, mode, auto, reuse=bool((n + chunk) % 2))
    elif kind == "times":
        _, fn, cfg = case
        if fn.endswith("multi"):
            return
        f1, f2 = ref.gdata((4, 1, 2), 4) + 20, ref.gdata((4, 1, 2), 35) - 7j
        for a in itertools.product((0, 1), repeat=4):
            t1 = [2 * i + x for i, x in enumerate(a)]
            t2 = [2 * i + x for i, x in enumerate(a[1:] + a[:1])]
            for chunk in (1, 2, 4):
                for auto in (False, True):
                    execute(rec, "%s:%s:t1=%s:t2=%s:chunk%d:auto%d" % (fn, cfg, t1, t2, chunk, auto), fn, cfg, f1, f2, chunk, chunk, "full", auto, t1, t2)
    elif kind == "large":
        _, fn, cfg, ab, L, chunk, n, sh = case
        f1, f2 = ref.gdata((L,) + sh, 4) + 20, ref.gdata((L,) + sh, 35) - 7j
        for td in (None, 11) if np.prod(sh) > 100 else (None,):
            execute(rec, "large:%s:%s:L%d:chunk%d:%s:td%s:auto%d" % (fn, cfg, L, chunk, sh, td, ab), fn, cfg, f1, f2, n, chunk, "full", ab, td=td, reuse=True)
    elif kind == "mask":
        _, fn, cfg, ab = case
        f1, f2 = ref.gdata((8, 2, 2), 4) + 20, ref.gdata((8, 2, 2), 35) - 7j
        for bits in itertools.product((False, True), repeat=4):
            if not any(bits):
                continue
            m = np.array(bits).reshape(2, 2)
            for td in [None] + [d for d in (1, 2, 4) if sum(bits) % d == 0]:
                for chunk in (2, 4, 8):
                    execute(rec, "%s:%s:mask%s:td%s:chunk%d:auto%d" % (fn, cfg, bits, td, chunk, ab), fn, cfg, f1, f2, 2, chunk, "full", ab, mask=m, td=td)
    elif kind == "thread":
        _, fn, cfg, ab = case
        for sh in ((6,), (2, 3), (1, 6), (2, 1, 3)):
            f1, f2 = ref.gdata((8,) + sh, 4) + 20, ref.gdata((8,) + sh, 35) - 7j
            for td in (None, 1, 2, 3, 6):
                for chunk in (2, 4, 8):
                    execute(rec, "%s:%s:%s:td%s:chunk%d:auto%d" % (fn, cfg, sh, td, chunk, ab), fn, cfg, f1, f2, 2, chunk, "full", ab, td=td, reuse=True)
    elif kind == "types":
        dt = case[1]
        f1, f2 = ref.typed((12, 2), 3, dt), ref.typed((12, 2), 4, dt)
        f1[1] = f1[0]
        m1, v1 = mean_var(f1.astype(complex))
        m2, v2 = mean_var(f2.astype(complex))
        tol = dict(rtol=1e-4, atol=1e-4) if dt in ("float32", "complex64") else {}
        for axis in (0, -1):
            x, y = (f1, f2) if axis == 0 else (f1.T.copy(), f2.T.copy())
            rec.state(case, axis)
            keep = x.copy()
            for key, got, want in [("types:stats", rec.call("types", core.stats, x, axis=axis), (m1, v1))]:
                for g, w in zip(got, want):
                    rec.same(g, w, "%s:%s" % (key, dt), **tol)
            bg, var = rec.call("types", core.stats, x, y, axis=axis)
            for g, w in zip(tuple(bg) + tuple(var), (m1, m2, v1, v2)):
                rec.same(g, w, "types:stats2:" + dt, **tol)
            want = f1.astype(complex) - m1
            rec.same(rec.call("types", core.subtract_background, x, axis=axis), want if axis == 0 else want.T, "types:subtract:" + dt, **tol)
            want = f1.astype(complex) - 2.5
            rec.same(rec.call("types", core.subtract_background, x, axis=axis, bg=np.full(2, 2.5)), want if axis == 0 else want.T, "types:given:" + dt, **tol)
            rec.check(np.array_equal(x, keep), "types:input")
            rec.trace()
        if dt not in ("float32", "complex64", "int32", "uint32"):
            for fn, cfg in itertools.product(FN, (("corr", 7, False), ("corr", 5, True), ("diff", 2, False))):
                for ab in (False, True):
                    execute(rec, "types:%s:%s:%s:auto%d" % (fn, cfg, dt, ab), fn, cfg, f1, f2, 4, 4, "full", ab, reuse=True)
    elif kind == "mem":
        nd = case[1]
        for sh in list(itertools.product((1, 2, 3), repeat=nd)) + {1: [(300,)], 2: [(33, 40), (3, 1100), (520, 2)], 3: [(5, 40, 33), (130, 3, 2)]}[nd]:
            f1, f2 = ref.gdata(sh, 3) + 20, ref.gdata(sh, 9) - 7j
            for axis in list(range(-nd, nd)):
                key = "mem:%s:axis%d" % (sh, axis)
                rec.state(key)
                a1, a2 = np.moveaxis(f1, axis, 0), np.moveaxis(f2, axis, 0)
                m1, v1 = mean_var(a1)
                m2, v2 = mean_var(a2)
                bg, var = rec.call(key, core.stats, f1, axis=axis)
                rec.same(bg, m1, key + ":mean")
                rec.same(var, v1, key + ":var")
                bg, var = rec.call(key, core.stats, f1, f2, axis=axis)
                for g, w in zip(tuple(bg) + tuple(var), (m1, m2, v1, v2)):
                    rec.same(g, w, key + ":stats2")
                bg, var = rec.call(key, core.stats, f1.tolist(), f2.tolist(), axis=axis)
                rec.same(var[1], v2, key + ":list")
                # subtract_background: computed, given, returned, in place
                keep = f1.copy()
                want = np.moveaxis(a1 - m1, 0, axis)
                rec.same(rec.call(key, core.subtract_background, f1, axis=axis), want, key + ":subtract")
                out, b = rec.call(key, core.subtract_background, f1, axis=axis, return_bg=True)
                rec.same(out, want, key + ":subtract:ret")
                rec.same(b, m1, key + ":subtract:bg")
                given = ref.gdata(m1.shape, 77)
                out, b = rec.call(key, core.subtract_background, f1, axis=axis, bg=given, return_bg=True)
                rec.same(out, np.moveaxis(a1 - given, 0, axis), key + ":given")
                rec.same(b, given, key + ":given:bg")
                rec.check(np.array_equal(f1, keep), key + ":input changed", "input modified without out")
                res = rec.call(key, core.subtract_background, f1, axis=axis, bg=given, out=f1)
                rec.check(res is f1, key + ":out", "out is not the returned array")
                rec.same(f1, np.moveaxis(a1_copy(keep, axis) - given, 0, axis), key + ":inplace")
                f1 = keep
                rec.trace()


def a1_copy(f, axis):
    return np.moveaxis(np.array(f), axis, 0)
