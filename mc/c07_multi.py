"""C07: in-memory multiple-tau data equals linear correlation of successively coarse-grained data."""
import itertools
import numpy as np
from mc import ref

PID = "C07"
RULE = ("state = (function, method, binning, norm, real/complex, length, level size, period, number of levels, random answers); transition = one "
        "call; trace = complete (fast, slow) data compared level by level with the definition; for random selection all answers of the "
        "random number generator are enumerated")


def bounds(tier):
    return "lengths %s, level sizes 5..%d, periods 1..3, nlevel unspecified/0/1/2/3, all methods, norms, binnings, real/complex; axis, thread and mask variants" % ("5..24" if tier == "quick" else "5..49", 6 if tier == "quick" else 9) + "; 11 data types and 9 types of time stamps; a few instances with up to 300 frames or 1320 pixels, default level size on long data"


FIRST, MEAN, CHOOSE = 0, 1, 2
CONF = [("corr", n, c) for n in (1, 2, 3, 5, 6, 7) for c in (False, True)] + [("fft", n, c) for n in (1, 3, 7) for c in (False, True)] + \
       [("diff", 2, False), ("diff", 6, False), (None, None, False)]


def cases(tier):
    out = []
    Ls = range(5, 25) if tier == "quick" else range(5, 50)
    for fn in ("ccorr_multi", "acorr_multi"):
        for cfg in CONF:
            if fn == "acorr_multi" and cfg[:2] == ("diff", 6):
                continue
            for b in (None, FIRST) if cfg[0] == "diff" else (None, FIRST, MEAN):
                if cfg[0] is None and b is not None:
                    continue
                for L in Ls:
                    for ls in (5, 6) if tier == "quick" else (5, 6, 7, 8, 9):
                        if ls <= L:
                            out.append(("reg", fn, cfg, b, L, ls))
        for cfg in (("corr", 7, False), ("corr", 3, True), ("fft", 7, False), ("diff", 2, False)):
            for L in (10, 11, 20, 23):
                out.append(("choose", fn, cfg, L))
            for per in (1, 2, 3):
                for pat in range(8):
                    out.append(("times", fn, cfg, per, pat))
            out.append(("shape", fn, cfg))
            out.append(("mask", fn, cfg))
        for cfg in (("corr", 7, False), ("corr", 7, True), ("fft", 7, False), ("diff", 2, False), ("corr", 3, False)):
            for L, ls, sh in ((64, 6, (2,)), (100, 16, (2, 3)), (259, 16, (3,)), (300, 17, (1,)), (22, 5, (40, 33)), (21, 5, (1100,)), (520, 5, (1,))):
                out.append(("large", fn, cfg, L, ls, sh))
        for cfg in (("corr", 7, False), ("corr", 7, True), ("fft", 7, False), ("diff", 2, False)):
            for dt in ref.DATA_TYPES:
                out.append(("types", fn, cfg, dt))
        out.append(("errors", fn))
    return out


def coarse(F, binning, pick=None):
    n = len(F) // 2 * 2 if binning != FIRST else len(F)
    if binning == MEAN:
        return (F[0:n:2] + F[1:n:2]) / 2.0
    if binning == FIRST:
        return F[0:n:2]
    return F[pick:n:2]


def level_data(fn, F1, F2, S1, S2, t1, t2, n, norm, method, cplx):
    if fn.startswith("ccorr") or fn.startswith("iccorr"):
        w = ref.ccorr_data(F1, F2, t1, t2, n, norm, method, cplx)
        if method != "diff" and norm & 2:
            sq = ref.csum(S1, t1, t2, n, cplx) + ref.csum(S2, t2, t1, n, cplx, inverted=True)
            w = (w[0], w[1], sq) + w[3:]
    else:
        w = ref.acorr_data(F1, t1, n, norm, method, cplx)
        if method != "diff" and norm & 2:
            w = (w[0], w[1], 2 * ref.asum(S1, t1, n)) + w[3:]
    return w


def reference(fn, F1, F2, t1, t2, ls, period, nlevel, norm, method, cplx, binning, picks=None):
    m = "diff" if method == "diff" else "corr"
    S1, S2 = F1.real ** 2 + F1.imag ** 2, F2.real ** 2 + F2.imag ** 2
    fast = level_data(fn, F1, F2, S1, S2, t1, t2, ls * period, norm, m, cplx)
    if nlevel is None:
        nlevel = 0
        while len(F1) // 2 ** (nlevel + 1) >= ls:
            nlevel += 1
    slow = []
    for k in range(nlevel):
        p = None if picks is None else picks[k]
        F1, F2, S1, S2 = (coarse(x, binning, p) for x in (F1, F2, S1, S2))
        t = range(len(F1))
        slow.append(level_data(fn, F1, F2, S1, S2, t, t, ls, norm, m, cplx))
    if slow:
        st = tuple(None if fast[i] is None else np.array([s[i] for s in slow]) for i in range(len(fast)))
    else:
        st = None
    return fast, st, nlevel


def compare(rec, got, fast, slow, nlevel, key, expand=lambda x, i: x):
    fast = tuple(expand(x, i) for i, x in enumerate(fast))
    ref.same_data(T(rec), got[0], fast, key + ":fast")
    if slow is not None:
        slow = tuple(expand(x, i) for i, x in enumerate(slow))
        ref.same_data(T(rec), got[1], slow, key + ":slow")
    else:
        rec.check(len(got[1][0]) == 0, key + ":slow", "no level expected, got %r" % (got[1][0].shape,))
    rec.trace()


class T:
    def __init__(self, rec):
        self.rec = rec

    def check(self, *a, **k):
        return self.rec.check(*a, **k)

    def same(self, g, w, key, msg=""):
        return self.rec.same(g, w, key, msg, rtol=1e-8, atol=1e-7)


def effective(fn, cfg, binning):
    method, norm, cplx = cfg
    method = method or "corr"
    if norm is None:
        norm = 7
    if binning is None:
        binning = FIRST if method == "diff" else MEAN
    return method, norm, cplx, binning


def call(rec, key, fn, f1, f2, t1, t2, cfg, **kw):
    import cddm.multitau as mt
    rec.state(key)
    kw.update(method=cfg[0], norm=cfg[1], complex=cfg[2])
    if fn == "ccorr_multi":
        return rec.call(key, mt.ccorr_multi, f1, f2, t1, t2, **kw)
    return rec.call(key, mt.acorr_multi, f1, t1, **kw)


def run(case, rec):
    import cddm.multitau as mt
    kind, fn = case[0], case[1]
    if kind == "reg":
        _, fn, cfg, b, L, ls = case
        f1, f2 = ref.gdata((L, 2, 2), L), ref.gdata((L, 2, 2), L + 50)
        method, norm, cplx, be = effective(fn, cfg, b)
        t = range(L)
        for period in (1, 2):
            for nlevel in (None, 0, 1, 2, 3):
                if nlevel and L // 2 ** nlevel < 1:
                    continue
                key = "%s:%s:bin%s:L%d:level%d:per%d:nlevel%s" % (fn, cfg, b, L, ls, period, nlevel)
                got = call(rec, key, fn, f1, f2, None, None, cfg, level_size=ls, binning=b, period=period, nlevel=nlevel)
                fast, slow, nl = reference(fn, f1, f2, t, t, ls, period, nlevel, norm, method, cplx, be)
                compare(rec, got, fast, slow, nl, key)
    elif kind == "times":
        _, fn, cfg, per, pat = case
        method, norm, cplx, be = effective(fn, cfg, None)
        L, ls = 12, 5
        a = [(i * (pat + 1) + pat // 3) % per for i in range(L)]
        b = [(i * i + pat) % per for i in range(L)]
        t1 = [per * i + x for i, x in enumerate(a)]
        t2 = [per * i + x for i, x in enumerate(b)]
        for off in (0, 5, -7):
            T1, T2 = [x + off for x in t1], [x + off for x in t2]
            for sh, ax in (((L, 2, 3), 0), ((2, 3, L), -1), ((2, L, 3), 1), ((L,), 0)):
                f1, f2 = ref.gdata(sh, L), ref.gdata(sh, L + 50)
                F1, F2 = np.moveaxis(f1, ax, 0), np.moveaxis(f2, ax, 0)
                key = "%s:%s:t1=%s:t2=%s:%s" % (fn, cfg, T1, T2, sh)
                got = call(rec, key, fn, f1, f2, T1, T2, cfg, level_size=ls, period=per, axis=ax)
                fast, slow, nl = reference(fn, F1, F2, T1, T2, ls, per, None, norm, method, cplx, be)
                compare(rec, got, fast, slow, nl, key)
    elif kind == "large":
        _, fn, cfg, L, ls, sh = case
        f1, f2 = ref.gdata((L,) + sh, L), ref.gdata((L,) + sh, L + 50)
        for binning in (None, FIRST):
            method, norm, cplx, be = effective(fn, cfg, binning)
            for per in (1, 3):
                t1 = [per * i + (i * i + i // 5) % per for i in range(L)]
                t2 = [per * i + (2 * i + i // 4) % per for i in range(L)]
                fast, slow, nl = reference(fn, f1, f2, t1, t2, ls, per, None, norm, method, cplx, be)
                for td in (None, 5, 11) if np.prod(sh) > 100 else (None,):
                    key = "large:%s:%s:bin%s:L%d:level%d:per%d:%s:td%s" % (fn, cfg, binning, L, ls, per, sh, td)
                    a = (None, None) if per == 1 else (t1, t2)
                    got = call(rec, key, fn, f1, f2, a[0], a[1], cfg, level_size=ls, period=per, binning=binning, thread_divisor=td)
                    compare(rec, got, fast, slow, nl, key)
    elif kind == "types":
        _, fn, cfg, dt = case
        L, ls = 23, 5
        f1, f2 = ref.typed((L, 2), 3, dt, False), ref.typed((L, 2), 4, dt, False)
        F1, F2 = f1.astype(complex), f2.astype(complex)
        a = [3 * i + (i * i) % 3 for i in range(L)]
        b = [3 * i + (i + i // 4) % 3 for i in range(L)]
        for binning in (None, FIRST):
            method, norm, cplx, be = effective(fn, cfg, binning)
            fast, slow, nl = reference(fn, F1, F2, range(L), range(L), ls, 1, None, norm, method, cplx, be)
            key = "types:%s:%s:bin%s:%s" % (fn, cfg, binning, dt)
            compare(rec, call(rec, key, fn, f1, f2, None, None, cfg, level_size=ls, binning=binning), fast, slow, nl, key)
            fast, slow, nl = reference(fn, F1, F2, a, b, ls, 3, None, norm, method, cplx, be)
            for tt in ref.TIME_TYPES:
                k = key + ":times " + tt
                compare(rec, call(rec, k, fn, f1, f2, ref.typed_times(a, tt), ref.typed_times(b, tt), cfg, level_size=ls, period=3, binning=binning), fast, slow, nl, k)
    elif kind == "shape":
        _, fn, cfg = case
        method, norm, cplx, be = effective(fn, cfg, None)
        L, ls = 21, 5
        for fs in ((), (1,), (4,), (2, 3), (3, 2), (1, 4), (2, 1, 2), (2, 2, 3)):
            size = int(np.prod(fs)) if fs else 1
            for ax in range(len(fs) + 1):
                sh = fs[:ax] + (L,) + fs[ax:]
                f1, f2 = ref.gdata(sh, L), ref.gdata(sh, L + 50)
                F1, F2 = np.moveaxis(f1, ax, 0), np.moveaxis(f2, ax, 0)
                fast, slow, nl = reference(fn, F1, F2, range(L), range(L), ls, 1, None, norm, method, cplx, be)
                for axis in (ax, ax - len(sh)):
                    for align in (False, True):
                        for lay in ("C", "F", "S"):
                            a1, a2 = layout(f1, lay), layout(f2, lay)
                            for td in [None] + ([d for d in (1, 2, 3, 4, 6) if size % d == 0] if fs else []):
                                key = "%s:%s:%s:ax%d:al%d:%s:td%s" % (fn, cfg, sh, axis, align, lay, td)
                                got = call(rec, key, fn, a1, a2, None, None, cfg, level_size=ls, axis=axis, align=align, thread_divisor=td)
                                compare(rec, got, fast, slow, nl, key)
    elif kind == "mask":
        _, fn, cfg = case
        method, norm, cplx, be = effective(fn, cfg, None)
        L, ls = 11, 5
        for fs in ((3,), (2, 2), (1, 3), (2, 1, 2)):
            f1, f2 = ref.gdata((L,) + fs, L), ref.gdata((L,) + fs, L + 50)
            fast, slow, nl = reference(fn, f1, f2, range(L), range(L), ls, 1, None, norm, method, cplx, be)
            for bits in itertools.product((False, True), repeat=int(np.prod(fs))):
                if not any(bits):
                    continue
                m = np.array(bits).reshape(fs)

                def expand(x, i):
                    if x is None or i == 1:
                        return x
                    y = np.full(x.shape, np.nan, x.dtype)
                    y[..., m, :] = x[..., m, :]
                    return y
                for td in [None] + [d for d in (1, 2, 3) if sum(bits) % d == 0]:
                    for align in (False, True):
                        key = "%s:%s:%s:mask%s:td%s:al%d" % (fn, cfg, fs, bits, td, align)
                        got = call(rec, key, fn, f1, f2, None, None, cfg, level_size=ls, mask=m, thread_divisor=td, align=align)
                        compare(rec, got, fast, slow, nl, key, expand)
    elif kind == "choose":
        _, fn, cfg, L = case
        method, norm, cplx, be = effective(fn, cfg, CHOOSE)
        f1, f2 = ref.gdata((L, 2, 2), L), ref.gdata((L, 2, 2), L + 50)
        nl = reference(fn, f1, f2, range(L), range(L), 5, 1, None, norm, method, cplx, FIRST)[2]
        wants = {p: reference(fn, f1, f2, range(L), range(L), 5, 1, None, norm, method, cplx, CHOOSE, p) for p in itertools.product((0, 1), repeat=nl)}
        seen = set()
        for ans in itertools.product((0.2, 0.8), repeat=max(4 * nl, 1) if nl < 3 else 8):
            it = itertools.chain(ans, itertools.repeat(0.4))
            old = np.random.rand
            np.random.rand = lambda *a: next(it)
            try:
                key = "%s:%s:choose:L%d:%s" % (fn, cfg, L, ans)
                got = call(rec, key, fn, f1, f2, None, None, cfg, level_size=5, binning=CHOOSE)
            finally:
                np.random.rand = old
            # which selection was made? the whole tuple must belong to a single selection of frames
            hit = [p for p, w in wants.items() if w[1] is None or (got[1][0].shape == w[1][0].shape and np.allclose(got[1][0], w[1][0]))]
            if rec.check(bool(hit), key, "slow data does not correspond to any selection of every second frame"):
                seen.add(hit[0])
                w = wants[hit[0]]
                compare(rec, got, w[0], w[1], nl, key)
    elif kind == "errors":
        f = ref.gdata((12, 2, 2), 1)
        f_ = mt.ccorr_multi if fn == "ccorr_multi" else mt.acorr_multi
        a = (f, f) if fn == "ccorr_multi" else (f,)
        rec.state("errors", fn)
        rec.raises("method", ValueError, f_, *a, level_size=5, method="abc")
        rec.raises("norm", ValueError, f_, *a, level_size=5, norm=8)
        rec.raises("binning", ValueError, f_, *a, level_size=5, binning=7)
        rec.raises("binning diff", ValueError, f_, *a, level_size=5, binning=MEAN, method="diff")
        rec.raises("divisor", ValueError, f_, *a, level_size=5, thread_divisor=3)
        rec.raises("mask axis", ValueError, f_, *a, level_size=2 * 3, axis=1, mask=np.ones((2, 2), bool))
        rec.trace()


def layout(a, lay):
    if lay == "F":
        return np.asfortranarray(a)
    if lay == "S":
        b = np.empty(tuple(2 * s for s in a.shape), a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    return a
