"""C12: log averaging and merging keep the right delays, values and counts."""
import itertools
import numpy as np
from mc import ref
from mc import c10_normalize as m10

PID = "C12"
RULE = ("state = (function, data length, level size, period, number of levels, binning, real/complex, fold, extra dimensions, random answers); transition = one call; "
        "trace = times and values compared with the plain definition (repeated [1/4,1/2,1/4] averaging and sub-sampling)")


def bounds(tier):
    return ("every data length 1..%d with every level size 2..%d (odd and even), periods 1..%d, 1..4 slow levels, all binnings incl. every answer of the random selection, "
            "real/complex with and without folding, 0..2 extra dimensions; all norms and modes for normalize_multi") % ((70, 9, 9) if tier == "quick" else (200, 17, 24)) + "; a few lengths up to 1500 with level sizes up to 33"


FIRST, MEAN, CHOOSE = 0, 1, 2


def effective_count(c, size, b):
    L = len(c)
    nl = levels_for(L, size)
    want = np.full((nl + 1, size), np.nan)
    for l in range(nl + 1):
        # triangular weights of total width 2**(l+1)
        h = 2 ** l if b == MEAN else 1
        k = {d: (h - abs(d)) / float(h) ** 2 for d in range(-h + 1, h)}
        for i in range(size):
            s = i * 2 ** l
            if s < L:
                n1 = sum(w * c[s + d] for d, w in k.items() if 0 <= s + d < L)
                n2 = sum(w * w * float(c[s + d]) ** 2 for d, w in k.items() if 0 <= s + d < L)
                want[l, i] = n1 ** 3 / n2
    return want


def cases(tier):
    big, ls, per = (70, 9, 9) if tier == "quick" else (200, 17, 24)
    out = []
    for L in range(1, big + 1):
        out.append(("log", L, ls))
        out.append(("count", L, ls))
    for p in range(1, per + 1):
        for n in range(2, 11 if tier == "quick" else 17, 2):
            out.append(("merge", p, n))
    for L in (4, 5, 8, 9, 12):
        out.append(("choose", L))
    for k, method, cplx in (("c", "corr", False), ("c", "corr", True), ("a", "corr", False), ("a", "corr", True), ("c", "diff", False), ("a", "diff", False)):
        for norm in m10.NORMS:
            if method == "diff" and (norm not in (2, 6) or (k == "a" and norm == 6)):
                continue
            out.append(("multi", k, method, cplx, norm))
    for p2 in range(0, 5):
        for n in (2, 4, 5, 8, 16):
            out.append(("multicount", p2, n))
    for L in (100, 128, 129, 255, 500, 1023, 1500) if tier == "quick" else (256, 257, 500, 1023, 1500, 3000):
        out.append(("log", L, 6))
        out.append(("log", L, 16, 33))
        out.append(("count", L, 4))
        out.append(("count", L, 16, 33))
    for n in (16, 32, 64):
        out.append(("merge", 4, n))
        out.append(("merge", 5, n))
    out.append(("errors",))
    out.append(("kernel",))
    return out


def conv(x):
    y = x.copy()
    for i in range(1, x.shape[-1] - 1):
        y[..., i] = (x[..., i - 1] + 2 * x[..., i] + x[..., i + 1]) / 4
    return y


def levels_for(L, size):
    k = 0
    while size * 2 ** k < L:
        k += 1
    return k


def ml(data, size, binning):
    """levels of sub-sampled data; level l holds delays i * 2**l, i < size; undefined where there is no such delay"""
    L = data.shape[-1]
    out = []
    for l in range(levels_for(L, size) + 1):
        lev = np.full(data.shape[:-1] + (size,), np.nan, data.dtype)
        k = min(size, data.shape[-1])
        lev[..., :k] = data[..., :k]
        out.append(lev)
        data = (conv(data) if binning == MEAN else data)[..., ::2]
    return np.array(out)


def merged(levels, size, first_all=True):
    """times (in units of the first level) and values of the merged levels"""
    t, y = [], []
    for l in range(len(levels)):
        for i in range(size):
            if i >= size // 2 or (l == 0 and first_all):
                t.append(i * 2 ** l)
                y.append(levels[l][..., i])
    return np.array(t), np.moveaxis(np.array(y), 0, -1)


def increasing(rec, key, t):
    rec.check(bool(np.all(np.diff(t) > 0)), key + ":increasing", "delay times are not strictly increasing: %s" % (np.asarray(t).tolist(),))


def fold(z):
    n = (z.shape[-1] + 1) // 2
    out = z[..., :n].copy()
    for i in range(1, n):
        out[..., i] = (z[..., i] + np.conj(z[..., -i])) / 2
    return out


def exact(rec, key, got, want):
    got = np.asarray(got)
    if rec.check(got.shape == want.shape, key + ":shape", "%s expected %s" % (got.shape, want.shape)):
        rec.check(got.dtype == want.dtype or got.dtype.kind == want.dtype.kind, key + ":dtype", str(got.dtype))
        # NaN exactly where there is no data
        rec.check(np.array_equal(np.isnan(got), np.isnan(want)), key + ":undefined", "undefined values at different places:\n%s\n%s" % (got, want))
        m = ~np.isnan(want)
        if got.shape == want.shape:
            rec.same(np.where(m, got, 0), np.where(m, want, 0), key)


def run(case, rec):
    import cddm.multitau as mt
    kind = case[0]
    if kind == "log":
        L, sizes = case[1], list(range(1, case[2] + 1)) if len(case) == 3 else case[2:]
        for ext in ((), (2,), (2, 1, 2)):
            if len(ext) == 3 and L % 5:
                continue
            real = ref.gdata(ext + (L,), L, False)
            for cplx, fo in ((False, None), (False, True), (True, False), (True, True)):
                if cplx and fo:
                    data = ref.gdata(ext + (2 * L - 1,), L + 3, True)
                    lin = fold(data)
                elif cplx:
                    data = lin = ref.gdata(ext + (L,), L + 4, True)
                else:
                    data = lin = real
                keep = data.copy()
                for size in sizes:
                    rec.state("log", L, ext, cplx, fo, size)
                    w = ml(lin, 2 * size, MEAN)
                    t, y = merged(w, 2 * size)
                    key = "log_average:L%d:size%d" % (L, size)
                    x, g = rec.call(key, mt.log_average, data, size, fold=fo)
                    exact(rec, key, g, y)
                    rec.same(x, t, key + ":time")
                    increasing(rec, key, x)
                    rec.trace()
                    for b in (FIRST, MEAN):
                        if size < 2:
                            continue
                        w = ml(lin, size, b)
                        m = rec.call("multilevel", mt.multilevel, data, size, b, fold=fo)
                        exact(rec, "multilevel:L%d:size%d:bin%d" % (L, size, b), m, w)
                        rec.trace()
                        if size % 2 == 0:
                            for mode, full in (("full", True), ("half", False)):
                                t, y = merged(w, size, full)
                                x, g = rec.call("merge_multilevel:" + mode, mt.merge_multilevel, m, mode)
                                rec.same(x, t, "merge_multilevel:%s:time" % mode)
                                exact(rec, "merge_multilevel:%s:L%d:size%d" % (mode, L, size), g, y)
                                rec.trace()
                        else:
                            rec.raises("odd level size", ValueError, mt.merge_multilevel, m, "half")
                rec.check(np.array_equal(data, keep), "input changed", "L%d" % L)
    elif kind == "count":
        L, sizes = case[1], list(range(2, case[2] + 1)) if len(case) == 3 else case[2:]
        for c in (np.arange(L, 0, -1), np.array([(i * i * 7) % 11 + 1 for i in range(L)]), np.arange(L, 0, -1) * 1.0):
            for size in sizes:
                for b in (FIRST, MEAN, CHOOSE):
                    rec.state("count", L, size, b, c.tobytes())
                    want = effective_count(c, size, b)
                    got = rec.call("multilevel_count", mt.multilevel_count, c, size, b)
                    exact(rec, "multilevel_count:bin%d:L%d:size%d" % (b, L, size), got, want)
                    if size % 2 == 0 and b == MEAN:
                        t, y = merged(want, size)
                        x, g = rec.call("log_average_count", mt.log_average_count, c, size // 2)
                        rec.same(x, t, "log_average_count:time")
                        exact(rec, "log_average_count:L%d:size%d" % (L, size), g, y)
                    rec.trace()
    elif kind == "merge":
        _, p, n = case
        for nl in range(1, 5):
            for ext in ((), (2,), (2, 3)):
                for cplx, fo in ((False, None), (True, False), (True, True)):
                    for b in (FIRST, MEAN):
                        Lf = p * n
                        if cplx and fo:
                            lin, multi = ref.gdata(ext + (2 * Lf - 1,), 4), ref.gdata((nl,) + ext + (2 * n - 1,), 5)
                            fl, fm = fold(lin), fold(multi)
                        else:
                            lin, multi = ref.gdata(ext + (Lf,), 4, cplx), ref.gdata((nl,) + ext + (n,), 5, cplx)
                            fl, fm = lin, multi
                        rec.state("merge", p, n, nl, ext, cplx, fo, b)
                        key = "log_merge:period%d:n%d:levels%d:bin%d" % (p, n, nl, b)
                        t, y = merged(ml(fl, n, b), n)
                        ok = t < Lf
                        t, y = t[ok], y[..., ok]
                        t2, y2 = merged(fm, n, False)
                        t, y = np.concatenate((t, 2 * p * t2)), np.concatenate((y, y2), -1)
                        try:
                            x, g = mt.log_merge(lin, multi, b, fold=fo)
                        except Exception as e:
                            rec.fail(key, repr(e))
                            continue
                        rec.same(x, t, key + ":time")
                        exact(rec, key, g, y)
                        increasing(rec, key, x)
                        rec.trace()
        # every slow level has its own times
        for nl in range(1, 5):
            for ext in ((), (2,), (2, 3)):
                tt = rec.call("t_multilevel", mt.t_multilevel, (nl,) + ext + (n,), period=p)
                want = np.array([[2 * p * i * 2 ** l for i in range(n)] for l in range(nl)]).reshape((nl,) + (1,) * len(ext) + (n,))
                rec.same(tt, want, "t_multilevel")
            # count data merges to the same times
            lc, mc = np.arange(p * n, 0, -1) * 2., np.arange(nl * n, 0, -1).reshape(nl, n) * 1.
            for b in (None, FIRST, MEAN, CHOOSE):
                args = () if b is None else (b,)
                x, c = rec.call("log_merge_count", mt.log_merge_count, lc, mc, *args)
                t, y = merged(effective_count(lc, n, MEAN if b is None else b), n)
                y = y[t < p * n]
                t = np.concatenate((t[t < p * n], 2 * p * merged(mc, n, False)[0]))
                rec.same(x, t, "log_merge_count:time")
                rec.check(bool(np.all(np.isfinite(c))) and c.shape == x.shape, "log_merge_count", "undefined counts")
                rec.same(c[:len(y)], y, "log_merge_count:fast:bin%s" % b)
                rec.same(c[len(y):], merged(mc, n, False)[1], "log_merge_count:slow")
                rec.trace()
    elif kind == "choose":
        L = case[1]
        data = ref.gdata((2, L), L, False) + np.arange(L) * 100
        for size in (2, 3):
            nl = levels_for(L, size)
            for ans in itertools.product((0.1, 0.49, 0.5, 0.9), repeat=min(nl, 3)):
                seq = iter(list(ans) + [0.3] * 10)
                old = np.random.rand
                np.random.rand = lambda *a: next(seq)
                rec.state("choose", L, size, ans)
                try:
                    m = rec.call("choose", mt.multilevel, data, size, CHOOSE)
                finally:
                    np.random.rand = old
                # the possible selections: one element of each pair, for all data alike
                pos = [[np.arange(L)]]
                for l in range(nl):
                    nxt = []
                    for idx in pos[-1]:
                        k = len(idx) // 2 * 2
                        nxt += [idx[0:k:2], idx[1:k:2]]
                    pos.append(nxt)

                def lev(idx):
                    w = np.full((2, size), np.nan)
                    w[:, :min(size, len(idx))] = data[:, idx[:size]]
                    return w
                for l in range(nl + 1):
                    rec.check(any(np.array_equal(m[l], lev(i), equal_nan=True) for i in pos[l]), "choose:L%d:size%d:level%d" % (L, size, l), "not a selection of the data: %s" % m[l])
                rec.trace()
    elif kind == "multi":
        _, k, method, cplx, norm = case
        for sh in ((), (3,), (3, 2)):
            A = m10.Prob(k, method, cplx, norm, sh, 0, 0, L=9, n=6)
            B = m10.Prob(k, method, cplx, norm, sh, 0, 2, L=8, n=3)
            B.bg1, B.bg2, B.v1, B.v2 = A.bg1, A.bg2, A.v1, A.v2
            bg, var = A.bgvar()
            masks = [None] + ([np.array([i % 2 == 0 for i in range(int(np.prod(sh)))]).reshape(sh)] if sh else [])
            for mode, scale, m in itertools.product(("corr", "diff"), (False, True), masks):
                rec.state(case, sh, mode, scale, m is not None)
                l, s = rec.call("normalize_multi", mt.normalize_multi, (A.data, B.data), bg, var, norm=norm, mode=mode, scale=scale, mask=m)
                for nm_, P, g in (("fast", A, l), ("slow", B, s)):
                    want = P.want(mode, scale)[0]
                    if m is not None:
                        want = want[..., m, :]
                    m10.compare(rec, "normalize_multi:%s:%s:norm%d:%s" % (nm_, k, norm, mode), g, want, P.nopairs, norm & 3 == 3)
                rec.trace()
            # default norm and names
            if norm == 7:
                l, s = mt.normalize_multi((A.data, B.data), bg, var)
                rec.same(l, A.want("corr", False)[0], "normalize_multi:default")
                l, s = mt.normalize_multi((A.data, B.data), bg, var, norm="subtracted|weighted")
                rec.same(s, B.want("corr", False)[0], "normalize_multi:name")
        for mode in ("abc", None):
            rec.raises("multi mode", ValueError, mt.normalize_multi, (A.data, B.data), bg, var, mode=mode)
        rec.raises("multi norm", ValueError, mt.normalize_multi, (A.data, B.data), bg, var, norm=4)
    elif kind == "multicount":
        _, p2, n = case
        count = n * 2 ** (p2 + 1)
        for period in (1, 2, 4):
            for b in (FIRST, MEAN, CHOOSE):
                for f in (mt.ccorr_multi_count, mt.acorr_multi_count):
                    rec.state("multicount", count, n, period, b, f.__name__)
                    cf, cs = rec.call("multi_count", f, count, period, n, b)
                    rec.check(cf.shape == (period * n,) and cs.shape == (p2 + 1, n), "multi_count:shape", "%s %s" % (cf.shape, cs.shape))
                    rec.check(bool(np.all(np.isfinite(cf)) and np.all(cf >= 0) and np.all(cs > 0)), "multi_count:positive", "%s %s" % (cf, cs))
                    cross = 2 if f is mt.ccorr_multi_count else 1
                    # pairs of one frame of each period; with averaging the effective number of independent pairs
                    full = np.arange(count, 0, -1) * float(cross)
                    slow = effective_count(full, n, b)[1:]
                    if b != MEAN:
                        slow = np.array([[cross * (count / 2. ** l - k) for k in range(n)] for l in range(1, p2 + 2)])
                    rec.same(cs, slow, "multi_count:slow:bin%d" % b)
                    if n % 2 == 0:
                        x, c = rec.call("log_merge_count", mt.log_merge_count, cf, cs, b)
                        increasing(rec, "multi_count", x)
                    rec.trace()
    elif kind == "kernel":
        for l in range(0, 9):
            h = 2 ** l
            want = np.array([(h - abs(d)) / float(h) ** 2 for d in range(-h + 1, h)])
            rec.state("kernel", l)
            rec.same(rec.call("kernel", mt.triangular_kernel, l), want, "triangular_kernel")
            rec.trace()
    elif kind == "errors":
        z = ref.gdata((9,), 1)
        r = ref.gdata((16,), 1, False)
        rec.state("errors")
        for f in (lambda: mt.multilevel(z, 2), lambda: mt.log_average(z, 2), lambda: mt.log_merge(z, z[None], fold=None)):
            rec.raises("fold unspecified", ValueError, f)
        for f in (lambda: mt.multilevel(r, 1), lambda: mt.multilevel(r, 0), lambda: mt.log_average(r, 0), lambda: mt.log_average(r, -1), lambda: mt.multilevel(r, 4, 3),
                  lambda: mt.log_merge(r, r[None], 5), lambda: mt.merge_multilevel(mt.multilevel(r, 4), "abc"), lambda: mt.log_merge(r, r[None, :3]),
                  lambda: mt.multilevel_count(r, 1)):
            rec.raises("bad argument", ValueError, f)
