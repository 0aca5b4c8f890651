"""C05: passing previous results as output accumulates the new data onto them."""
import itertools
import numpy as np
from mc import ref

PID = "C05"
RULE = ("state = accumulated history (sequence of operations so far); transition = one call that adds a data segment to the previous "
        "result; after every transition the whole tuple is compared with the sum of the reference results of all segments; all operation "
        "sequences up to the depth are enumerated")


def bounds(tier):
    return "all histories of depth <= %d over 6 segment operations (regular/irregular, time axis first/last, direct/fft, different lengths)" % (3 if tier == "quick" else 5)


# (method, kind, length/time sequences, axis position)
SEG = [
    ("corr", None, None, 4, 0),
    ("fft", None, None, 5, 0),
    ("corr", (0, 1, 4), (1, 2, 5), 3, 0),
    ("fft", (0, 2, 3), (0, 1, 6), 3, 0),
    ("corr", None, None, 6, -1),
    ("fft", None, None, 3, -1),
]
DSEG = [("diff", None, None, 4, 0), ("diff", (0, 1, 4), (1, 2, 5), 3, 0), ("diff", None, None, 6, -1), ("diff", (7, 9, 4), (6, 2, 5), 3, -1)]


def cases(tier):
    depth = 3 if tier == "quick" else 5
    out = []
    for fn in ("ccorr", "acorr"):
        for fam in ("c", "d"):
            segs = SEG if fam == "c" else DSEG
            for cplx in (False, True):
                if fam == "d" and cplx:
                    continue
                for norm in ((1, 2, 3, 5, 6, 7) if fam == "c" else (2, 6) if fn == "ccorr" else (2,)):
                    for first in range(len(segs)):
                        out.append((fn, fam, cplx, norm, first, depth))
    for fn in ("cross_correlate", "auto_correlate", "cross_difference", "auto_difference", "cross_sum", "auto_sum",
               "cross_correlate_fft", "auto_correlate_fft", "cross_sum_fft", "auto_sum_fft"):
        for cplx in (False, True):
            out.append(("low", fn, cplx))
    return out


def _low(case, rec):
    import cddm.core as core
    _, fn, cplx = case
    if cplx and ("diff" in fn or fn.startswith("auto_sum")):
        return
    f_ = getattr(core, fn)
    cross = fn.startswith("cross")
    irregular_only = fn in ("cross_sum_fft", "auto_sum_fft")
    acts = [(4, 0, None, None), (5, -1, None, None), (3, 0, (0, 2, 3), (1, 2, 4)), (3, 1, (5, 6, 9), (5, 7, 7 + 1))]
    if irregular_only:
        acts = acts[2:]
    n = 5
    full = cplx and cross
    for h in itertools.product(range(len(acts)), repeat=3):
        dt = complex if (cplx or "sum" in fn) else float
        acc = np.zeros((2, 2 * n - 1 if full else n), dt)
        want = acc.copy()
        for i, j in enumerate(h):
            L, ax, t1, t2 = acts[j]
            sh = (L, 2) if ax == 0 else (2, L)
            f1, f2 = ref.gdata(sh, i + 5 * j), ref.gdata(sh, 60 + i + 5 * j)
            F1, F2 = np.moveaxis(f1, ax, 0), np.moveaxis(f2, ax, 0)
            T1 = t1 or tuple(range(L)); T2 = t2 or tuple(range(L))
            kw = dict(axis=ax, aout=acc)
            if fn.startswith("cross_corr") or fn.startswith("cross_diff"):
                if cplx:
                    kw["complex"] = True
                r = rec.call("low:" + fn, f_, f1, f2, t1, t2, **kw)
                w = ref.cdiff(F1, F2, T1, T2, n) if "diff" in fn else (ref.ccorr_complex if cplx else ref.ccorr_real)(F1, F2, T1, T2, n)
            elif fn.startswith("cross_sum"):
                r = rec.call("low:" + fn, f_, f1, t1, t2, complex=cplx, **kw)
                w = ref.csum(F1, T1, T2, n, cplx)
            elif fn.startswith("auto_sum"):
                r = rec.call("low:" + fn, f_, f1, t1, **kw)
                w = ref.asum(F1, T1, n)
            else:
                if cplx:
                    kw["complex"] = True
                r = rec.call("low:" + fn, f_, f1, t1, **kw)
                w = ref.adiff(F1, T1, n) if "diff" in fn else (ref.acorr_complex if cplx else ref.acorr_real)(F1, T1, n)
            want = want + w
            key = "low:%s:c%d:%s" % (fn, cplx, h[:i + 1])
            rec.state(key)
            rec.same(r, want, key, rtol=1e-8, atol=1e-7)
            rec.same(acc, want, key + ":inplace", rtol=1e-8, atol=1e-7)
        rec.trace()


def run(case, rec):
    import cddm.core as core
    if case[0] == "low":
        return _low(case, rec)
    fn, fam, cplx, norm, first, depth = case
    segs = SEG if fam == "c" else DSEG
    n = 5

    def go(hist, acc, want):
        i = len(hist) - 1
        method, t1, t2, L, ax = segs[hist[-1]]
        sh = (L, 2) if ax == 0 else (2, L)
        f1, f2 = ref.gdata(sh, hist[-1] + 17 * i), ref.gdata(sh, 90 + hist[-1] + 17 * i)
        F1, F2 = np.moveaxis(f1, ax, 0), np.moveaxis(f2, ax, 0)
        T1 = t1 or tuple(range(L)); T2 = t2 or tuple(range(L))
        # accumulate onto private copies so that sibling histories start from the same state
        prev = None if acc is None else tuple(None if x is None else x.copy() for x in acc)
        kw = dict(axis=ax, norm=norm, method=method, n=n if prev is None else None, aout=prev, complex=cplx)
        key = "%s:c%d:norm%d:%s" % (fn, cplx, norm, hist)
        if fn == "ccorr":
            got = rec.call(key, core.ccorr, f1, f2, t1, t2, **kw)
            w = ref.ccorr_data(F1, F2, T1, T2, n, norm, "diff" if fam == "d" else "corr", cplx)
        else:
            got = rec.call(key, core.acorr, f1, t1, **kw)
            w = ref.acorr_data(F1, T1, n, norm, "diff" if fam == "d" else "corr", cplx)
        want = w if want is None else ref.add_data(want, w)
        rec.state(key)
        if not ref.same_data(_Tol(rec), got, want, key):
            return
        if prev is not None:    # the arrays that were passed in are the ones that were added to
            ref.same_data(_Tol(rec), prev, want, key + ":inplace")
        rec.trace()
        if len(hist) < depth:
            for j in range(len(segs)):
                go(hist + (j,), got, want)

    go((first,), None, None)


class _Tol:
    def __init__(self, rec):
        self.rec = rec

    def check(self, *a, **k):
        return self.rec.check(*a, **k)

    def same(self, g, w, key, msg=""):
        return self.rec.same(g, w, key, msg, rtol=1e-8, atol=1e-7)
