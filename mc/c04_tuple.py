"""C04: the result tuple carries, at every delay, exactly the sums of the frame pairs that were correlated."""
import numpy as np
from mc import ref
from mc.c01_corr import _layout

PID = "C04"
RULE = ("state = (function, method, norm, real/complex, dimensionality, axis, layout, time sequences, n, precomputed squares or not); "
        "transition = one call; trace = one complete result tuple (correlation, count, square sum, both signal sums) compared entry by "
        "entry with the definition, including which entries are present")
NORMS = {"corr": (None, 1, 2, 3, 5, 6, 7), "fft": (None, 1, 2, 3, 5, 6, 7), "diff": (None, 2, 6)}


def bounds(tier):
    return "lengths 1..%d regular; subsets of {0..%d} up to 3 frames irregular; 1-D/2-D/3-D, every axis, C/F/strided, aligned or not; all methods and norms" % ((5, 4) if tier == "quick" else (8, 5))


def cases(tier):
    out = []
    L, U = (5, 5) if tier == "quick" else (8, 6)
    shapes = [(None,), (None, 3), (3, None), (None, 2, 2), (2, None, 2), (2, 2, None)]
    for fn in ("ccorr", "acorr"):
        for method in ("corr", "fft", "diff", None):
            for cplx in (False, True):
                if cplx and method == "diff":
                    continue
                for sh in shapes:
                    for ln in range(1, L + 1):
                        out.append(("regular", fn, method, cplx, sh, ln))
                for k in range(1, 4):
                    for a in ref.subsets(U, k):
                        out.append(("irr", fn, method, cplx, a, U))
                for a in ((3, 0, 1), (2, 4, 0)):
                    out.append(("irr", fn, method, cplx, a, U))
    for sh in shapes:
        for ln in range(1, L + 1):
            out.append(("sum", sh, ln))
    for k in range(1, 4):
        for a in ref.subsets(U, k):
            out.append(("sumirr", a, U))
    out.append(("errors",))
    return out


def norms(fn, method):
    if fn == "acorr" and method == "diff":
        return (None, 2)
    return NORMS[method]


def default_norm(fn, method):
    return (2 if fn == "acorr" else 6) if method == "diff" else 7


def _one(rec, key, fn, method, cplx, norm, f1, f2, ax, t1, t2, n, pre, align=False):
    import cddm.core as core
    m_eff = method or ("fft" if n is None else "corr")
    norm_eff = default_norm(fn, m_eff) if norm is None else norm
    F1, F2 = np.moveaxis(f1, ax, 0), np.moveaxis(f2, ax, 0)
    kw = dict(n=n, norm=norm, method=method, align=align, axis=ax, complex=cplx)
    L = F1.shape[0]
    T1 = np.arange(L) if t1 is None else t1
    T2 = np.arange(L) if t2 is None else t2
    if fn == "ccorr":
        if pre:
            kw.update(f1s=f1.real ** 2 + f1.imag ** 2, f2s=f2.real ** 2 + f2.imag ** 2)
        got = rec.call(key, core.ccorr, f1, f2, t1, t2, **kw)
        nn = n if n is not None else ref.full_n_cross(T1, T2)
        want = ref.ccorr_data(F1, F2, T1, T2, nn, norm_eff, m_eff, cplx)
    else:
        if pre:
            kw.update(fs=f1.real ** 2 + f1.imag ** 2)
        got = rec.call(key, core.acorr, f1, t1, **kw)
        nn = n if n is not None else ref.full_n_auto(T1)
        want = ref.acorr_data(F1, T1, nn, norm_eff, m_eff, cplx)
    ref_tol(rec, got, want, key)
    rec.trace()


def ref_tol(rec, got, want, key):
    ref.same_data(rec, got, want, key)


def run(case, rec):
    import cddm.core as core
    kind = case[0]
    if kind == "regular":
        _, fn, method, cplx, sh, ln = case
        shape = tuple(ln if s is None else s for s in sh)
        ax0 = sh.index(None)
        f1, f2 = ref.gdata(shape, ln), ref.gdata(shape, ln + 40)
        for lay in ("C", "S"):
            a, b = _layout(f1, lay), _layout(f2, lay)
            for ax in (ax0, ax0 - len(shape)):
                for align in (False, True):
                    for n in (None, 1, ln, ln + 2):
                        for norm in norms(fn, method or ("fft" if n is None else "corr")):
                            for pre in (False, True) if (norm or 7) & 2 and method != "diff" else (False,):
                                key = "%s:%s:c%d:%s:L%d:%s:ax%d:al%d:n%s:norm%s:pre%d" % (fn, method, cplx, sh, ln, lay, ax, align, n, norm, pre)
                                rec.state(key)
                                _one(rec, key, fn, method, cplx, norm, a, b, ax, None, None, n, pre, align)
    elif kind == "irr":
        _, fn, method, cplx, a, U = case
        k = len(a)
        for b in (ref.subsets(U, k) if fn == "ccorr" else [a]):
            for off in (0, -3):
                t1, t2 = [x + off for x in a], [x + off for x in b]
                full = ref.full_n_cross(t1, t2) if fn == "ccorr" else ref.full_n_auto(t1)
                for sh in ((k,), (k, 2), (2, k)):
                    ax = 1 if sh == (2, k) and k != 2 else 0
                    f1, f2 = ref.gdata(sh, k), ref.gdata(sh, k + 40)
                    for n in (None, 2, full + 2):
                        for norm in (None, 1, 3, 6) if method != "diff" else (None, 2):
                            if fn == "acorr" and method == "diff" and norm == 6:
                                continue
                            key = "%s:%s:c%d:t1=%s:t2=%s:%s:n%s:norm%s" % (fn, method, cplx, t1, t2, sh, n, norm)
                            rec.state(key)
                            _one(rec, key, fn, method, cplx, norm, f1, f2, ax, t1, t2 if fn == "ccorr" else None, n, False)
    elif kind == "sum":
        _, sh, ln = case
        shape = tuple(ln if s is None else s for s in sh)
        ax = sh.index(None)
        t = np.arange(ln)
        for cp in (False, True):
            f = ref.gdata(shape, ln + 7, cplx=cp)
            F = np.moveaxis(f, ax, 0)
            for lay in ("C", "F", "S"):
                g = _layout(f, lay)
                for n in [None] + list(range(1, ln + 3)):
                    nn = ln if n is None else n
                    key = "sum:%s:L%d:%s:cp%d:n%s" % (sh, ln, lay, cp, n)
                    rec.state(key)
                    for al in (False, True):
                        rec.same(rec.call(key, core.auto_sum, g, axis=ax, n=n, align=al), ref.asum(F, t, nn), key + ":auto")
                        rec.same(rec.call(key, core.cross_sum, g, axis=ax, n=n, align=al), ref.csum(F, t, t, nn), key + ":cross")
                        for inv in (False, True):
                            rec.same(rec.call(key, core.cross_sum, g, axis=ax, n=n, align=al, complex=True, time_inversion=inv),
                                     ref.csum(F, t, t, nn, True, inv), key + ":signed:inv%d" % inv)
                    rec.trace(4)
    elif kind == "sumirr":
        _, a, U = case
        k = len(a)
        for b in ref.subsets(U, k):
            for off in (0, 6):
                t1, t2 = [x + off for x in a], [x + off for x in b]
                for cp in (False, True):
                    for sh in ((k,), (k, 2)):
                        f = ref.gdata(sh, k + 3, cplx=cp)
                        for n in (None, 1, U + 2):
                            nn = ref.full_n_cross(t1, t2) if n is None else n
                            key = "sumirr:%s:%s:%s:cp%d:n%s" % (t1, t2, sh, cp, n)
                            rec.state(key)
                            rec.same(rec.call(key, core.cross_sum, f, t1, t2, n=n), ref.csum(f, t1, t2, nn), key + ":cross")
                            for inv in (False, True):
                                rec.same(rec.call(key, core.cross_sum, f, t1, t2, n=n, complex=True, time_inversion=inv),
                                         ref.csum(f, t1, t2, nn, True, inv), key + ":signed:inv%d" % inv)
                            na = ref.full_n_auto(t1) if n is None else n
                            rec.same(rec.call(key, core.auto_sum, f, t1, n=n), ref.asum(f, t1, na), key + ":auto")
                            rec.trace(4)
    elif kind == "errors":
        f = ref.gdata((4, 2), 2)
        rec.state("errors")
        for bad in (0, 4, 8, 9, 15, 99):
            rec.raises("unsupported norm", ValueError, core.ccorr, f, f, norm=bad, method="corr")
            rec.raises("unsupported norm", ValueError, core.acorr, f, norm=bad, method="corr")
        for bad in (1, 3, 5, 7):
            rec.raises("unsupported norm", ValueError, core.ccorr, f, f, norm=bad, method="diff")
        rec.raises("unknown method", ValueError, core.ccorr, f, f, method="abc")
        rec.raises("unknown method", ValueError, core.acorr, f, method="abc")
        rec.raises("shape", ValueError, core.ccorr, f, f[:3])
        rec.raises("one time array", ValueError, core.ccorr, f, f, [0, 1, 2, 3])
        rec.trace()
