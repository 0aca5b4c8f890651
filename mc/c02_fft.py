"""C02: the FFT based evaluation gives the same result as direct evaluation."""
import numpy as np
from mc import ref
from mc.c01_corr import _layout

PID = "C02"
RULE = ("state = (function, fft library, layout/axis or time sequences, requested length); transition = one call; trace = one call of "
        "the FFT variant compared element by element with the double-loop definition; every fft library and every library-switch "
        "order is enumerated")
ASSUMPTIONS = ["distinct integer frame times within one signal", "mkl_fft is not installed here and is not explored"]
LIBS = ("numpy", "scipy", "pyfftw")


def bounds(tier):
    return "libraries numpy, scipy, pyfftw; regular lengths 1..%d; irregular: pairs of subsets of {0..%d}; n from 1 to beyond the longest delay; every axis of 1..4-dimensional arrays" % ((5, 4) if tier == "quick" else (8, 6)) + "; 11 data types and 9 types of time stamps; a few instances with up to 257 frames (every length 6..40) and up to 1320 pixels"


def cases(tier):
    out = []
    L = 5 if tier == "quick" else 8
    U, K = (5, 3) if tier == "quick" else (7, 4)
    for lib in LIBS:
        for fn in ("cc", "ccx", "ac", "acx"):
            for sh in ((None,), (None, 3), (3, None), (None, 2, 2), (2, None, 2), (2, 2, None)):
                for ln in range(1, L + 1):
                    out.append(("regular", lib, fn, sh, ln))
    for lib in LIBS:
        for fn in ("cc", "ccx", "ac", "acx"):
            for k in range(1, K + 1):
                for a in ref.subsets(U, k):
                    out.append(("irr", lib, fn, a, U))
        for fn in ("cc", "ccx", "ac", "acx"):
            for a in ((3, 0, 1), (4, 2, 0), (0, 2, 1)):
                out.append(("irr", lib, fn, a, U))
        for fn in ("cs", "csx", "as"):
            for k in range(1, K + 1):
                for a in ref.subsets(U, k):
                    out.append(("sum", lib, fn, a, U))
        for fn in ("cs", "csx", "as", "cc", "ccx", "ac", "acx"):
            for sh in ((None,), (None, 3), (3, None), (None, 2, 3), (2, None, 3), (2, 3, None), (3, 2, None), (2, None, 2, 3), (2, 3, None, 2), (3, 1, 2, None)):
                out.append(("axis", lib, fn, sh))
    for fn in ("cc", "ac"):
        out.append(("switch", fn))
    for lib in LIBS:
        for fn in ("cc", "ccx", "ac", "acx", "cs", "csx", "as"):
            for ln in list(range(6, 41)) + [63, 64, 65, 97, 128, 131, 257]:
                out.append(("large", lib, fn, ln, ()))
            out.append(("large", lib, fn, 9, (40, 33)))
            out.append(("large", lib, fn, 5, (1100,)))
    for lib in LIBS:
        for fn in ("cc", "ccx", "ac", "acx"):
            for dt in ref.DATA_TYPES:
                out.append(("types", lib, fn, dt))
    return out


def _set(lib):
    import cddm.conf
    cddm.conf.set_fftlib(lib)


def _fftcall(rec, key, fn, f1, f2, t1, t2, axis, n):
    import cddm.core as core
    if fn in ("cc", "ccx"):
        return rec.call(key, core.cross_correlate_fft, f1, f2, t1, t2, axis=axis, n=n, complex=(fn == "ccx"))
    return rec.call(key, core.auto_correlate_fft, f1, t1, axis=axis, n=n, complex=(fn == "acx"))


def _want(fn, F1, F2, t1, t2, n):
    return {"cc": lambda: ref.ccorr_real(F1, F2, t1, t2, n), "ccx": lambda: ref.ccorr_complex(F1, F2, t1, t2, n),
            "ac": lambda: ref.acorr_real(F1, t1, n), "acx": lambda: ref.acorr_complex(F1, t1, n)}[fn]()


def run(case, rec):
    import cddm.core as core
    kind = case[0]
    if kind == "regular":
        _, lib, fn, sh, ln = case
        _set(lib)
        shape = tuple(ln if s is None else s for s in sh)
        ax = sh.index(None)
        f1, f2 = ref.gdata(shape, 1 + ln), ref.gdata(shape, 70 + ln)
        F1, F2 = np.moveaxis(f1, ax, 0), np.moveaxis(f2, ax, 0)
        t = np.arange(ln)
        for lay in ("C", "F", "S"):
            a, b = _layout(f1, lay), _layout(f2, lay)
            for n in [None] + list(range(1, 2 * ln + 3)):
                key = "fft:%s:%s:%s:L%d:%s:n%s" % (lib, fn, sh, ln, lay, n)
                rec.state(case, lay, n)
                got = _fftcall(rec, key, fn, a, b, None, None, ax if lay != "F" else ax - len(shape), n)
                rec.same(got, _want(fn, F1, F2, t, t, ln if n is None else n), key, rtol=1e-8, atol=1e-8)
                rec.check(np.array_equal(a, f1) and np.array_equal(b, f2), key + ":input", "input modified by the fft")
                rec.trace()
        return
    if kind == "irr":
        _, lib, fn, a, U = case
        _set(lib)
        k = len(a)
        cross = fn in ("cc", "ccx")
        for b in (ref.subsets(U, k) if cross else [a]):
            for off in (0, -4, 9):
                t1, t2 = [x + off for x in a], [x + off for x in b]
                full = ref.full_n_cross(t1, t2) if cross else ref.full_n_auto(t1)
                for sh in ((k,), (k, 2)):
                    f1, f2 = ref.gdata(sh, k), ref.gdata(sh, k + 30)
                    for n in (None, 1, 2, full, full + 1, 2 * full + 1):
                        key = "fft-irr:%s:%s:t1=%s:t2=%s:%s:n%s" % (lib, fn, t1, t2, sh, n)
                        rec.state(lib, fn, tuple(t1), tuple(t2), sh, n)
                        got = _fftcall(rec, key, fn, f1, f2, t1, t2, 0, n)
                        rec.same(got, _want(fn, f1, f2, t1, t2, full if n is None else n), key, rtol=1e-8, atol=1e-8)
                        rec.trace()
        return
    if kind == "sum":
        _, lib, fn, a, U = case
        _set(lib)
        k = len(a)
        for b in (ref.subsets(U, k) if fn != "as" else [a]):
            for off in (0, 3):
                t1, t2 = [x + off for x in a], [x + off for x in b]
                full = ref.full_n_cross(t1, t2) if fn != "as" else ref.full_n_auto(t1)
                for cplx in (False, True):
                    f = ref.gdata((k, 2), k + 5, cplx=cplx)
                    for n in (None, 1, full, 2 * full + 1):
                        nn = full if n is None else n
                        key = "fftsum:%s:%s:t1=%s:t2=%s:cplx%d:n%s" % (lib, fn, t1, t2, cplx, n)
                        rec.state(lib, fn, tuple(t1), tuple(t2), cplx, n)
                        if fn == "as":
                            got = rec.call(key, core.auto_sum_fft, f, t1, axis=0, n=n)
                            rec.same(got, ref.asum(f, t1, nn), key, rtol=1e-8, atol=1e-8)
                        else:
                            for inv in (False, True):
                                if inv and fn == "cs":
                                    continue
                                got = rec.call(key, core.cross_sum_fft, f, t1, t2, axis=0, n=n, complex=(fn == "csx"), time_inversion=inv)
                                rec.same(got, ref.csum(f, t1, t2, nn, fn == "csx", inv), key + ":inv%d" % inv, rtol=1e-8, atol=1e-8)
                        rec.trace()
        return
    if kind == "axis":
        # irregular data along every axis of 1..4-dimensional arrays, positive and negative axis, three memory layouts
        _, lib, fn, sh = case
        _set(lib)
        ax = sh.index(None)
        for t1, t2 in (([0], [0]), ([0, 1], [0, 2]), ([1, 4, 6], [0, 4, 5]), ([5, 0, 2, 3], [1, 7, 3, 4])):
            k = len(t1)
            shape = tuple(k if s is None else s for s in sh)
            f1, f2 = ref.gdata(shape, 3 + k), ref.gdata(shape, 50 + k)
            F1, F2 = np.moveaxis(f1, ax, 0), np.moveaxis(f2, ax, 0)
            full = ref.full_n_auto(t1) if fn[0] == "a" else ref.full_n_cross(t1, t2)
            for lay in ("C", "F", "S"):
                a, b = _layout(f1, lay), _layout(f2, lay)
                for axis in (ax, ax - len(shape)):
                    for n in (None, 2):
                        key = "fft-axis:%s:%s:%s:t1=%s:%s:axis%d:n%s" % (lib, fn, sh, t1, lay, axis, n)
                        rec.state(case, tuple(t1), lay, axis, n)
                        nn = full if n is None else n
                        if fn == "as":
                            got, want = rec.call(key, core.auto_sum_fft, a, t1, axis=axis, n=n), ref.asum(F1, t1, nn)
                        elif fn in ("cs", "csx"):
                            got = rec.call(key, core.cross_sum_fft, a, t1, t2, axis=axis, n=n, complex=(fn == "csx"))
                            want = ref.csum(F1, t1, t2, nn, fn == "csx", False)
                        else:
                            got, want = _fftcall(rec, key, fn, a, b, t1, t2, axis, n), _want(fn, F1, F2, t1, t2, nn)
                        rec.same(got, want, key, rtol=1e-8, atol=1e-8)
                        rec.check(np.array_equal(a, f1) and np.array_equal(b, f2), key + ":input", "input modified by the fft")
                        rec.trace()
        return
    if kind == "types":
        _, lib, fn, dt = case
        _set(lib)
        f1, f2 = ref.typed((7, 2), 3, dt, False), ref.typed((7, 2), 4, dt, False)
        t1, t2 = [0, 2, 3, 7, 8, 9, 120], [1, 2, 5, 6, 8, 10, 119]
        tol = dict(rtol=1e-4, atol=1e-3 * float(np.abs(f1.astype(complex)).max()) ** 2) if dt in ("float32", "complex64") else dict(rtol=1e-8, atol=1e-6)
        for a, b in ((t1, t2), (t1, t1)):
            want = _want(fn, f1.astype(complex), f2.astype(complex), a, b, 12)
            for tt in ref.TIME_TYPES if dt in ("uint8", "complex64") else ("list",):
                for t_ in (tt, "int64", "uint8"):
                    rec.state(case, a[0], b[0], tt, t_)
                    keep = f1.copy()
                    got = _fftcall(rec, "types", fn, f1, f2, ref.typed_times(a, tt), ref.typed_times(b, t_), 0, 12)
                    rec.same(got, want, "fft-types:%s:%s:%s:%s" % (fn, dt, tt, t_), **tol)
                    rec.check(np.array_equal(f1, keep), "fft-types:input")
                    rec.trace()
        rec.same(_fftcall(rec, "types", fn, f1, f2, None, None, 0, None), _want(fn, f1.astype(complex), f2.astype(complex), range(7), range(7), 7), "fft-types:%s:%s:regular" % (fn, dt), **tol)
        return
    if kind == "large":
        # every transform length up to 80 and some larger ones
        _, lib, fn, ln, rest = case
        _set(lib)
        f1, f2 = ref.gdata((ln,) + rest, 5 + ln), ref.gdata((ln,) + rest, 105 + ln)
        g1 = [i + i // 3 + i // 7 for i in range(ln)]
        g2 = [i + i // 2 + i // 5 - 2 for i in range(ln)]
        for t1, t2 in ((None, None), (g1, g2)):
            if t1 is None and fn in ("cs", "csx", "as"):
                bad = (lambda: core.auto_sum_fft(f1, None, axis=0)) if fn == "as" else (lambda: core.cross_sum_fft(f1, None, None, axis=0))
                rec.raises("sum_fft of regular data", (ValueError, TypeError), bad)
                continue
            a, b = (t1, t2) if t1 else (list(range(ln)),) * 2
            full = ref.full_n_auto(a) if fn[0] == "a" else ref.full_n_cross(a, b)
            for n in (None, full // 3 + 1, full + 3) if ln < 60 else (None, full // 3 + 1):
                nn = full if n is None else n
                key = "fft-large:%s:L%d:%s:n%s" % (fn, ln, "reg" if t1 is None else "irr", n)
                if fn == "as":
                    want, run_ = ref.asum(f1, a, nn), lambda x, y, ax: rec.call(key, core.auto_sum_fft, x, t1, axis=ax, n=n)
                elif fn in ("cs", "csx"):
                    want, run_ = ref.csum(f1, a, b, nn, fn == "csx", False), lambda x, y, ax: rec.call(key, core.cross_sum_fft, x, t1, t2, axis=ax, n=n, complex=(fn == "csx"))
                else:
                    want, run_ = _want(fn, f1, f2, a, b, nn), lambda x, y, ax: _fftcall(rec, key, fn, x, y, t1, t2, ax, n)
                for axis in (0, -1):
                    x, y = (f1, f2) if axis == 0 else tuple(np.ascontiguousarray(np.moveaxis(v, 0, -1)) for v in (f1, f2))
                    rec.state(case, t1 is None, n, axis)
                    rec.same(run_(x, y, axis), want, key, rtol=1e-8, atol=1e-6)
                    rec.trace()
        return
    if kind == "switch":
        # every ordered pair of libraries, alternating, on the same data (cached plans must not leak results)
        import itertools
        fn = case[1]
        for seq in itertools.product(LIBS, repeat=4):
            for j, lib in enumerate(seq):
                _set(lib)
                ln = 3 + (j % 2)
                f1, f2 = ref.gdata((ln, 2), j), ref.gdata((ln, 2), j + 9)
                t = np.arange(ln)
                rec.state(seq[:j + 1], fn)
                key = "switch:%s:%s:%d" % (fn, seq, j)
                got = _fftcall(rec, key, fn, f1, f2, None, None, 0, None)
                rec.same(got, _want(fn, f1, f2, t, t, ln), key, rtol=1e-8, atol=1e-8)
            rec.trace()
