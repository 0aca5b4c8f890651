"""C01: correlation and difference functions equal their definition."""
import itertools
import numpy as np
from mc import ref

PID = "C01"
RULE = ("state = (function, dimensionality, axis, memory layout, time sequence pair, requested length, real/complex); "
        "transition = one call of the real function; trace = one call whose whole result was compared element by element with "
        "the double-loop definition on generic Gaussian-integer data and on the complete impulse basis (a result is a "
        "sesquilinear form of the data with data-independent control flow, so the basis fixes it for all inputs)")
ASSUMPTIONS = ["kernel control flow depends on shapes, times and parameters only, not on signal values (so the impulse basis is complete)"]


def bounds(tier):
    return ("regular data: lengths 1..6 (thorough 9), 1-D/2-D/3-D/4-D, every axis, 3 memory layouts, aligned or not, n in None,1..L+2; "
            "irregular: every pair of equal-size subsets of {0..%d} with 1..%d frames, offsets, unordered sequences" % ((5, 3) if tier == "quick" else (7, 4))) + "; 11 data types x 9 types of time stamps; a few instances with up to 260 frames and up to 1320 pixels"


def cases(tier):
    out = []
    L = 6 if tier == "quick" else 9
    # impulse basis on regular data: all impulse pairs are channels of one call
    for fn in ("cc", "ccx", "ac", "acx", "cd", "ad"):
        for n in range(1, L + 1):
            out.append(("impulse", fn, n))
    shapes = [(None,), (None, 3), (3, None), (None, 2, 3), (2, None, 3), (2, 3, None), (2, None, 1, 2), (1, None), (None, 1)]
    for fn in ("cc", "ccx", "ac", "acx", "cd", "ad"):
        for sh in shapes:
            for ln in range(1, L + 1):
                for lay in ("C", "F", "S"):
                    out.append(("regular", fn, sh, ln, lay))
    for fn in ("cc", "ac", "cd", "ad", "ccx", "acx"):
        for dt in ("int", "float32", "complex64", "float64", "list"):
            out.append(("dtype", fn, dt))
        for dt in ref.DATA_TYPES:
            out.append(("types", fn, dt))
    U, K = (6, 3) if tier == "quick" else (8, 4)
    for fn in ("cc", "ccx", "cd"):
        for k in range(1, K + 1):
            S = ref.subsets(U, k)
            for a in S:
                out.append(("irr2", fn, a, U))
    for fn in ("ac", "acx", "ad"):
        for k in range(1, K + 1):
            for a in ref.subsets(U, k):
                out.append(("irr1", fn, a))
    for fn in ("cc", "ccx", "cd", "ac", "acx", "ad"):
        for a in itertools.permutations(range(0, 6, 2)):
            out.append(("perm", fn, a))
        for a in itertools.product((0, 2, 3), repeat=3):
            out.append(("perm", fn, a))       # including repeated times
    for fn in ("cc", "ccx", "cd", "ac", "acx", "ad"):
        out.append(("shape_errors", fn))
    for fn in ("cc", "ccx", "cd", "ac", "acx", "ad"):
        for ln, rest in ((31, ()), (32, (3,)), (33, (2, 5)), (64, (1,)), (129, (2,)), (260, ()), (5, (40, 33)), (9, (1, 300)), (4, (1100,))):
            out.append(("large", fn, ln, rest))
    return out


def _layout(f, lay):
    if lay == "C":
        return np.ascontiguousarray(f)
    if lay == "F":
        return np.asfortranarray(f)
    big = np.zeros(tuple(2 * s for s in f.shape), f.dtype) + 777
    big[tuple(slice(None, None, 2) for _ in f.shape)] = f
    return big[tuple(slice(None, None, 2) for _ in f.shape)]


def _run(rec, key, fn, f1, f2, t1, t2, axis, n, align=False):
    import cddm.core as core
    if fn in ("cc", "ccx"):
        return rec.call(key, core.cross_correlate, f1, f2, t1, t2, axis=axis, n=n, align=align, complex=(fn == "ccx"))
    if fn == "cd":
        return rec.call(key, core.cross_difference, f1, f2, t1, t2, axis=axis, n=n, align=align)
    if fn in ("ac", "acx"):
        return rec.call(key, core.auto_correlate, f1, t1, axis=axis, n=n, align=align, complex=(fn == "acx"))
    return rec.call(key, core.auto_difference, f1, t1, axis=axis, n=n, align=align)


def _want(fn, F1, F2, t1, t2, n):
    """F1, F2 time axis first"""
    if fn == "cc":
        return ref.ccorr_real(F1, F2, t1, t2, n)
    if fn == "ccx":
        return ref.ccorr_complex(F1, F2, t1, t2, n)
    if fn == "cd":
        return ref.cdiff(F1, F2, t1, t2, n)
    if fn == "ac":
        return ref.acorr_real(F1, t1, n)
    if fn == "acx":
        return ref.acorr_complex(F1, t1, n)
    return ref.adiff(F1, t1, n)


def run(case, rec):
    kind, fn = case[0], case[1]
    cross = fn in ("cc", "ccx", "cd")
    if kind == "impulse":
        L = case[2]
        # channel (i, j, phase): f1 = delta_i, f2 = phase * delta_j ; auto: delta_i + phase * delta_j
        f1 = np.zeros((L, L, L, 2), complex); f2 = np.zeros((L, L, L, 2), complex)
        for i in range(L):
            for j in range(L):
                for p, ph in enumerate((1, 1j)):
                    f1[i, i, j, p] += 1
                    f2[j, i, j, p] += ph
                    if not cross:
                        f1[j, i, j, p] += ph
        t = np.arange(L)
        want = _want(fn, f1, f2, t, t, L)
        for axis, data in ((0, (f1, f2)), (-1, tuple(np.ascontiguousarray(np.moveaxis(x, 0, -1)) for x in (f1, f2)))):
            for tt in (None, t):
                got = _run(rec, "impulse", fn, data[0], data[1], tt, tt, axis, None)
                rec.state(case, axis, tt is None)
                rec.same(got, want, "impulse:%s:L%d:axis%d:%s" % (fn, L, axis, "reg" if tt is None else "irr"))
                rec.trace(L * L * 2)
        return
    if kind == "regular":
        _, _, sh, ln, lay = case
        shape = tuple(ln if s is None else s for s in sh)
        ax = sh.index(None)
        f1 = ref.gdata(shape, 1 + ln); f2 = ref.gdata(shape, 100 + ln)
        F1, F2 = np.moveaxis(f1, ax, 0), np.moveaxis(f2, ax, 0)
        a, b = _layout(f1, lay), _layout(f2, lay)
        t = np.arange(ln)
        for n in [None] + list(range(1, ln + 3)):
            want = _want(fn, F1, F2, t, t, ln if n is None else n)
            for axis in (ax, ax - len(shape)):
                for align in (False, True):
                    key = "regular:%s:%s:L%d:%s:axis%d:align%d:n%s" % (fn, sh, ln, lay, axis, align, n)
                    rec.state(case, n, axis, align)
                    got = _run(rec, key, fn, a, b, None, None, axis, n, align)
                    rec.same(got, want, key)
                    rec.trace()
        return
    if kind == "large":
        # sizes beyond any unrolling, buffer or threading threshold, full and short delay ranges
        _, _, ln, rest = case
        f1, f2 = ref.gdata((ln,) + rest, 5 + ln), ref.gdata((ln,) + rest, 105 + ln)
        # regular; irregular: gaps of 1..3 (first camera), and a lagging second one
        g1 = [i + i // 3 + i // 7 for i in range(ln)]
        g2 = [i + i // 2 + i // 5 - 2 for i in range(ln)]
        for t1, t2 in ((None, None), (g1, g2)):
            a, b = (t1, t2) if t1 else (list(range(ln)),) * 2
            nfull = ref.full_n_cross(a, b) if cross else ref.full_n_auto(a)
            full = _want(fn, f1, f2, a, b, nfull)
            for n in (None, nfull, max(1, nfull // 3), 1, nfull + 5):
                nn = nfull if n is None else n
                want = full
                if nn != nfull:
                    want = _want(fn, f1, f2, a, b, nn) if nn < 4 or fn == "ccx" or nn > nfull else full[..., :nn]
                for axis in (0, -1):
                    x, y = (f1, f2) if axis == 0 else tuple(np.ascontiguousarray(np.moveaxis(v, 0, -1)) for v in (f1, f2))
                    rec.state(case, t1 is None, n, axis)
                    rec.same(_run(rec, "large", fn, x, y, t1, t2, axis, n), want, "large:%s:L%d:%s:n%s" % (fn, ln, "reg" if t1 is None else "irr", n))
                    rec.trace()
        return
    if kind == "types":
        dt = case[2]
        f1, f2 = ref.typed((7, 2), 3, dt), ref.typed((7, 2), 4, dt)
        t1, t2 = [0, 2, 3, 7, 8, 9, 120], [1, 2, 5, 6, 8, 10, 119]
        for a, b in ((t1, t2), (t1, t1), (t2[::-1], t1)):
            want = _want(fn, f1.astype(complex), f2.astype(complex), a, b, 12)
            for tt in ref.TIME_TYPES:
                for t_ in (tt,) if not cross else (tt, "int64", "uint8"):
                    rec.state(case, a[0], b[0], tt, t_)
                    got = _run(rec, "types", fn, f1, f2, ref.typed_times(a, tt), ref.typed_times(b, t_), 0, 12)
                    rec.same(got, want, "types:%s:%s:%s:%s" % (fn, dt, tt, t_))
                    rec.trace()
        want = _want(fn, f1.astype(complex), f2.astype(complex), range(7), range(7), 7)
        rec.same(_run(rec, "types", fn, f1, f2, None, None, 0, None), want, "types:%s:%s:regular" % (fn, dt))
        return
    if kind == "dtype":
        dt = case[2]
        f1 = ref.gdata((5, 2), 3); f2 = ref.gdata((5, 2), 4)
        if dt == "int":
            f1, f2 = f1.real.astype(int), f2.real.astype(int)
        elif dt == "list":
            f1, f2 = f1.tolist(), f2.tolist()
        else:
            f1 = (f1 if "complex" in dt else f1.real).astype(dt); f2 = (f2 if "complex" in dt else f2.real).astype(dt)
        t = np.arange(5)
        want = _want(fn, np.asarray(f1).astype(complex), np.asarray(f2).astype(complex), t, t, 5)
        for tt in (None, list(range(5)), np.arange(5, dtype="int32"), tuple(range(5))):
            rec.state(case, type(tt).__name__)
            got = _run(rec, "dtype", fn, f1, f2, tt, tt, 0, None)
            rec.same(got, want, "dtype:%s:%s:t=%s" % (fn, dt, type(tt).__name__))
            rec.trace()
        return
    if kind in ("irr2", "irr1", "perm"):
        a = case[2]
        k = len(a)
        seconds = ref.subsets(case[3], k) if kind == "irr2" else [a] if kind == "irr1" else \
            ([tuple(reversed(a)), tuple(sorted(a)), a] if cross else [a])
        for b in seconds:
            for off in (0, -5, 11):
                t1 = [x + off for x in a]; t2 = [x + off for x in b]
                nfull = ref.full_n_cross(t1, t2) if cross else ref.full_n_auto(t1)
                for sh in ((k,), (k, 3), (2, k, 2)) if off == 0 else ((k, 2),):
                    ax = sh.index(k) if sh != (2, k, 2) else 1
                    f1 = ref.gdata(sh, k + len(sh)); f2 = ref.gdata(sh, 50 + k + len(sh))
                    F1, F2 = np.moveaxis(f1, ax, 0), np.moveaxis(f2, ax, 0)
                    for n in (None, 1, max(1, nfull - 1), nfull + 2):
                        key = "irr:%s:t1=%s:t2=%s:%s:n%s" % (fn, t1, t2, sh, n)
                        rec.state(fn, tuple(t1), tuple(t2), sh, n)
                        got = _run(rec, key, fn, f1, f2, t1, t2, ax, n)
                        rec.same(got, _want(fn, F1, F2, t1, t2, nfull if n is None else n), key)
                        rec.trace()
        return
    if kind == "shape_errors" and cross:
        import cddm.core as core
        f = ref.gdata((4, 2), 1)
        rec.state(case)
        for bad in (ref.gdata((5, 2), 1), ref.gdata((4, 3), 1), ref.gdata((4,), 1)):
            rec.raises("mismatched input shapes must be rejected", ValueError, _plain, fn, f, bad, None, None)
        rec.raises("one time array only must be rejected", ValueError, _plain, fn, f, f, [0, 1, 2, 3], None)
        rec.trace()


def _plain(fn, f1, f2, t1, t2):
    import cddm.core as core
    return core.cross_difference(f1, f2, t1, t2) if fn == "cd" else core.cross_correlate(f1, f2, t1, t2, complex=(fn == "ccx"))
