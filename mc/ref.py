"""Reference models: deliberately boring, loop-based, exact on integer data (everything stays < 2**53)."""
import numpy as np
from itertools import combinations, permutations, product


def gdata(shape, salt=1, cplx=True, lo=-9, hi=9):
    """Generic (deterministic, seed independent) Gaussian-integer data."""
    n = int(np.prod(shape)) if len(shape) else 1
    # multiplicative congruential sequence: no numpy RNG involved
    x = 48271 * (salt + 11) % 2147483647
    out = np.empty(2 * n, dtype=np.int64)
    for i in range(2 * n):
        x = x * 48271 % 2147483647
        out[i] = lo + (x >> 5) % (hi - lo + 1)
    re = out[0::2].reshape(shape).astype(float)
    im = out[1::2].reshape(shape).astype(float)
    return re + 1j * im if cplx else re


DATA_TYPES = ("uint8", "uint16", "int8", "int16", "int32", "uint32", "int64", "float32", "float64", "bool", "complex64")
TIME_TYPES = ("uint8", "int8", "uint16", "int16", "int32", "uint32", "uint64", "list", "tuple")


def typed(shape, salt, dt, big=True):
    """data that use the range of the type (squares and sums do not fit into it)"""
    z = gdata(shape, salt)
    if np.dtype(dt).kind == "c":
        return z.astype(dt)
    x = z.real
    if dt == "bool":
        return x > 0
    if dt[0] == "u":
        x = x + 9
    f = {"8": 13, "6": 30 if dt[0] == "u" else 100, "2": 6000 if big and "int" in dt else 30}.get(dt[-1], 1)
    return (x * f).astype(dt)


def typed_times(t, tt):
    return list(t) if tt == "list" else tuple(t) if tt == "tuple" else np.asarray(t).astype(tt)


def full_n_cross(t1, t2):
    return int(1 + max(max(t2) - min(t1), max(t1) - min(t2)))


def full_n_auto(t):
    return int(1 + max(t) - min(t))


# f arrays below have the time axis FIRST (frames), results have the delay axis LAST.
def _zeros(f, n, dt):
    return np.zeros(f.shape[1:] + (n,), dt)


def ccorr_real(f1, f2, t1, t2, n):
    out = _zeros(f1, n, float)
    for i in range(len(t1)):
        for j in range(len(t2)):
            k = abs(int(t2[j]) - int(t1[i]))
            if k < n:
                out[..., k] += (f1[i] * np.conj(f2[j])).real
    return out


def ccorr_complex(f1, f2, t1, t2, n):
    """signed delay m = t2 - t1 is stored at index m (negative ones count from the end)"""
    out = _zeros(f1, 2 * n - 1, complex)
    for i in range(len(t1)):
        for j in range(len(t2)):
            m = int(t2[j]) - int(t1[i])
            if abs(m) < n:
                out[..., m] += np.conj(f1[i]) * f2[j]
    return out


def acorr_real(f, t, n):
    out = _zeros(f, n, float)
    for i in range(len(t)):
        for j in range(i, len(t)):
            k = abs(int(t[j]) - int(t[i]))
            if k < n:
                out[..., k] += (f[i] * np.conj(f[j])).real
    return out


def acorr_complex(f, t, n):
    out = _zeros(f, n, complex)
    for i in range(len(t)):
        for j in range(i, len(t)):
            a, b = (i, j) if t[j] >= t[i] else (j, i)
            k = int(t[b]) - int(t[a])
            if k < n:
                out[..., k] += np.conj(f[a]) * f[b]
    return out


def cdiff(f1, f2, t1, t2, n):
    out = _zeros(f1, n, float)
    for i in range(len(t1)):
        for j in range(len(t2)):
            k = abs(int(t2[j]) - int(t1[i]))
            if k < n:
                d = f2[j] - f1[i]
                out[..., k] += d.real ** 2 + d.imag ** 2
    return out


def adiff(f, t, n):
    out = _zeros(f, n, float)
    for i in range(len(t)):
        for j in range(i, len(t)):
            k = abs(int(t[j]) - int(t[i]))
            if k < n:
                d = f[j] - f[i]
                out[..., k] += d.real ** 2 + d.imag ** 2
    return out


def ccount(t1, t2, n, cplx=False):
    out = np.zeros(2 * n - 1 if cplx else n, int)
    for a in t1:
        for b in t2:
            m = int(b) - int(a)
            if abs(m) < n:
                out[m if cplx else abs(m)] += 1
    return out


def acount(t, n):
    out = np.zeros(n, int)
    for i in range(len(t)):
        for j in range(i, len(t)):
            k = abs(int(t[i]) - int(t[j]))
            if k < n:
                out[k] += 1
    return out


def csum(f, t, t_other, n, cplx=False, inverted=False):
    out = _zeros(f, 2 * n - 1 if cplx else n, f.dtype if f.dtype.kind in "fc" else float)
    for i in range(len(t)):
        for j in range(len(t_other)):
            m = int(t_other[j]) - int(t[i])
            if inverted:
                m = -m
            if abs(m) < n:
                out[..., m if cplx else abs(m)] += f[i]
    return out


def asum(f, t, n):
    out = _zeros(f, n, f.dtype if f.dtype.kind in "fc" else float)
    for i in range(len(t)):
        for j in range(i, len(t)):
            k = abs(int(t[i]) - int(t[j]))
            if k < n:
                out[..., k] += (f[i] + f[j]) / 2.0
    return out


def sq_cross(f1, f2, t1, t2, n, cplx=False):
    a1 = np.abs(f1) ** 2; a2 = np.abs(f2) ** 2
    a1 = np.rint(f1.real ** 2 + f1.imag ** 2) if np.all(f1 == np.rint(f1.real) + 1j * np.rint(f1.imag)) else a1
    a2 = np.rint(f2.real ** 2 + f2.imag ** 2) if np.all(f2 == np.rint(f2.real) + 1j * np.rint(f2.imag)) else a2
    return csum(a1, t1, t2, n, cplx) + csum(a2, t2, t1, n, cplx, inverted=True)


def sq_auto(f, t, n):
    return 2 * asum(f.real ** 2 + f.imag ** 2, t, n)


STANDARD, STRUCTURED, SUBTRACTED, COMPENSATED = 1, 2, 4, 8


def ccorr_data(f1, f2, t1, t2, n, norm, method, cplx=False):
    """Reference for the tuple returned by ccorr."""
    cnt = ccount(t1, t2, n, cplx)
    ds1 = csum(f1, t1, t2, n, cplx) if norm & SUBTRACTED else None
    ds2 = csum(f2, t2, t1, n, cplx, inverted=True) if norm & SUBTRACTED else None
    if method == "diff":
        return cdiff(f1, f2, t1, t2, n), cnt, ds1, ds2
    cor = ccorr_complex(f1, f2, t1, t2, n) if cplx else ccorr_real(f1, f2, t1, t2, n)
    sq = sq_cross(f1, f2, t1, t2, n, cplx) if norm & STRUCTURED else None
    return cor, cnt, sq, ds1, ds2


def acorr_data(f, t, n, norm, method, cplx=False):
    cnt = acount(t, n)
    if method == "diff":
        return adiff(f, t, n), cnt, None, None
    cor = acorr_complex(f, t, n) if cplx else acorr_real(f, t, n)
    sq = sq_auto(f, t, n) if norm & STRUCTURED else None
    ds = asum(f, t, n) if norm & SUBTRACTED else None
    return cor, cnt, sq, ds, None


def add_data(a, b):
    return tuple(None if x is None else x + y for x, y in zip(a, b))


def same_data(rec, got, want, key, names=None):
    """Compares raw data tuples including which entries are present."""
    ok = rec.check(isinstance(got, tuple) and len(got) == len(want), key + ":arity", "result has %r" % (got,))
    if not ok:
        return False
    names = names or (["corr", "count", "sq", "m1", "m2"] if len(want) == 5 else ["diff", "count", "m1", "m2"])
    for g, w, nm in zip(got, want, names):
        if w is None:
            ok &= rec.check(g is None, key + ":" + nm, "%s should be absent, got %r" % (nm, g))
        elif g is None:
            ok &= rec.check(False, key + ":" + nm, "%s is missing" % nm)
        else:
            ok &= rec.same(g, w, key + ":" + nm, nm)
    return ok


def subsets(universe, k):
    return list(combinations(range(universe), k))


def compositions(total, parts_max):
    """all ordered ways to write total as a sum of positive parts"""
    if total == 0:
        return [()]
    out = []
    for first in range(1, total + 1):
        for rest in compositions(total - first, parts_max):
            if len(rest) + 1 <= parts_max:
                out.append((first,) + rest)
    return out
