"""C13: filters, interpolation and folding of correlation data equal their definition."""
import itertools, math
import numpy as np
from mc import ref

PID = "C13"
RULE = ("state = (function, data values, memory layout, output handling); transition = one call; trace = result compared element by element with a plain loop over the 1D slice")
IMPORTS = ("cddm.core", "cddm.avg", "cddm.norm")
LAYOUTS = ("plain", "strided", "reversed", "transposed", "3d", "list", "out", "same", "float32", "int")


def bounds(tier):
    a, b = (7, 6) if tier == "quick" else (9, 8)
    return ("median, convolution, denoising: every sequence over {0,1,2,3} of length 3..%d; running minimum/maximum: every sequence over {0,1,2,nan} of length 1..%d; real and complex data in "
            "10 memory layouts / dtypes / output forms; interpolation: every increasing node set out of 0..%d and every point up to twice the range; folding: every length 1..7 x mode, "
            "16 misalignment phases x a grid of amplitudes and phases") % (a, b, 7 if tier == "quick" else 10) + "; sequences of 16 to 1000 points of up to 1320 pixels"


def cases(tier):
    a, b = (7, 6) if tier == "quick" else (9, 8)
    out = []
    for n in range(3, a + 1):
        for lay in LAYOUTS:
            for first in range(4):
                out.append(("med", n, lay, first))
    for n in range(1, b + 1):
        for lay in LAYOUTS:
            out.append(("mono", n, lay))
    top = 7 if tier == "quick" else 10
    for k in range(2, top + 2):
        out.append(("lin", k, top))
        out.append(("log", k, top))
    for n in range(1, 8):
        for ext in ((), (2,), (2, 3), (1, 2, 2)):
            out.append(("fold", n, ext))
            out.append(("align", n, ext))
    for w in range(9):
        out.append(("wsum", w))
    for n in (16, 33, 64, 100, 257, 1000):
        for sh in ((), (3,), (40, 33)) if n < 300 else ((),):
            out.append(("large", n, sh))
    return out


def med(x):
    y = list(x)
    for i in range(1, len(x) - 1):
        y[i] = sorted(x[i - 1:i + 2])[1]
    return y


def conv(x):
    y = list(x)
    for i in range(1, len(x) - 1):
        y[i] = (x[i - 1] + 2 * x[i] + x[i + 1]) / 4
    return y


def mono(x, better):
    y = []
    best = math.nan
    for v in x:
        if math.isnan(best) or better(v, best):
            best = v
        y.append(best)
    return y


def rows(f, x):
    x = np.asarray(x)
    flat = x.reshape(-1, x.shape[-1])
    return np.array([f(list(r)) for r in flat.tolist()]).reshape(x.shape)


def laid(x, lay):
    """the same values in another memory layout"""
    if lay == "strided":
        b = np.full(x.shape[:-1] + (2 * x.shape[-1],), 77, x.dtype)
        b[..., ::2] = x
        return b[..., ::2]
    if lay == "reversed":
        return np.ascontiguousarray(x[..., ::-1])[..., ::-1]
    if lay == "transposed":
        return np.ascontiguousarray(x.T).T
    if lay == "3d":
        return x.reshape((2, -1, x.shape[-1]) if x.shape[0] % 2 == 0 else (1,) + x.shape)
    return x.copy()


def apply(rec, key, fn, x, lay):
    """runs fn on x in the layout; returns the result as array of the original shape"""
    a = laid(x, lay)
    keep = a.copy()
    if lay == "list":
        return rec.call(key, fn, a[0].tolist()), 1
    if lay in ("out", "same"):
        out = np.full_like(a, 55) if lay == "out" else a
        r = rec.call(key, fn, a, out)
        rec.check(r is out or np.array_equal(r, out, equal_nan=True), key + ":out", "the given output array was not filled")
        if lay == "out":
            rec.check(np.array_equal(a, keep, equal_nan=True), key + ":input", "input changed")
        return out, None
    r = rec.call(key, fn, a)
    rec.check(np.array_equal(a, keep, equal_nan=True), key + ":input", "input changed")
    return np.asarray(r).reshape(x.shape) if np.asarray(r).shape == a.shape else r, None


def run(case, rec):
    from cddm import avg, norm as nm
    from cddm import _core_nb as cn
    kind = case[0]
    if kind == "med":
        _, n, lay, first = case
        real = np.array([(first,) + s for s in itertools.product(range(4), repeat=n - 1)], float)
        for s in real:
            rec.state(lay, s.tobytes())
        other = real[::-1] * 2 - 1
        datas = [("real", real)]
        if lay not in ("int", "float32"):
            datas.append(("complex", real + 1j * other))
        for nm_, x in datas:
            if lay == "int":
                x = x.astype(int)
            if lay == "float32":
                x = x.astype(np.float32)
            for name, fn, rf in (("median", avg.median, med), ("convolve", avg.convolve, conv)):
                if name == "median" and lay == "list" and nm_ == "complex":
                    pass
                g, k = apply(rec, name + ":" + lay, fn, x, lay)
                xx = x[:k] if k else x
                if nm_ == "complex":
                    w = rows(rf, xx.real) + 1j * rows(rf, xx.imag)
                else:
                    w = rows(rf, xx)
                rec.same(np.asarray(g).reshape(w.shape) if np.size(g) == w.size else g, w, "%s:%s:%s" % (name, nm_, lay), "length %d" % n, rtol=1e-6, atol=1e-6)
                rec.trace(len(w))
            if lay in ("out", "same", "list"):
                continue
            for steps in (0, 1, 2, 3):
                g, k = apply(rec, "denoise", lambda z: avg.denoise(z, steps), x, lay)
                w = x
                for i in range(steps):
                    f = lambda r: conv(med(r))
                    w = rows(f, w.real) + 1j * rows(f, w.imag) if nm_ == "complex" else rows(f, w)
                rec.same(g, w, "denoise:%d:%s:%s" % (steps, nm_, lay), rtol=1e-6, atol=1e-6)
            g, k = apply(rec, "denoise", avg.denoise, x, lay)
            rec.same(g, w, "denoise:default:%s" % lay, rtol=1e-6, atol=1e-6)
    elif kind == "mono":
        _, n, lay = case
        vals = (0., 1., 2., np.nan) if lay != "int" else (0, 1, 2, 3)
        x = np.array(list(itertools.product(vals, repeat=n)))
        for s in x:
            rec.state("mono", lay, s.tobytes())
        if lay == "float32":
            x = x.astype(np.float32)
        lists = range(len(x)) if lay == "list" else (None,)
        for name, fn, better in (("decreasing", avg.decreasing, lambda v, b: v < b), ("increasing", avg.increasing, lambda v, b: v > b)):
            w = rows(lambda r: mono(r, better), x)
            for j in lists:
                xx, ww = (x, w) if j is None else (x[j:j + 1], w[j])
                # leave values which would be found in uninitialised memory
                junk = [np.full(xx.shape, 1e3), np.full(xx.shape[-1], 1e3)]
                del junk
                g, k = apply(rec, name + ":" + lay, fn, xx, lay)
                rec.same(g, ww, "%s:%s" % (name, lay), "length %d" % n)
                rec.trace(np.asarray(ww).size // n)
    elif kind in ("lin", "log"):
        _, k, top = case
        for nodes in itertools.combinations(range(top + 1), k):
            if kind == "log" and nodes[0] == 0 and (k < 3 or nodes[1] != 1):
                continue
            rec.state(kind, nodes)
            x = np.array(nodes)
            y = ref.gdata((2, k), sum(2 ** i for i in nodes), True)
            if kind == "lin":
                xn = np.arange(-6, 4 * top) / 2.
                fn, x = avg.interpolate, x.astype(float)
                tr = lambda a, i: float(a)
            else:
                xn = np.arange(nodes[0], 2 * top + 2)
                fn = avg.log_interpolate
                tr = None
            w = np.empty((2, len(xn)), complex)
            for i, p in enumerate(xn):
                j = 1
                while j < k - 1 and p > x[j]:
                    j += 1
                # linear, or linear in the logarithm (up to delay 1: linear)
                f = (lambda v: float(v)) if kind == "lin" or x[j - 1] == 0 else (lambda v: math.log(v))
                u = (f(p) - f(x[j - 1])) / (f(x[j]) - f(x[j - 1]))
                w[:, i] = y[:, j - 1] + u * (y[:, j] - y[:, j - 1])
            keep = x.copy(), y.copy(), xn.copy()
            for nm_, yy, ww in (("complex", y, w), ("real", y.real, w.real), ("1d", y[0], w[0]), ("3d", np.stack([y, 2 * y]), np.stack([w, 2 * w]))):
                rec.same(rec.call(kind + "_interpolate", fn, xn, x, yy), ww, "%s_interpolate:%s" % (kind, nm_), "nodes %s" % (nodes,))
                rec.trace()
            rec.check(all(np.array_equal(a, b) for a, b in zip(keep, (x, y, xn))), "interpolate:input")
    elif kind == "fold":
        _, n, ext = case
        z = ref.gdata(ext + (2 * n - 1,), n)
        for lay in ("plain", "strided", "reversed", "transposed"):
            a = laid(z, lay)
            keep = a.copy()
            for mode in (0, 1, -1):
                rec.state("fold", n, ext, lay, mode)
                w = np.empty(ext + (n,), complex)
                for i in range(n):
                    p, q = z[..., i], z[..., -i] if i else z[..., 0]
                    w[..., i] = {0: (p + np.conj(q)) / 2 if i else p, 1: p, -1: q}[mode]
                g = rec.call("fold_data", nm.fold_data, a, mode)
                rec.same(g, w, "fold_data:mode%d" % mode)
                g[...] = 99
                rec.check(np.array_equal(a, keep), "fold_data:alias", "result shares memory with the input")
                rec.trace()
            rec.same(rec.call("fold_data", nm.fold_data, a), nm.fold_data(a, 0), "fold_data:default")
        for f in (nm.fold_data, nm.shift_data, nm.equalize_data):
            rec.raises("fold real", ValueError, f, z.real)
        for m in (2, -2, 3):
            rec.raises("fold mode", ValueError, nm.fold_data, z, m)
    elif kind == "align":
        _, n, ext = case
        for ip in range(16):
            phi = 2 * math.pi * ip / 16 - 3.1
            for ia, (amp, arg) in enumerate(itertools.product((1., 0.2, 30.), (-1.4, -0.6, 0., 0.3, 1.2))):
                rec.state("align", n, ext, ip, ia)
                # true symmetric data f (real at zero delay) that a translation between cameras multiplies by a phase
                f = np.empty(ext + (2 * n - 1,), complex)
                s = np.arange(1, int(np.prod(ext)) + 1).reshape(ext)
                f[..., 0] = 2 * amp * s
                up = np.ones(n)
                for i in range(1, n):
                    f[..., i] = amp * s / i * np.exp(1j * arg * (1 - 0.3 * (i - 1) / n))
                    f[..., -i] = np.conj(f[..., i])
                    up[i] = 1 + 0.25 * i
                d = f * np.exp(1j * phi)
                e = d.copy()
                want = f.copy()
                for i in range(1, n):       # shift keeps the modulus of each
                    e[..., i] *= up[i]
                    want[..., i] *= up[i]
                keep = d.copy()
                rec.same(rec.call("equalize_data", nm.equalize_data, d), f, "equalize_data")
                rec.same(rec.call("shift_data", nm.shift_data, d), f, "shift_data")
                rec.same(rec.call("shift_data", nm.shift_data, e), want, "shift_data:modulus")
                rec.check(np.array_equal(d, keep), "align:input")
                rec.trace(3)
    elif kind == "large":
        # long data and many pixels: the same definitions
        _, n, sh = case
        z = ref.gdata(sh + (n,), n)
        rec.state("large", n, sh)
        for x in (z.real.copy(), z):
            two = lambda f: rows(f, x.real) + 1j * rows(f, x.imag) if np.iscomplexobj(x) else rows(f, x)
            rec.same(rec.call("median", avg.median, x), two(med), "large:median")
            rec.same(rec.call("convolve", avg.convolve, x), two(conv), "large:convolve")
            rec.same(rec.call("denoise", avg.denoise, x, 1), two(lambda r: conv(med(r))), "large:denoise")
        x = np.where(z.imag > 6, np.nan, z.real)
        rec.same(rec.call("decreasing", avg.decreasing, x), rows(lambda r: mono(r, lambda v, b: v < b), x), "large:decreasing")
        rec.same(rec.call("increasing", avg.increasing, x), rows(lambda r: mono(r, lambda v, b: v > b), x), "large:increasing")
        xn = np.array([i + (i * i) // 7 for i in range(n)])
        p = np.arange(0, xn[-1] + 5)
        for name, fn, f in (("interpolate", avg.interpolate, lambda v: v * 1.), ("log_interpolate", avg.log_interpolate, np.log)):
            j = np.clip(np.searchsorted(xn, p), 1, n - 1)
            with np.errstate(all="ignore"):
                u = np.where(xn[j - 1] == 0, (p - xn[j - 1] * 1.) / (xn[j] - xn[j - 1]), (f(p) - f(xn[j - 1])) / (f(xn[j]) - f(xn[j - 1])))
            w = z[..., j - 1] + u * (z[..., j] - z[..., j - 1])
            a, b = (p * 1., xn * 1.) if name == "interpolate" else (p, xn)
            if z.size < 5000:
                rec.same(rec.call(name, fn, a, b, z), w, "large:" + name)
        z = ref.gdata(sh + (2 * n - 1,), n)
        w = (z[..., :n] + np.conj(np.concatenate([z[..., :1], z[..., :n - 1:-1]], -1))) / 2
        w[..., 0] = z[..., 0]
        rec.same(rec.call("fold_data", nm.fold_data, z), w, "large:fold_data")
        y, ww = ref.gdata(sh + (n,), n + 1), (1 + np.arange(n)) / (n + 1.)
        z = z[..., :n]
        rec.same(rec.call("weighted_sum", cn.weighted_sum, z.real.copy(), y.real.copy(), ww), z.real * ww + (1 - ww) * y.real, "large:weighted_sum")
        rec.same(rec.call("weighted_sum", cn.weighted_sum, z, y, ww + 1j * ww[::-1]), z.real * ww + (1 - ww) * y.real + 1j * (z.imag * ww[::-1] + (1 - ww[::-1]) * y.imag), "large:weighted_sum complex")
        rec.trace()
    elif kind == "wsum":
        iw = case[1]
        w = iw / 8.
        vals = (-2., 0., 0.5, 3.)
        for a, b in itertools.product(vals, repeat=2):
            rec.state("wsum", iw, a, b)
            want = a * w + (1 - w) * b
            rec.same(cn.weighted_sum(a, b, w), want, "weighted_sum:scalar")
            for shp in ((3,), (2, 3)):
                x, y, ww = np.full(shp, a), np.full(shp, b), np.full(shp[-1:], w)
                rec.same(rec.call("weighted_sum", cn.weighted_sum, x, y, ww), np.full(shp, want), "weighted_sum")
                out = np.empty(shp)
                r = cn.weighted_sum(x, y, ww, out)
                rec.same(out, np.full(shp, want), "weighted_sum:out")
                rec.trace()
            for w2 in (0., 0.5, 1.):
                z = cn.weighted_sum(np.array([a + 1j * b]), np.array([b - 2j * a]), np.array([w + 1j * w2]))
                rec.same(z, np.array([a * w + (1 - w) * b + 1j * (b * w2 - (1 - w2) * 2 * a)]), "weighted_sum:complex")
                rec.trace()
