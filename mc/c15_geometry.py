"""C15: cropping, wave-vector grids and half/full space conversion address the same coefficients."""
import itertools, math
import numpy as np
from mc import ref
from mc.c14_select import freq

PID = "C15"
IMPORTS = ("cddm.map", "cddm.fft")
RULE = ("state = (plane size, crop limits, extra dimensions, data type, axes); transition = one call; trace = every coefficient of the result compared with the coefficient of its wave vector")

LARGE = ((33, 17), (32, 40), (17, 64), (129, 65), (130, 3), (3, 257), (64, 1024))


def bounds(tier):
    t = 9 if tier == "quick" else 14
    return ("all planes up to %d x %d, all crop limits from 0 to beyond the maximum, 0..2 extra dimensions, complex/real/integer/boolean data, axis pairs of 2-, 3- and 4-dimensional arrays, "
            "planes of sizes %s with limits at and around the ends of their range, "
            "images against the directly summed Fourier transform at the wave vectors of the grid") % (t, t, LARGE)


def cases(tier):
    t = 9 if tier == "quick" else 14
    return [("plane", h, w) for h in range(1, t + 1) for w in range(1, t + 1)] + [("conv", h, w) for h in range(1, t + 1) for w in range(1, t + 1)] + [("large", h, w) for h, w in LARGE]


def dft(img, fy, fx):
    """transform of the image at wave vectors (fy, fx) in cycles per pixel"""
    H, W = img.shape[-2:]
    y = np.exp(-2j * np.pi * np.outer(fy, np.arange(H)))
    x = np.exp(-2j * np.pi * np.outer(np.arange(W), fx))
    return y @ img @ x


def crop_ok(n, kmax, half):
    return kmax is None or (kmax <= n - 1 if half else 2 * kmax + 1 <= n // 2 * 2 + 1)


def signed(n, kmax):
    """signed indices of the result of cropping n coefficients to kmax"""
    if kmax is None:
        return freq(n)
    return list(range(kmax + 1)) + list(range(-kmax, 0))


def run(case, rec):
    import cddm.map as mp
    import cddm.fft as ff
    kind, h, w = case
    if kind == "large":
        big = max(h, w)
        img = ref.gdata((2, h, w), h * 31 + w, False)
        f, rf = np.fft.fft2(img), np.fft.rfft2(img)
        lims = lambda n, top: [None] + sorted({0, 1, 5, n // 4, n // 2 - 1, n // 2, top, top + 1} & set(range(top + 2)))
        for kimax in lims(h, h // 2):
            si = signed(h, kimax)
            for name, fn, src, n1, half in (("rfft2_crop", ff.rfft2_crop, rf, w // 2 + 1, True), ("fft2_crop", ff.fft2_crop, f, w, False)):
                for kjmax in lims(w, w // 2):
                    rec.state("large", name, h, w, kimax, kjmax)
                    if not (crop_ok(h, kimax, False) and crop_ok(n1, kjmax, half)):
                        rec.raises(name + ":too large", ValueError, fn, src, kimax, kjmax)
                        continue
                    sj = (list(range(n1)) if kjmax is None else list(range(kjmax + 1))) if half else signed(w, kjmax)
                    c = rec.call(name, fn, src, kimax, kjmax)
                    if not rec.same(c, src[np.ix_(range(2), [i % h for i in si], [j % n1 for j in sj])], name + ":large values", "limits %s %s" % (kimax, kjmax)):
                        continue
                    gi, gj = rec.call(name, mp.rfft2_grid if half else mp.fft2_grid, len(si), len(sj), (h, w))
                    wi = np.array(signed(len(si), None)) * big / h
                    wj = np.array(sj if half else signed(len(sj), None)) * big / w
                    rec.same(gi, wi[:, None] + 0 * wj, name + ":large grid i")
                    rec.same(gj, wj + 0 * wi[:, None], name + ":large grid j")
                    k, a = rec.call(name, mp.rfft2_kangle if half else mp.fft2_kangle, len(si), len(sj), (h, w))
                    rec.same(k, np.hypot(wi[:, None], wj), name + ":large k")
                    d = (np.degrees(a) - np.degrees(np.arctan2(-wi[:, None] + 0 * wj, wj + 0 * wi[:, None]))) % 360
                    rec.check(bool(np.all(np.minimum(d, 360 - d)[k > 0] < 1e-6)), name + ":large angle")
                    if half:
                        nyq = kimax is not None and 2 * kimax + 1 > h
                        if not nyq:
                            full = kjmax is None or kjmax == w // 2
                            rec.same(rec.call("from_rfft2_data", mp.from_rfft2_data, c, (h, w)), ff.fft2_crop(f, kimax, None if full else kjmax), "from_rfft2_data:large", rtol=1e-6, atol=1e-6)
                    rec.trace()
        return
    if kind == "plane":
        for ext in ((), (2,), (2, 2)):
            for dt in (complex, float, int, bool, np.complex64):
                x = np.arange(1, 1 + int(np.prod(ext)) * h * w).reshape(ext + (h, w))
                x = (x % 3 == 0) if dt is bool else x.astype(dt)
                if dt is complex:
                    x = x * (1 - 2j)
                if len(ext) == 2 and dt is not complex:
                    continue
                for kimax in [None] + list(range(0, h + 2)):
                    for kjmax in [None] + list(range(0, w + 2)):
                        for name, half in (("rfft2_crop", True), ("fft2_crop", False)):
                            rec.state(name, h, w, ext, dt.__name__, kimax, kjmax)
                            fn = getattr(ff, name)
                            if not (crop_ok(h, kimax, False) and crop_ok(w, kjmax, half)):
                                rec.raises(name + ":too large", ValueError, fn, x, kimax, kjmax)
                                continue
                            keep = x.copy()
                            g = rec.call(name, fn, x, kimax, kjmax)
                            si = signed(h, kimax)
                            sj = (list(range(w)) if kjmax is None else list(range(kjmax + 1))) if half else signed(w, kjmax)
                            want = np.empty(ext + (len(si), len(sj)), x.dtype)
                            for a, i in enumerate(si):
                                for b, j in enumerate(sj):
                                    want[..., a, b] = x[..., i % h, j % w]
                            ok = rec.same(g, want, name + ":values", "limits %s %s" % (kimax, kjmax))
                            rec.check(np.asarray(g).dtype == x.dtype, name + ":dtype")
                            rec.check(np.array_equal(x, keep), name + ":input")
                            if ok and (kimax is not None or kjmax is not None):
                                rec.same(fn(x.tolist() if dt is int else x, kimax, kjmax), want, name + ":list")
                            rec.trace()
        # grids
        for shape in (None, (h, w), (h, 2 * w), (3 * h, w), (20, 14), (14, 20)):
            H, W = shape if shape else (1, 1)
            rec.state("grid", h, w, shape)
            for name, sj in (("rfft2_grid", list(range(w))), ("fft2_grid", freq(w))):
                gi, gj = rec.call(name, getattr(mp, name), h, w, shape)
                wi = np.array([[i * max(H, W) / H for j in sj] for i in freq(h)])
                wj = np.array([[j * max(H, W) / W for j in sj] for i in freq(h)])
                rec.same(gi, wi, name + ":i")
                rec.same(gj, wj, name + ":j")
                rec.trace()
            if shape is not None and shape == (h, w):
                for name, n in (("rfft2_grid", w // 2 + 1), ("fft2_grid", w)):
                    a, b = rec.call(name, getattr(mp, name), shape=shape), getattr(mp, name)(h, n, shape)
                    rec.check(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]), name + ":default size")
                for name in ("rfft2_kangle", "fft2_kangle"):
                    a = rec.call(name, getattr(mp, name), shape=shape)
                    n = w // 2 + 1 if name[0] == "r" else w
                    b = getattr(mp, name)(h, n, shape)
                    rec.check(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]), name + ":default size")
        for name in ("rfft2_grid", "fft2_grid", "rfft2_kangle", "fft2_kangle"):
            for a in ((None, None), (h, None), (None, w)):
                rec.raises(name + ":no shape", ValueError, getattr(mp, name), *a)
    else:
        img = ref.gdata((2, h, w), h * 31 + w, False)
        f = np.fft.fft2(img)
        rf = np.fft.rfft2(img)
        big = max(h, w)
        # data of the real image at every grid point
        for kimax in [None] + list(range(0, h // 2 + 1)):
            for kjmax in [None] + list(range(0, w // 2 + 1)):
                rec.state("conv", h, w, kimax, kjmax)
                cr, cf = ff.rfft2_crop(rf, kimax, kjmax), ff.fft2_crop(f, kimax, kjmax)
                for name, grid, c in (("rfft2_grid", mp.rfft2_grid, cr), ("fft2_grid", mp.fft2_grid, cf)):
                    gi, gj = rec.call(name, grid, c.shape[-2], c.shape[-1], (h, w))
                    if kimax is not None and 2 * kimax + 1 > h or (name == "fft2_grid" and kjmax is not None and 2 * kjmax + 1 > w):
                        pass                            # Nyquist coefficient stored with both signs: same transform
                    want = dft(img, gi[:, 0] / big, gj[0] / big)
                    rec.same(c, want, name + ":wave vector", "limits %s %s" % (kimax, kjmax), rtol=1e-7, atol=1e-7)
                # half to full space
                nyq_i = kimax is not None and 2 * kimax + 1 > h
                full_j = kjmax is None or kjmax == w // 2
                if not nyq_i:
                    g = rec.call("from_rfft2_data", mp.from_rfft2_data, cr, (h, w))
                    want = ff.fft2_crop(f, kimax, None if full_j else kjmax)
                    rec.same(g, want, "from_rfft2_data:shape", "limits %s %s" % (kimax, kjmax), rtol=1e-7, atol=1e-7)
                if kjmax is not None:
                    g = rec.call("from_rfft2_data", mp.from_rfft2_data, cr)
                    rec.same(g, cf, "from_rfft2_data", "limits %s %s" % (kimax, kjmax), rtol=1e-7, atol=1e-7)
                rec.trace()
        # conversions on arbitrary axes
        n = 2
        every = [(3, q) for q in ((0, 1), (0, 2), (1, 2), (-3, -2), (-3, -1), (-2, -1), (1, 0), (-1, -2), (0, -1), (-1, 0), (-2, 2), (1, -1), (-3, 1))]
        every += [(2, q) for q in ((0, 1), (1, 0), (-2, -1), (0, -1), (-2, 1), (1, -2), None)] + [(4, q) for q in ((0, 1), (0, 3), (1, 2), (2, 3), (-4, -2), (-3, -1), None)] + [(3, None)]
        for nd, axes in every:
            dflt = axes is None
            axes = (-2, -1) if dflt else axes
            kw = () if dflt else (axes,)
            ax = tuple(sorted(a % nd for a in axes))
            # every other axis has 2 elements

            def put(z):
                for _ in range(nd - 2):
                    z = np.stack([z, 2 * z], -1) if z.dtype != bool else np.stack([z, ~z], -1)
                return np.moveaxis(z, (0, 1), ax)
            for dt in ("complex", "float", "int", "bool"):
                full = {"complex": f[0], "float": ref.gdata((h, w), 5, False), "int": np.arange(h * w).reshape(h, w), "bool": np.arange(h * w).reshape(h, w) % 3 == 0}[dt]
                a = put(full)
                keep = a.copy()
                rec.state("axes", nd, h, w, axes, dflt, dt)
                wh = w // 2 + 1
                half = full[:, :wh]
                conj = np.empty_like(half)
                for i in range(h):
                    for j in range(wh):
                        conj[i, j] = full[-i % h, -j % w] if j else {"complex": np.nan, "float": np.nan, "int": -1, "bool": False}[dt]
                rec.same(rec.call("as_rfft2_data", mp.as_rfft2_data, a, *kw), put(half), "as_rfft2_data:" + dt)
                c = rec.call("as_rfft2_conj", mp.as_rfft2_conj, a, *kw)
                w_ = put(conj)
                if dt in ("int", "bool"):               # the empty first column is not scaled by put
                    sl = [slice(None)] * nd
                    sl[ax[1]] = 0
                    w_[tuple(sl)] = -1 if dt == "int" else False
                rec.same(c, w_, "as_rfft2_conj:" + dt)
                rec.check(c.dtype == a.dtype, "as_rfft2_conj:dtype")
                if dt == "bool":
                    rec.same(mp.as_rfft2_mask(a, *kw), np.logical_or(put(half), w_), "as_rfft2_mask")
                if dt in ("complex", "bool", "float"):
                    # symmetric data
                    sym = full if dt == "complex" else np.array([[full[i, j] + 0 * 1 if (i, j) <= (-i % h, -j % w) else full[-i % h, -j % w] for j in range(w)] for i in range(h)])
                    b = put(sym)
                    hs = mp.as_rfft2_data(b, *kw)
                    g = rec.call("from_rfft2_data", mp.from_rfft2_data, hs, (h, w), *kw)
                    rec.same(g, b, "from_rfft2_data:axes:" + dt)
                    rec.check(g.dtype == b.dtype, "from_rfft2_data:dtype")
                    small = {"complex": np.complex64, "float": np.float32}.get(dt)
                    if small:
                        g = rec.call("from_rfft2_data:single", mp.from_rfft2_data, hs.astype(small), (h, w), *kw)
                        rec.same(g, b, "from_rfft2_data:single precision:" + dt, rtol=1e-5, atol=1e-3)
                        rec.check(g.dtype == small, "from_rfft2_data:single dtype")
                rec.check(np.array_equal(a, keep), "conversion:input")
                rec.trace()
        # shapes of half and full space
        for kj in range(1, w + 3):
            for ki in (None, h, h + 1):
                for shape in (None, (h, w)):
                    rec.state("shape", h, w, ki, kj, shape)
                    if (ki is None and shape is None) or (shape is not None and (ki == h + 1 or (2 * kj - 1 > w and not 2 * kj - 1 == w + 1))):
                        rec.raises("as_fft2_shape", ValueError, mp.as_fft2_shape, ki, kj, shape)
                    else:
                        g = rec.call("as_fft2_shape", mp.as_fft2_shape, ki, kj, shape)
                        want = (h if ki is None else ki, w if shape is not None and 2 * kj - 1 == w + 1 else 2 * kj - 1)
                        rec.check(tuple(g) == want, "as_fft2_shape", "%s expected %s" % (g, want))
        rec.check(tuple(mp.as_fft2_shape(shape=(h, w))) == (h, w), "as_fft2_shape:shape only")
        rec.raises("as_fft2_shape", ValueError, mp.as_fft2_shape, h, None)
        rec.trace()
