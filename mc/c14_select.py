"""C14: sector and ring selection of wave vectors."""
import itertools, math
import warnings
from fractions import Fraction
import numpy as np
from mc import ref

PID = "C14"
IMPORTS = ("cddm.map",)
RULE = ("state = (plane size, image shape, plane kind, angle, sector, k step, k argument, data mask); transition = one call; "
        "trace = index of every wave vector, or every selected mean and mean k, compared with a loop over the wave vectors")


def bounds(tier):
    q = tier == "quick"
    return ("full and half planes of %s x 1..%d, image shapes with equal and different sides, angles every 15 degrees from -180 to 180 (plus 7, -100, 133), 8 sector widths, "
            "k steps 0.5, 1, 1.5, 2, 3; partition: 2, 3, 4, 6, 8, 12, 24 equal sectors from 5 starting angles; selection on real/complex data with 0..2 extra dimensions, "
            "with undefined values, with full, masked-out and compressed data") % ("1..8" if q else "1..14", 8 if q else 14) + "; planes up to 65 x 64 with fewer angles and steps"


def shapes_for(h, w):
    """image shapes from which a plane of h x w can come"""
    out = [None, (h, w)]
    for H, W in ((h, 2 * w), (2 * h, w), (12, 20), (20, 12), (16, 16)):
        if H >= h and W >= w:
            out.append((H, W))
    return out


def cases(tier):
    top = 8 if tier == "quick" else 14
    out = []
    for h in range(1, top + 1):
        for w in range(1, top + 1):
            out.append(("map", h, w))
            out.append(("part", h, w))
    for h in range(1, 8 if tier == "quick" else 12):
        for w in range(1, 8 if tier == "quick" else 12):
            for mode in ("fft2", "rfft2"):
                out.append(("sel", h, w, mode))
    for h, w in ((33, 17), (32, 17), (16, 40), (65, 9), (64, 65)):
        out.append(("map", h, w))
        out.append(("part", h, w))
    for h, w in ((17, 9), (16, 33), (33, 17)):
        for mode in ("fft2", "rfft2"):
            out.append(("sel", h, w, mode))
    out.append(("args",))
    return out


def freq(n):
    """signed index of each Fourier coefficient"""
    return [i if i < (n + 1) // 2 else i - n for i in range(n)]


def plane(h, w, shape):
    """k (in units of the smaller step) and angle (degrees) of each wave vector of a full plane"""
    H, W = shape if shape is not None else (1, 1)
    big = max(H, W)
    k = np.empty((h, w)); a = np.empty((h, w))
    for i, fi in enumerate(freq(h)):
        for j, fj in enumerate(freq(w)):
            y, x = fi * big / H, fj * big / W
            k[i, j] = math.hypot(x, y)
            a[i, j] = math.degrees(math.atan2(-y, x)) if (x or y) else 0.
    return k, a


def ring(k, step):
    """possible ring indices of k: i*step - step/2 < k <= i*step + step/2"""
    x = k / step - 0.5
    lo, hi = math.ceil(x - 1e-9), math.ceil(x + 1e-9)
    return (max(lo, 0), max(hi, 0))


def exact_ratio(shape):
    """side ratios are exact in floating point, so are the wave vectors along the axes and other rational ones"""
    if shape is None:
        return True
    d = Fraction(max(shape), min(shape)).denominator
    return d & (d - 1) == 0


def in_sector(a, angle, sector, period=360.):
    """True/False, or None when within rounding of the sector limits"""
    d = (a - (angle - sector / 2.)) % period
    if min(abs(d), abs(d - sector), abs(d - period)) < 1e-7:
        # low limit included, high limit excluded; undecided only by rounding errors
        return None
    return d < sector


ANGLES = list(range(-180, 181, 15)) + [7, -100, 133]
SECTORS = (1, 5, 30, 45, 60, 90, 133, 180)


def check_map(rec, key, m, k, a, angle, sector, step, period, removed, exact):
    h, w = m.shape
    for i in range(h):
        for j in range(w):
            if i == 0 and j == 0:
                if m[0, 0] != 0:
                    rec.fail(key + ":zero", "zero wave vector has index %s" % m[0, 0])
                continue
            s = in_sector(a[i, j], angle, sector, period)
            r = ring(k[i, j], step)
            if exact and r[0] != r[1] and float(4 * k[i, j]).is_integer():
                r = (r[0], r[0])            # exactly at the upper limit of ring r[0]: included there
            if removed is not None and removed(i, j):
                ok = m[i, j] == -1
            elif s is None:
                ok = m[i, j] == -1 or m[i, j] in r
            elif s:
                ok = m[i, j] in r
            else:
                ok = m[i, j] == -1
            if not ok:
                rec.fail(key, "plane %s angle %s sector %s step %s: wave vector (%d,%d) k=%.6g angle=%.6g has index %s, expected %s" % (
                    m.shape, angle, sector, step, i, j, k[i, j], a[i, j], m[i, j], r if s else -1))
                return
    rec.evaluations += h * w


def run(case, rec):
    import cddm.map as mp
    kind = case[0]
    if kind == "map":
        _, h, w = case
        for shape in shapes_for(h, w):
            k, a = plane(h, w, shape)
            # integer wave vectors: limits are met exactly
            exact = exact_ratio(shape) and h < 15 and w < 15     # frequencies of larger planes are rounded
            km, am = rec.call("fft2_kangle", mp.fft2_kangle, h, w, shape)
            rec.same(km, k, "fft2_kangle:k")
            dd = (np.degrees(am) - a) % 360
            rec.check(bool(np.all(np.minimum(dd, 360 - dd) < 1e-6)), "fft2_kangle:angle")
            keep = km.copy(), am.copy()
            for angle, sector, step in itertools.product(ANGLES, SECTORS, (0.5, 1, 1.5, 2, 3)):
                if h > 5 and w > 5 and (sector in (5, 45, 133) or step in (1.5, 3)):
                    continue
                if (h > 15 or w > 15) and (step == .5 or angle not in (0, 7, 45, 90, 180, -135, -100)):
                    continue
                rec.state("map", h, w, shape, angle, sector, step)
                m = rec.call("map", mp.fft2_sector_indexmap, km, am, angle, sector, step)
                check_map(rec, "fft2_sector_indexmap", m, k, a, angle, sector, step, 360., None, exact)
                m2 = mp.fft2_k_indexmap(h, w, angle, sector, step, shape, mode="fft2")
                rec.check(np.array_equal(m, m2), "fft2_k_indexmap:fft2", "differs from fft2_sector_indexmap")
                rec.trace()
            rec.check(np.array_equal(km, keep[0]) and np.array_equal(am, keep[1]), "map:input")
            # half plane (width w of the half space), old interface: angles are modulo 180
            if shape is None or w == shape[1] // 2 + 1 or (2 * w - 1 <= shape[1] and h <= shape[0]):
                full = mp.as_fft2_shape(h, w, shape)
                want = (h, 2 * w - 1 if shape is None or 2 * w - 1 <= shape[1] else shape[1])
                rec.check(tuple(full) == want, "as_fft2_shape", "%s expected %s" % (full, want))
                kf, af = plane(h, want[1], shape)
                H, W = shape if shape is not None else (1, 1)
                kh = np.empty((h, w)); ah = np.empty((h, w))
                for i, fi in enumerate(freq(h)):
                    for j in range(w):
                        y, x = fi * max(H, W) / H, j * max(H, W) / W
                        kh[i, j], ah[i, j] = math.hypot(x, y), math.degrees(math.atan2(-y, x)) if (x or y) else 0.
                kr, ar = rec.call("rfft2_kangle", mp.rfft2_kangle, h, w, shape)
                rec.same(kr, kh, "rfft2_kangle:k")
                dd = (np.degrees(ar) - ah) % 360
                rec.check(bool(np.all(np.minimum(dd, 360 - dd) < 1e-6)), "rfft2_kangle:angle")
                for angle, sector, step in itertools.product(range(-90, 91, 15), (5, 30, 90, 180), (1, 2)):
                    if (h > 15 or w > 15) and (step == 2 or angle % 45):
                        continue
                    rec.state("half", h, w, shape, angle, sector, step)
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        m = rec.call("half map", mp.k_indexmap, h, w, angle, sector, step, shape)
                    check_map(rec, "k_indexmap", m, kh, ah, angle, sector, step, 180., lambda i, j: j == 0 and i > h // 2, exact)
                    mf = rec.call("fft2_k_indexmap", mp.fft2_k_indexmap, h, w, angle, sector, step, shape)
                    check_map(rec, "fft2_k_indexmap", mf, kf, af, angle, sector, step, 360., None, exact)
                    rec.trace()
    elif kind == "part":
        _, h, w = case
        for shape in shapes_for(h, w):
            km, am = mp.fft2_kangle(h, w, shape)
            kr, ar = mp.rfft2_kangle(h, w, shape)
            for step, start, n in itertools.product((0.5, 1, 2), (0, 45, -90, 7, 22.5), (2, 3, 4, 6, 8, 12, 24)):
                if (h > 15 or w > 15) and (step == .5 or start in (22.5, -90) or n in (8, 12)):
                    continue
                rec.state("part", h, w, shape, step, start, n)
                for full in (True, False):
                    if not full and n == 2 and start == 7:
                        pass
                    period = 360. if full else 180.
                    kk, aa = (km, am) if full else (kr, ar)
                    rings = None
                    total = np.zeros(kk.shape, int)
                    val = np.full(kk.shape, -1)
                    for s in range(n):
                        ang = (start + s * period / n + period / 2) % period - period / 2
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            m = rec.call("partition", mp.fft2_sector_indexmap if full else mp.sector_indexmap, kk, aa, ang, period / n, step)
                        total += m >= 0
                        val = np.maximum(val, m)
                    want = np.ones(kk.shape, int)
                    if not full:
                        want[kk.shape[0] // 2 + 1:, 0] = 0
                    want[0, 0] = n
                    if not full and kk.shape[0] % 2 == 0:
                        # Nyquist coefficient of the first column: its angle is 90 and -90 at the same time
                        want[kk.shape[0] // 2, 0] = total[kk.shape[0] // 2, 0]
                    if not rec.check(np.array_equal(total, want), "partition:" + ("full" if full else "half"),
                                     "%d sectors from %s degrees, step %s, image %s: a wave vector is in none or in several sectors\n%s" % (n, start, step, shape, total)):
                        break
                    for i in range(kk.shape[0]):
                        for j in range(kk.shape[1]):
                            if want[i, j] and not (abs(val[i, j] * step - kk[i, j]) <= step / 2. * (1 + 1e-9)):
                                rec.fail("partition:ring", "k=%s in ring %s of step %s" % (kk[i, j], val[i, j], step))
                    rec.trace()
    elif kind == "sel":
        select(rec, case, mp)
    elif kind == "args":
        km, am = mp.fft2_kangle(5, 5)
        rec.state("args")
        for f in (mp.fft2_sector_indexmap, mp.sector_indexmap):
            lim = 180 if f is mp.fft2_sector_indexmap else 90
            for ang in (lim + 1, -lim - 1, 2 * lim + 5, -1000):
                rec.raises("angle", ValueError, f, km, am, ang)
            for s in (0, -1, 181, 360):
                rec.raises("sector", ValueError, f, km, am, 0, s)
            for ang in (-lim, lim):
                rec.call("angle ok", f, km, am, ang, 180)
        d = ref.gdata((5, 3, 4), 1)
        for s in (0, -5):
            rec.raises("k_select sector", (AssertionError, ValueError), mp.k_select, d, 0, s)
        rec.raises("k_select shape", ValueError, mp.k_select, d, 0, 5, shape=(4, 20))
        rec.raises("k_select shape", ValueError, mp.k_select, d, 0, 5, shape=(20, 3))
        rec.trace()


def select(rec, case, mp):
    _, h, w, mode = case
    for ishape, shape in enumerate(shapes_for(h, w if mode == "fft2" else 2 * w - 1)):
        if mode == "rfft2":
            if shape is not None and ishape == 1 and w > 1:
                shape = (h, 2 * w - 2)         # uncropped image of even width
            fw = 2 * w - 1 if shape is None or shape[1] >= 2 * w - 1 else shape[1]
        else:
            fw = w
        k, a = plane(h, fw, shape)
        km, am = mp.fft2_kangle(h, fw, shape)
        for ext in ((), (2,), (2, 1)):
            base = ref.gdata(ext + (h, w, 2), 7 * h + w, True)
            for ang, sector, step in ((0, 30, 1), (90, 60, 1), (45, 90, 2), (-135, 45, 1), (180, 30, 1), (-180, 180, 1.5), (180, 180, 1), (90, 180, 1), (-20, 5, 1)):
                # the index maps are decided by the other cases
                im = mp.fft2_sector_indexmap(km, am, ang, sector, step)
                for md in ("none", "full mask", "masked", "sparse"):
                    mask = None
                    if md != "none":
                        mask = np.array([[(i * 3 + j * 2) % 5 < (3 if md != "sparse" else 1) for j in range(w)] for i in range(h)])
                    if md == "masked" or md == "sparse":
                        if not mask.any() or (ext and (h, w) == (ext[-1], int(mask.sum()))):
                            continue
                    for cplx, hole in ((True, False), (False, False), (True, True)):
                        if ext and (hole or not cplx):
                            continue
                        d = (base if cplx else base.real).copy()
                        if hole:
                            d[..., ::2, :, 1] = np.nan
                        rec.state("sel", h, w, mode, shape, ext, ang, sector, step, md, cplx, hole)
                        want = {}
                        top = int(im.max())
                        for kk in range(top + 1):
                            # what every stored coefficient contributes
                            vals, ks, amb = [], [], False
                            for i in range(h):
                                for j in range(w):
                                    if mask is not None and not mask[i, j]:
                                        continue
                                    if mode == "fft2":
                                        if im[i, j] == kk:
                                            vals.append(d[..., i, j, :]); ks.append(k[i, j])
                                        continue
                                    direct = im[i, j] == kk
                                    anti = j > 0 and im[-i % h, -j % fw] == kk
                                    if direct or anti:
                                        if direct and anti:
                                            amb = True     # Nyquist coefficient: both signs are stored as one
                                        v = d[..., i, j, :]
                                        vals.append(np.conj(v) if anti else v); ks.append(k[i, j])
                            if vals:
                                v = np.array(vals)
                                ok = ~np.isnan(v)
                                cnt = ok.sum(0)
                                m_ = np.where(ok, v, 0).sum(0) / np.where(cnt == 0, 1, cnt)
                                want[kk] = (sum(ks) / len(ks), np.where(cnt == 0, np.nan, m_), amb)
                        arg = d[..., mask, :] if md in ("masked", "sparse") else d
                        keep = arg.copy()
                        kw = dict(shape=shape, mask=mask, mode=mode)
                        if mode == "rfft2" and cplx:
                            kw.pop("mode")
                        got = rec.call("k_select", mp.k_select, arg, ang, sector, step, **kw)

                        def cmp(key, got, ids):
                            ids = [i for i in ids if i in want]
                            if not rec.check(got is not None and len(got) == len(ids), key, "%s rings expected %d" % (got if got is None else len(got), len(ids))):
                                return
                            for (kg, dg), i in zip(got, ids):
                                kw_, dw, amb = want[i]
                                rec.same(kg, kw_, key + ":k", "ring %d %s" % (i, case))
                                if amb:
                                    rec.same(np.real(dg), np.real(dw), key + ":data")
                                else:
                                    rec.same(dg, dw, key + ":data", "ring %d angle %s sector %s step %s shape %s mask %s" % (i, ang, sector, step, shape, md))
                        tag = "k_select:%s:%s" % (mode, md)
                        cmp(tag, got, range(top + 1))
                        ids = [top, 0, 1, 2.3, top + 4]
                        cmp(tag + ":list", mp.k_select(arg, ang, sector, step, ids, **kw), [int(round(i)) for i in ids])
                        for i in (0, 1, 2.6, top + 4):
                            one = rec.call("k_select scalar", mp.k_select, arg, ang, sector, step, i, **kw)
                            r = int(round(i))
                            if r in want:
                                cmp(tag + ":scalar", None if one is None else [one], [r])
                            else:
                                rec.check(one is None, tag + ":scalar none", "data returned for an empty ring")
                        rec.check(np.array_equal(arg, keep, equal_nan=True), "k_select:input", "input changed")
                        rec.trace()
