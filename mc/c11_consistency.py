"""C11: normalized results are consistent between methods, modes and cameras, and invariant to background and units."""
import itertools
import numpy as np
from mc import ref

PID = "C11"
RULE = ("state = (relation, function, frame times, requested delays, norm, offset); every content of the frames over the value set is one pixel of the frame, so each call "
        "decides the relation for all contents at once; transition = one calculate+normalize pipeline; trace = one relation evaluated over all contents")


def bounds(tier):
    return ("all frame contents of %s frames over a value set of %d Gaussian integers, for both cameras; all increasing time stamps in a small universe; all norms; constant "
            "offsets of both cameras from a set of 5 each; unit factors 2, 1/4, 3j, -1") % (("3", 4) if tier == "quick" else ("3 and 4", 4))


VALS = (0j, 1 + 0j, -1 + 2j, 3 - 1j)
NORMS = (1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15)
OFFS = (0, 4, -3 + 2j, 1j, 20 - 7j)


def cases(tier):
    out = []
    for L in (3,) if tier == "quick" else (3, 4):
        U = L + 2
        for t1 in itertools.combinations(range(U), L):
            for t2 in itertools.combinations(range(U), L):
                if t1[0] and t2[0]:
                    continue
                if tier == "quick" and not (t1 == tuple(range(L)) or t2 == tuple(range(L)) or t1 == t2 or (t1[0] == 0 and t2[-1] == U - 1)):
                    continue
                if tier == "thorough" and L == 4 and (sum(t1) * 7 + sum(t2)) % 3:
                    continue
                out.append(("cross", L, t1, t2))
        for t in itertools.combinations(range(U), L):
            if t[0] == 0:
                out.append(("auto", L, t))
        out.append(("regular", L))
        out.append(("fold", L))
        out.append(("complex", L, None, None))
        out.append(("complex", L, tuple(range(L)), tuple(range(L))))
        out.append(("complex", L, tuple(range(L)), tuple(range(1, L + 1))))
        out.append(("complex", L, tuple(2 * i for i in range(L)), tuple(range(L))))
        out.append(("complex", L, (0,) + tuple(range(2, L + 1)), tuple(range(L - 1)) + (L + 1,)))
    return out


_cache = {}


def contents(L, both=True):
    """all contents: (L, pixels) for camera 1 and camera 2 (thinned to a square-free set of pairs when both vary)"""
    if (L, both) not in _cache:
        one = np.array(list(itertools.product(VALS, repeat=L)), complex).T      # L x N
        if not both:
            _cache[L, both] = (one, one)
        else:
            N = one.shape[1]
            a = np.repeat(np.arange(N), N)
            b = np.tile(np.arange(N), N)
            _cache[L, both] = (one[:, a], one[:, b])
    return _cache[L, both]


def has(count, arr):
    return arr[..., np.asarray(count) > 0]


def rel(rec, key, got, want, count, rtol=1e-9, atol=1e-8):
    rec.same(has(count, np.asarray(got)), has(count, np.asarray(want)), key, rtol=rtol, atol=atol)
    rec.trace()


def run(case, rec):
    from cddm.core import ccorr, acorr, stats, normalize
    from cddm.norm import scale_factor, fold_data
    kind, L = case[0], case[1]

    def norm_(data, bg, var, norm, **kw):
        return rec.call("normalize:norm%d" % norm, normalize, data, bg, var, norm=norm, **kw)

    if kind in ("cross", "auto", "regular"):
        if kind == "cross":
            t1, t2 = list(case[2]), list(case[3])
        elif kind == "auto":
            t1 = t2 = list(case[2])
        else:
            t1 = t2 = None
        for auto in ((False,) if kind == "cross" else (True,) if kind == "auto" else (False, True)):
            f1, f2 = contents(L, not auto)
            bgs = (np.array([1 + 1j]), np.array([-2 + 1j]))
            n = L + 1 if t1 is not None else L
            T = np.arange(L)

            def calc(a, b, norm=7, method="corr", **kw):
                if auto:
                    return rec.call("acorr", acorr, a, t1, n=n, norm=norm, method=method, **kw)
                return rec.call("ccorr", ccorr, a, b, t1, t2, n=n, norm=norm, method=method, **kw)
            base = calc(f1, f2)
            count = base[1]
            ok = np.all(np.asarray(count) > 0)
            # statistics of the frames (never zero variance: shift it)
            bg, var = stats(f1) if auto else stats(f1, f2)
            var = var + 1. if auto else (var[0] + 1., var[1] + 3.)
            sf = scale_factor(var)
            others = {m: calc(f1, f2, method=m) for m in ("fft",)}
            diff = calc(f1, f2, norm=2 if auto else 6, method="diff")
            res = {}
            for norm in NORMS:
                w = norm & 3 == 3
                if w and not ok:
                    continue      # smoothing spreads the undefined delays
                rec.state(case, auto, norm)
                key = "%s:norm%d" % ("auto" if auto else "cross", norm)
                g = res[norm] = norm_(base, bg, var, norm)
                # representation modes
                d = norm_(base, bg, var, norm, mode="diff")
                rel(rec, key + ":mode", d, 2 * sf[..., None] - 2 * g, count)
                # scaling
                rel(rec, key + ":scale", norm_(base, bg, var, norm, scale=True), g / sf[..., None], count)
                rel(rec, key + ":scale:diff", norm_(base, bg, var, norm, scale=True, mode="diff"), 2 - 2 * g / sf[..., None], count)
                # calculation methods
                rel(rec, key + ":fft", norm_(others["fft"], bg, var, norm), g, count)
                if norm in (2, 6) and not (auto and norm == 6):
                    for mode in ("corr", "diff"):
                        rel(rec, key + ":difference data:" + mode, norm_(diff, bg, var, norm, mode=mode), norm_(base, bg, var, norm, mode=mode), count)
                # units: multiplying all frames by a constant multiplies the result by its square
                for c in (2., 0.25, 3j, -1.):
                    cb, cv = (bg * c, var * abs(c) ** 2) if auto else ((bg[0] * c, bg[1] * c), (var[0] * abs(c) ** 2, var[1] * abs(c) ** 2))
                    s = calc(f1 * c, f2 * c)
                    rec.state(case, auto, norm, "units", c)
                    rel(rec, key + ":units", norm_(s, cb, cv, norm), g * abs(c) ** 2, count)
                    rel(rec, key + ":units:scaled", norm_(s, cb, cv, norm, scale=True), g / sf[..., None], count)
                # a weighted result lies between its two parts: it is the mix given by the returned weight
                if w:
                    a, b = res[norm & 12 | 1], res[norm & 12 | 2]
                    gg, wt = norm_(base, bg, var, norm, ret_weight=True)
                    rel(rec, key + ":weighted", gg, b * wt + (1 - wt) * a, count)
                    rec.check(bool(np.all(np.abs(wt[np.isfinite(wt)]) <= 1 + 1e-12)), key + ":weight range", "weight outside [-1,1]")
            # invariance to constant background
            for o1, o2 in itertools.product(OFFS, repeat=2):
                if auto and o2 != o1:
                    continue
                s = calc(f1 + o1, f2 + o2)
                sb = bg + o1 if auto else (bg[0] + o1, bg[1] + o2)
                for norm in NORMS:
                    if norm not in res:
                        continue
                    rec.state(case, auto, norm, o1, o2)
                    key = "%s:norm%d:offset" % ("auto" if auto else "cross", norm)
                    if norm & 4:
                        rel(rec, key, norm_(s, sb, var, norm), res[norm], count, atol=1e-7)
                    elif norm & 8:
                        rel(rec, key, norm_(s, sb, var, norm), res[norm], count, atol=1e-7)
                    elif norm == 2:
                        # structured: the difference of the backgrounds is what matters for identical offsets
                        if o1 == o2:
                            rel(rec, key, norm_(s, sb, var, norm), res[norm], count, atol=1e-7)
                if not auto:
                    sd = calc(f1 + o1, f2 + o2, norm=6, method="diff")
                    rel(rec, "diff:norm6:offset", norm_(sd, sb, var, 6), res[6], count, atol=1e-7)
            # shifting all times changes nothing
            if t1 is not None:
                s = acorr(f1, [t + 5 for t in t1], n=n, norm=7) if auto else ccorr(f1, f2, [t + 5 for t in t1], [t + 5 for t in t2], n=n, norm=7)
                for norm in res:
                    rel(rec, "time shift", norm_(s, bg, var, norm), res[norm], count)
            # equal cameras: cross equals auto
            if auto:
                cc = rec.call("ccorr", ccorr, f1, f1, t1, t1, n=n, norm=7)
                for norm in res:
                    rel(rec, "cross of one camera equals auto:norm%d" % norm, norm_(cc, (bg, bg), (var, var), norm), res[norm], count)
            else:
                # exchanging the cameras changes nothing
                cc = rec.call("ccorr", ccorr, f2, f1, t2, t1, n=n, norm=7)
                for norm in res:
                    if norm & 3 == 3:
                        continue
                    rel(rec, "camera exchange:norm%d" % norm, norm_(cc, bg[::-1], var[::-1], norm), res[norm], count)
    elif kind == "complex":
        # complex results (signed delays): not weighted, real and imaginary part are separate results there
        t1, t2 = (None, None) if case[2] is None else (list(case[2]), list(case[3]))
        f1, f2 = contents(L)
        n = L + 1 if t1 is not None else L
        bg, var = stats(f1, f2)
        var = (var[0] + 1., var[1] + 3.)
        sf = scale_factor(var)

        def calc(a, b, method="corr"):
            return rec.call("ccorr", ccorr, a, b, t1, t2, n=n, norm=7, method=method, complex=True)
        base, fft = calc(f1, f2), calc(f1, f2, "fft")
        count = base[1]
        res = {}
        for norm in NORMS:
            if norm & 3 == 3:
                continue
            rec.state(case, norm)
            key = "complex:norm%d" % norm
            g = res[norm] = norm_(base, bg, var, norm)
            rel(rec, key + ":fft", norm_(fft, bg, var, norm), g, count)
            rel(rec, key + ":mode", norm_(base, bg, var, norm, mode="diff"), 2 * sf[..., None] - 2 * g, count)
            rel(rec, key + ":scale", norm_(base, bg, var, norm, scale=True), g / sf[..., None], count)
        for c in (2., 0.25, 3j, -1., 1 - 2j):
            s, m2 = calc(f1 * c, f2 * c), abs(c) ** 2
            for norm, g in res.items():
                rec.state(case, norm, "units", c)
                key = "complex:norm%d:units" % norm
                cb, cv = (bg[0] * c, bg[1] * c), (var[0] * m2, var[1] * m2)
                rel(rec, key, norm_(s, cb, cv, norm), g * m2, count)
                rel(rec, key + ":scaled", norm_(s, cb, cv, norm, scale=True), g / sf[..., None], count)
        for o1, o2 in itertools.product(OFFS, repeat=2):
            s = calc(f1 + o1, f2 + o2)
            for norm, g in res.items():
                if norm & 12:
                    rec.state(case, norm, o1, o2)
                    rel(rec, "complex:norm%d:offset" % norm, norm_(s, (bg[0] + o1, bg[1] + o2), var, norm), g, count, atol=1e-7)
        # a phase factor of camera 2 exchanges real and imaginary part
        s = calc(f1, -1j * f2)
        for norm, g in res.items():
            rec.state(case, norm, "phase")
            rel(rec, "complex:norm%d:phase" % norm, norm_(s, (bg[0], -1j * bg[1]), var, norm).real, g.imag, count)
        # the same as the real correlation of camera 1 with camera 2 at positive and negative delays
        s = calc(f2, f1) if t1 is None else rec.call("ccorr", ccorr, f2, f1, t2, t1, n=n, norm=7, complex=True)
        back = np.arange(2 * n - 1) * -1
        for norm, g in res.items():
            rec.state(case, norm, "exchange")
            rel(rec, "complex:norm%d:exchange" % norm, norm_(s, bg[::-1], var[::-1], norm).real, g.real[..., back], count[back])
        # a single camera is a pair of equal cameras
        a1, _ = contents(L, False)
        if t1 == t2:
            bg, var = stats(a1)
            var = var + 1.
            s = rec.call("acorr", acorr, a1, t1, n=n, norm=7, complex=True)
            cc = rec.call("ccorr", ccorr, a1, a1, t1, t1, n=n, norm=7, complex=True)
            for norm in (1, 2):   # (a single camera has one sum for both frames of a pair)
                rec.state(case, norm, "auto")
                rel(rec, "complex:auto:norm%d" % norm, norm_(s, bg, var, norm), norm_(cc, (bg, bg), (var, var), norm)[..., :n], s[1])
    elif kind == "fold":
        f1, f2 = contents(L)
        bg, var = stats(f1, f2)
        var = (var[0] + 1., var[1] + 3.)
        r = rec.call("ccorr", ccorr, f1, f2, n=L, norm=7)
        c = rec.call("ccorr", ccorr, f1, f2, n=L, norm=7, complex=True)
        for norm in (1, 2, 5, 6, 13, 14):
            rec.state("fold", L, norm)
            x = norm_(c, bg, var, norm)
            rel(rec, "real part of the folded complex data:norm%d" % norm, fold_data(x).real, norm_(r, bg, var, norm), r[1])
        a1, _ = contents(L, False)
        bg, var = stats(a1)
        var = var + 1
        r = rec.call("acorr", acorr, a1, n=L, norm=7)
        c = rec.call("acorr", acorr, a1, n=L, norm=7, complex=True)
        for norm in (1, 2, 5, 6, 9, 10, 13, 14):
            rec.state("fold auto", L, norm)
            rel(rec, "real part of complex auto data:norm%d" % norm, norm_(c, bg, var, norm).real, norm_(r, bg, var, norm), r[1])
