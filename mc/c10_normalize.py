"""C10: normalization computes the documented quantity for every norm, method, mode and layout."""
import itertools
import numpy as np
from mc import ref

PID = "C10"
RULE = ("state = (function, method, real/complex, frames, time stamps, norm, mode, scale, mask, level structure, array layout, output argument); transition = "
        "one call of normalize (or of one of its helpers); trace = result compared with averages taken directly over the frame pairs of each delay")


def bounds(tier):
    return ("all 12 norms x {corr, diff data} x {auto, cross} x {real, complex} x both modes x scaled or not x output argument; %d time-stamp patterns; frame shapes "
            "(), (3,), (1,), (2,), (3,2), (2,2), (1,2,3), (300,), (17,23); linear and multi-level data; all masks of (3,) and (3,2) frames; every string and flag combination") % (3 if tier == "quick" else 9)


NORMS = (1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15)
SHAPES = ((), (1,), (3,), (3, 2), (1, 2, 3), (5, 3))
AMBIG = ((2,), (2, 2), (2, 3))


def times(p, L, per=2):
    if p == 0:
        return list(range(L)), list(range(L))
    a = [per * i + (i * i * p + p) % per for i in range(L)]
    b = [per * i + (i * (p + 1) + p // 2) % per for i in range(L)]
    return a, b


def cases(tier):
    out = []
    for kind, method, cplx in itertools.product(("c", "a"), ("corr", "diff"), (False, True)):
        if method == "diff" and cplx:
            continue
        for norm in NORMS:
            if method == "diff" and (norm not in (2, 6) or (kind == "a" and norm == 6)):
                continue
            for sh in SHAPES + (AMBIG if kind == "c" else ()):
                for p in range(3 if tier == "quick" else 9):
                    for levels in (0, 1, 3):
                        out.append(("val", kind, method, cplx, norm, sh, p, levels))
            for sh in ((300,), (17, 23)):
                out.append(("val", kind, method, cplx, norm, sh, 1, 0))
                out.append(("val", kind, method, cplx, norm, sh, 1, 3))
            out.append(("mask", kind, method, cplx, norm, (3,)))
            out.append(("mask", kind, method, cplx, norm, (3, 2)))
            for sh in AMBIG:
                if kind == "a":
                    out.append(("ambig", kind, method, cplx, norm, sh))
    out.append(("errors",))
    out.append(("flags",))
    out.append(("helpers",))
    out.append(("have",))
    out.append(("weights",))
    return out


# --------------------------------------------------------------------------- oracle
def pairs(kind, t1, t2, n, cplx):
    """list of frame index pairs for each stored delay"""
    size = 2 * n - 1 if (cplx and kind == "c") else n
    out = [[] for _ in range(size)]
    if kind == "c":
        for i in range(len(t1)):
            for j in range(len(t2)):
                m = t2[j] - t1[i]
                if abs(m) < n:
                    out[m if cplx else abs(m)].append((i, j))
    else:
        for i in range(len(t1)):
            for j in range(i, len(t1)):
                m = t1[j] - t1[i]
                if m < n:
                    out[m].append((i, j))
    return out


def avg_real(f1, f2, pr, norm, method, kind, bg1, bg2, off):
    """normalized correlation at one delay (before mode/scale), from the frame pairs; real formulas"""
    c = float(len(pr))
    sub, comp = bool(norm & 4), bool(norm & 8) and not norm & 4
    A = sum((f1[i] * np.conj(f2[j])).real for i, j in pr) / c
    S = sum(abs2(f1[i]) + abs2(f2[j]) for i, j in pr) / c
    M1 = sum(f1[i] for i, j in pr) / c
    M2 = sum(f2[j] for i, j in pr) / c
    if kind == "a":
        M1 = M2 = (M1 + M2) / 2
    if norm & 3 == 1:
        if comp:
            return A - (M1 * np.conj(M2)).real
        if sub:
            if kind == "c":
                return sum(((f1[i] - bg1) * np.conj(f2[j] - bg2)).real for i, j in pr) / c
            return A - (M1 * np.conj(bg2) + M2 * np.conj(bg1)).real + (bg1 * np.conj(bg2)).real
        return A - (bg1 * np.conj(bg2)).real
    # structured: from the mean squared difference
    D = S - 2 * A
    if comp:
        D = D - abs2(M1 - M2)
    elif sub:
        if kind == "c":
            D = sum(abs2((f1[i] - bg1) - (f2[j] - bg2)) for i, j in pr) / c
        else:
            D = D - 2 * ((M1 - M2) * np.conj(bg1 - bg2)).real + abs2(bg1 - bg2)
    else:
        D = D - abs2(bg1 - bg2)
    return off - D / 2.0


def abs2(x):
    return np.real(x) ** 2 + np.imag(x) ** 2


def plain(f1, f2, prs, norm, method, kind, cplx, bg1, bg2, off):
    """non-weighted normalized correlation (mode 'corr', not scaled) from the definition"""
    out = []
    for pr in prs:
        if not pr:
            out.append(np.full(np.shape(off), np.nan, complex if cplx else float))
            continue
        r = avg_real(f1, f2, pr, norm, method, kind, bg1, bg2, off)
        if cplx:
            if norm & 3 == 1:
                # conj(first) * second: same averages, complex valued
                c = float(len(pr))
                A = sum(np.conj(f1[i]) * f2[j] for i, j in pr) / c
                M1 = sum(f1[i] for i, j in pr) / c
                M2 = sum(f2[j] for i, j in pr) / c
                if kind == "a":
                    M1 = M2 = (M1 + M2) / 2
                if norm & 8 and not norm & 4:
                    r = A - np.conj(M1) * M2
                elif norm & 4:
                    r = A - np.conj(bg1) * M2 - np.conj(M1) * bg2 + np.conj(bg1) * bg2
                else:
                    r = A - np.conj(bg1) * bg2
            else:
                # imaginary part: the structured estimator of the quarter-phase shifted second camera
                i_ = shifted(f1, f2, pr, norm, kind, bg1, bg2, off)
                r = r + 1j * i_
        out.append(r)
    return np.moveaxis(np.array(out), 0, -1)


def shifted(f1, f2, pr, norm, kind, bg1, bg2, off):
    g2, b2 = -1j * f2, -1j * bg2
    if kind == "c":
        return avg_real(f1, g2, pr, norm, "corr", "c", bg1, b2, off)
    c = float(len(pr))
    M = (sum(f1[i] for i, j in pr) / c + sum(f2[j] for i, j in pr) / c) / 2
    D = sum(abs2(f1[i] - g2[j]) for i, j in pr) / c
    if norm & 8 and not norm & 4:
        D = D - abs2(M - (-1j * M))
    elif norm & 4:
        D = D - 2 * ((M + 1j * M) * np.conj(bg1 - b2)).real + abs2(bg1 - b2)
    else:
        D = D - abs2(bg1 - b2)
    return off - D / 2.0


def med3(x):
    out = x.copy()
    for i in range(1, x.shape[-1] - 1):
        out[..., i] = np.sort(x[..., i - 1:i + 2], axis=-1)[..., 1]
    return out


def denoise(x):
    x = np.array(x)
    for _ in range(3):
        x = med3(x.real) + 1j * med3(x.imag) if np.iscomplexobj(x) else med3(x)
        y = x.copy()
        for i in range(1, x.shape[-1] - 1):
            y[..., i] = (x[..., i - 1] + 2 * x[..., i] + x[..., i + 1]) / 4
        x = y
    return x


def mix(comp, base, w):
    if np.iscomplexobj(w):
        return (comp.real * w.real + (1 - w.real) * base.real) + 1j * (comp.imag * w.imag + (1 - w.imag) * base.imag)
    return comp * w + (1 - w) * base


def weight(g, delta):
    g = denoise(g)
    return 2 * g / (abs2(g) + 1 + delta[..., None] ** 2)


def ensemble(g, delta, b1=0., b2=0.):
    """all outcomes of two correlated circular complex signals, with exact moments up to the fifth order (three-node
    Gauss-Hermite rule in each of the four real variables): probability, and both signals. Mean powers 1 - delta and
    1 + delta, mean product g, means b1 and b2."""
    x = np.array([-3 ** .5, 0., 3 ** .5])
    p = np.array([1., 4., 1.]) / 6
    n = np.meshgrid(x, x, x, x, indexing="ij")
    q = np.einsum("i,j,k,l", p, p, p, p)
    e1, e2 = (n[0] + 1j * n[1]) / 2 ** .5, (n[2] + 1j * n[3]) / 2 ** .5
    s1 = (1 - delta) ** .5 * e1
    s2 = np.conj(g) / (1 - delta) * s1 + (1 + delta - abs2(g) / (1 - delta)) ** .5 * e2
    return q, s1 + b1, s2 + b2


def spread(w, ens):
    """variance of the single-pair estimator: standard estimator mixed with the structured one by weight w"""
    q, a, b = ens
    v = (1 - w) * (a * np.conj(b)).real - w * abs2(a - b) / 2 + 0 * a.real
    return (q * v ** 2).sum() - (q * v).sum() ** 2


def best(ens):
    """the weight of the smallest variance (the variance is a quadratic polynomial of the weight)"""
    m, z, p = (spread(w, ens) for w in (-1., 0., 1.))
    return (m - p) / 2 / (m + p - 2 * z)


def oracle(f1, f2, prs, norm, method, kind, cplx, bg1, bg2, v1, v2, mode, scale, user_weight=None):
    """complete normalization; returns result, weight"""
    off = (v1 + v2) / 2.0
    w = None
    if norm & 3 == 3:
        base = plain(f1, f2, prs, (norm & 12) | 1, method, kind, cplx, bg1, bg2, off)
        comp = plain(f1, f2, prs, (norm & 12) | 2, method, kind, cplx, bg1, bg2, off)
        if user_weight is not None:
            w = user_weight
        else:
            delta = (v2 - v1) / (v1 + v2)
            w = weight(base / off[..., None], delta)
            for _ in range(2):
                w = weight(mix(comp, base, w) / off[..., None], delta)
        r = mix(comp, base, w)
    else:
        r = plain(f1, f2, prs, norm, method, kind, cplx, bg1, bg2, off)
    if mode == "diff":
        r = 2 * off[..., None] - 2 * r
    if scale:
        r = r / off[..., None]
    return r, w


def raw(f1, f2, t1, t2, n, method, kind, cplx, norm):
    """raw data tuple, from the reference model (not from the code under test)"""
    if kind == "c":
        d = ref.ccorr_data(f1, f2, t1, t2, n, norm, method, cplx)
    else:
        d = ref.acorr_data(f1, t1, n, norm, method, cplx)
    return d


CALC = {1: 1, 2: 2, 3: 3, 5: 5, 6: 6, 7: 7, 9: 5, 10: 6, 11: 7, 13: 5, 14: 6, 15: 7}


class Prob:
    """frames, raw tuple and statistics of one configuration"""

    def __init__(self, kind, method, cplx, norm, sh, p, levels, L=7, n=5, calc=None):
        self.__dict__.update(kind=kind, method=method, cplx=cplx, norm=norm, levels=levels, n=n)
        t1, t2 = times(p, L)
        if kind == "a":
            t2 = t1
        self.prs = pairs(kind, t1, t2, n, cplx)
        nl = max(1, levels)
        self.f1 = [ref.gdata((L,) + sh, 3 + k) + 3 for k in range(nl)]
        self.f2 = [ref.gdata((L,) + sh, 30 + k) - 2j for k in range(nl)] if kind == "c" else self.f1
        self.bg1 = ref.gdata(sh, 101) * 1.0 + 2
        self.bg2 = ref.gdata(sh, 102) * 1.0 - 1j if kind == "c" else self.bg1
        self.v1 = abs(ref.gdata(sh, 103, False)) + 40.
        self.v2 = abs(ref.gdata(sh, 104, False)) + 60. if kind == "c" else self.v1
        tuples = [raw(a, b, t1, t2, n, method, kind, cplx, calc or CALC[norm]) for a, b in zip(self.f1, self.f2)]
        if levels:
            self.data = tuple(None if tuples[0][i] is None else np.array([t[i] for t in tuples]) for i in range(len(tuples[0])))
        else:
            self.data = tuples[0]
        self.nopairs = np.array([not pr for pr in self.prs])

    def bgvar(self):
        if self.kind == "c":
            return (self.bg1, self.bg2), (self.v1, self.v2)
        return self.bg1, self.v1

    def want(self, mode, scale, user=None, norm=None):
        res = [oracle(a, b, self.prs, norm or self.norm, self.method, self.kind, self.cplx, self.bg1, self.bg2, self.v1, self.v2, mode, scale,
                      None if user is None else user[k]) for k, (a, b) in enumerate(zip(self.f1, self.f2))]
        if self.levels:
            return np.array([r for r, _ in res]), None if res[0][1] is None else np.array([w for _, w in res])
        return res[0]


def compare(rec, key, got, want, nopairs, weighted):
    got = np.asarray(got)
    if not rec.check(got.shape == want.shape, key + ":shape", "shape %s, expected %s" % (got.shape, want.shape)):
        return
    rec.check(np.iscomplexobj(got) == np.iscomplexobj(want), key + ":dtype", "%s" % got.dtype)
    if nopairs.any():
        rec.check(not np.any(np.isfinite(got[..., nopairs]) & (got[..., nopairs] == got[..., nopairs])), key + ":no pairs", "a delay without any frame pair has a finite value")
        if weighted:
            return      # smoothing spreads undefined values
        got, want = got[..., ~nopairs], want[..., ~nopairs]
    rec.same(got, want, key, rtol=1e-9, atol=1e-9)


def layouts(data):
    """the same values in other memory layouts (delay axis not last in memory, as the library itself returns it)"""
    def tr(x):
        if x is None or x.ndim < 2:
            return x
        return np.moveaxis(np.ascontiguousarray(np.moveaxis(x, -1, -2)), -2, -1)
    yield "C", data
    yield "T", tuple(tr(x) if i != 1 else x for i, x in enumerate(data))


def nm_nb():
    import cddm._core_nb as nb
    return nb


def nm_weight_prime():
    import cddm.norm as nm
    return nm.weight_prime_from_data


def run(case, rec):
    from cddm.norm import normalize
    import cddm.norm as nm
    kind = case[0]
    if kind == "val":
        _, k, method, cplx, norm, sh, p, levels = case
        P = Prob(k, method, cplx, norm, sh, p, levels)
        bg, var = P.bgvar()
        weighted = norm & 3 == 3
        for mode, scale in itertools.product(("corr", "diff"), (False, True)):
            want, w = P.want(mode, scale)
            for lay, data in layouts(P.data):
                for useout in (False, True):
                    key = "%s:%s:cplx%d:norm%d:%s:%s" % (k, method, cplx, norm, mode, "scaled" if scale else "plain")
                    rec.state(case, mode, scale, lay, useout)
                    o = np.full(P.data[0].shape, -5., complex if cplx else float) if useout else None
                    kw = dict(out=o) if useout else {}
                    got = rec.call(key, normalize, data, bg, var, norm=norm, mode=mode, scale=scale, **kw)
                    compare(rec, key, got, want, P.nopairs, weighted)
                    if useout:
                        rec.check(got is o, key + ":out", "the output argument is not used")
                    rec.trace()
            # weights: returned, and given by the user
            key = "%s:cplx%d:norm%d:%s:%s:weight" % (k, cplx, norm, mode, "scaled" if scale else "plain")
            got, gw = rec.call(key, normalize, P.data, bg, var, norm=norm, mode=mode, scale=scale, ret_weight=True)
            compare(rec, key, got, want, P.nopairs, weighted)
            if weighted:
                if not P.nopairs.any():
                    rec.same(gw, w, key + ":returned")
                u = abs(ref.gdata(P.data[0].shape, 55, cplx)) / 10.
                if cplx:
                    u = (u + 0.25j).astype(complex)
                want2, _ = P.want(mode, scale, user=u if levels else [u])
                keep = u.copy()
                got, gw = rec.call(key, normalize, P.data, bg, var, norm=norm, mode=mode, scale=scale, weight=u, ret_weight=True)
                compare(rec, key + ":given", got, want2, P.nopairs, weighted)
                rec.check(np.array_equal(gw, keep), key + ":given:returned", "returned weight is not the given one")
                # a real weight that broadcasts
                u1 = (np.arange(P.data[0].shape[-1]) + 1) / 20.
                want3, _ = P.want(mode, scale, user=[np.broadcast_to(u1, P.data[0].shape[1:] if levels else P.data[0].shape)] * max(1, levels))
                if not cplx:
                    got = rec.call(key, normalize, P.data, bg, var, norm=norm, mode=mode, scale=scale, weight=u1)
                    compare(rec, key + ":broadcast", got, want3, P.nopairs, weighted)
            rec.trace()
        # lists instead of arrays/tuples for the statistics
        if sh and k == "c":
            want, w = P.want("corr", True)
            got = rec.call("lists", normalize, P.data, [bg[0].tolist(), bg[1].tolist()], [var[0].tolist(), var[1].tolist()], norm=norm, scale=True)
            compare(rec, "lists", got, want, P.nopairs, weighted)
            got = rec.call("stack", normalize, P.data, np.array(bg), np.array(var), norm=norm, scale=True)
            compare(rec, "stack", got, want, P.nopairs, weighted)
        # a camera pair with identical statistics may be given once
        if k == "a":
            want, w = P.want("corr", True)
            got = rec.call("pair", normalize, P.data, (bg, bg), (var, var), norm=norm, scale=True)
            compare(rec, "pair", got, want, P.nopairs, weighted)
    elif kind == "ambig":
        _, k, method, cplx, norm, sh = case
        P = Prob(k, method, cplx, norm, sh, 0, 0)
        bg, var = P.bgvar()
        for mode, scale in itertools.product(("corr", "diff"), (False, True)):
            rec.state(case, mode, scale)
            want, w = P.want(mode, scale)
            rec.step()
            # KNOWN FINDING: one camera and frames with two rows: its statistics are taken for two cameras
            try:
                got = normalize(P.data, bg, var, norm=norm, mode=mode, scale=scale)
                ok = np.shape(got) == want.shape and np.allclose(got, want)
            except Exception:
                ok = False
            needs = not (norm & 8 and not norm & 4 and norm & 3 == 1 and mode == "corr" and not scale)
            rec.check(ok or not needs, "two-row_frames_of_one_camera", "statistics of shape %s given as single arrays are mistaken for a camera pair" % (sh,))
            # given explicitly as a pair they are unambiguous
            got = rec.call("pair", normalize, P.data, (bg, bg), (var, var), norm=norm, mode=mode, scale=scale)
            compare(rec, "two rows pair", got, want, P.nopairs, norm & 3 == 3)
            rec.trace()
    elif kind == "mask":
        _, k, method, cplx, norm, sh = case
        P = Prob(k, method, cplx, norm, sh, 1, 0)
        PL = Prob(k, method, cplx, norm, sh, 1, 2)
        npx = int(np.prod(sh))
        for bits in itertools.product((False, True), repeat=npx):
            if not any(bits):
                continue
            m = np.array(bits).reshape(sh)
            for Q in (P, PL):
                bg, var = Q.bgvar()
                for mode, scale in (("corr", False), ("corr", True), ("diff", True)):
                    rec.state(case, bits, mode, scale, Q.levels)
                    want, w = Q.want(mode, scale)
                    key = "mask:%s:%s:cplx%d:norm%d:%s" % (k, method, cplx, norm, mode)
                    got = rec.call(key, normalize, Q.data, bg, var, norm=norm, mode=mode, scale=scale, mask=m)
                    compare(rec, key, got, want[..., m, :], Q.nopairs, norm & 3 == 3)
                    rec.trace()
            got = nm.take_data(P.data, m)
            for i, (g, x) in enumerate(zip(got, P.data)):
                if x is None or i == 1:
                    rec.check(g is x, "take_data:count", "entry %d changed" % i)
                else:
                    rec.same(g, x[..., m, :], "take_data")
    elif kind == "have":
        # which norms are available depends only on what the raw data contains; the default uses all of it
        for k, cplx in itertools.product("ca", (False, True)):
            for calc, ok, default in ((1, {1}, 1), (3, {1, 2, 3}, 3), (5, {1, 5, 9, 13}, 5), (7, set(NORMS), 7), (2, {1, 2, 3}, 3), (6, set(NORMS), 7)):
                P = Prob(k, "corr", cplx, 7, (3,), 0, 0, calc=calc)
                bg, var = P.bgvar()
                for norm in range(-1, 33):
                    rec.state(k, cplx, calc, norm)
                    if norm in ok:
                        Q = Prob(k, "corr", cplx, norm, (3,), 0, 0, calc=calc)
                        got = rec.call("have", normalize, Q.data, bg, var, norm=norm)
                        compare(rec, "have:calc%d:norm%d" % (calc, norm), got, Q.want("corr", False)[0], Q.nopairs, norm & 3 == 3)
                        rec.trace()
                    else:
                        rec.raises("have:%s:calc%d:norm%d accepted" % (k, calc, norm), ValueError, normalize, P.data, bg, var, norm=norm)
                got = rec.call("default", normalize, P.data, bg, var)
                compare(rec, "default:calc%d" % calc, got, P.want("corr", False, norm=default)[0], P.nopairs, default & 3 == 3)
        for k, calc, ok, default in (("c", 2, {2}, 2), ("c", 6, {2, 6}, 6), ("a", 2, {2}, 2)):
            P = Prob(k, "diff", False, 2, (3,), 0, 0, calc=calc)
            bg, var = P.bgvar()
            for norm in range(-1, 33):
                rec.state(k, "diff", calc, norm)
                if norm in ok:
                    Q = Prob(k, "diff", False, norm, (3,), 0, 0, calc=calc)
                    got = rec.call("have", normalize, Q.data, bg, var, norm=norm)
                    compare(rec, "have:diff:norm%d" % norm, got, Q.want("corr", False)[0], Q.nopairs, False)
                else:
                    rec.raises("have:diff:norm%d accepted" % norm, ValueError, normalize, P.data, bg, var, norm=norm)
            got = rec.call("default", normalize, P.data, bg, var)
            compare(rec, "default:diff", got, P.want("corr", False, norm=default)[0], P.nopairs, False)
    elif kind == "flags":
        names = {"baseline": 0, "none": 0, "standard": 1, "structured": 2, "subtracted": 4, "compensated": 8, "weighted": 3}
        for r in range(1, 4):
            for combo in itertools.product(sorted(names), repeat=r):
                for sep, up in (("|", False), (" | ", True)):
                    s = sep.join(c.upper() if up else c for c in combo)
                    v = 0
                    for c in combo:
                        v |= names[c]
                    if v % 4 == 0:
                        v |= 1
                    rec.state("string", s)
                    rec.check(rec.call("string", nm.norm_from_string, s) == v, "norm string", s)
        for s in ("", "abc", "standard|", "|", "standard,structured", "flags"):
            if s == "flags":
                continue
            rec.raises("bad string " + s, ValueError, nm.norm_from_string, s)
        for a, b, c, d in itertools.product((False, True), repeat=4):
            v = (2 if a else 0) | (4 if b else 0) | (3 if c else 0) | (8 if d else 0)
            if not a and not c:
                v |= 1
            rec.state("flags", a, b, c, d)
            rec.check(nm.norm_flags(structured=a, subtracted=b, weighted=c, compensated=d) == v, "norm_flags", (a, b, c, d))
        # names are equivalent to numbers
        P = Prob("c", "corr", False, 7, (3,), 0, 0)
        bg, var = P.bgvar()
        for nrm in NORMS:
            parts = ([] if nrm & 3 == 0 else [["standard"], ["structured"], ["weighted"]][(nrm & 3) - 1]) + (["subtracted"] if nrm & 4 else []) + (["compensated"] if nrm & 8 else [])
            for perm in itertools.permutations(parts):
                rec.state("name", perm)
                rec.same(rec.call("name", normalize, P.data, bg, var, norm="|".join(perm)), P.want("corr", False, norm=nrm)[0], "norm by name %d" % nrm)
                rec.trace()
    elif kind == "errors":
        P = Prob("c", "corr", False, 7, (3,), 0, 0)
        bg, var = P.bgvar()
        for norm in NORMS:
            for mode, scale in itertools.product(("corr", "diff"), (False, True)):
                rec.state("missing", norm, mode, scale)
                rec.raises("no background norm%d" % norm, ValueError, normalize, P.data, None, var, norm=norm, mode=mode, scale=scale)
                if mode == "diff" or scale or norm & 2:
                    rec.raises("no variance norm%d" % norm, ValueError, normalize, P.data, bg, None, norm=norm, mode=mode, scale=scale)
                else:
                    rec.same(rec.call("no variance", normalize, P.data, bg, None, norm=norm, mode=mode, scale=scale), P.want(mode, scale, norm=norm)[0], "variance is not needed norm%d" % norm)
        for m in ("abc", None, "CORR", 1):
            rec.raises("mode %s" % m, ValueError, normalize, P.data, bg, var, mode=m)
        for d in (P.data[:3], P.data + (None,), (), None, 5):
            rec.raises("bad data", ValueError, normalize, d, bg, var)
        rec.raises("bad norm string", ValueError, normalize, P.data, bg, var, norm="abc")
    elif kind == "weights":
        gs = (0., .2, .7, .95, .5 + .5j, .3 - .6j, -.4 + .1j, .6j)
        bs = (0., 1., 2 - 1j, -.5 + 3j)
        sh = (len(gs), 1)
        for delta in (0., .25, -.1, -.25):
            ok = [g for g in gs if abs2(g) <= 1 - delta ** 2]
            for b1, b2 in itertools.product(bs, repeat=2):
                E = [ensemble(g, delta, b1, b2) for g in ok]
                W = np.array([best(e) for e in E])
                g = np.array(ok)
                key = "prime" if b1 or b2 else "zero mean"
                rec.state("weights", delta, b1, b2)
                rec.same(rec.call("wp", nm.weight_prime_from_g, g.astype(complex), delta, b1, b2), W, key + ": weight_prime_from_g is not the one of the smallest variance")
                rec.same(rec.call("wp", nm.weight_prime_from_d, 2 - 2 * g.astype(complex), delta, b1, b2), W, key + ": weight_prime_from_d")
                for w in (0., .3, 1., .9):
                    S = np.array([max(spread(w, e), 0) ** .5 for e in E])
                    rec.same(rec.call("sp", nm_nb().sigma_prime_weighted, w, g.astype(complex), delta, b1, b2), S, key + ": sigma_prime_weighted is not the spread", atol=1e-7)
                    if not b1 and not b2:
                        rec.same(rec.call("s", nm.sigma_weighted, w, g.astype(complex), delta), S, "sigma_weighted is not the spread", atol=1e-7)
                rec.same(rec.call("sp", nm_nb().sigma_prime_weighted, W, g.astype(complex), delta, b1, b2), np.array([max(spread(w, e), 0) ** .5 for w, e in zip(W, E)]), key + ": smallest spread", atol=1e-7)
                if not b1 and not b2:
                    H = np.array([best(ensemble(-1j * x, delta)) for x in ok])
                    rec.same(rec.call("w", nm.weight_from_g, g.astype(complex), delta), W + 1j * H, "weight_from_g of complex data")
                    rec.same(rec.call("w", nm.weight_from_d, 2 - 2 * g.astype(complex), delta), W + 1j * H, "weight_from_d of complex data")
                    r = g.real[g.imag == 0]
                    rec.same(rec.call("w", nm.weight_from_g, r, delta), W[g.imag == 0], "weight_from_g of real data")
                    rec.same(rec.call("w", nm.weight_from_d, 2 - 2 * r, delta), W[g.imag == 0], "weight_from_d of real data")
                # from data: a decreasing correlation function; filtering makes anything decreasing and clipped
                for sc in (1., 5.):
                    for x in (np.array([.9, .8, .6, .3, .2, .1]), np.array([.9, 1.2, .6, .65, .2, -.1]), np.array([1.3, .7, .7, .2, .4, .1])):
                        for pre in (False, True):
                            y = x.copy()
                            if pre:
                                y = denoise(np.clip(np.minimum.accumulate(denoise(y)), 0, 1))
                            if pre or abs(y).max() <= (1 - delta ** 2) ** .5:
                                y = np.where(abs(y) <= (1 - delta ** 2) ** .5, y, np.nan)
                                u = np.array([np.nan if v != v else best(ensemble(v, delta, b1, b2)) for v in y])
                                for mode in ("corr", "diff"):
                                    z = x * sc if mode == "corr" else (1 - x) * 2 * sc
                                    got = rec.call("wp data", nm_weight_prime(), z, b1, b2, delta, sc, mode=mode, pre_filter=pre)
                                    rec.same(got[u == u], u[u == u], "weight_prime_from_data %s filtered %d" % (mode, pre))
                rec.trace()
        rec.raises("weight prime mode", ValueError, nm_weight_prime(), np.ones(4), 1., 1., mode="abc")
        # arrays of different shapes broadcast against each other
        g = ref.gdata((3, 1, 4), 5, True) / 20.
        b1, b2, dl = ref.gdata((2, 1), 6, True), ref.gdata((3, 2, 1), 7, True), ref.gdata((2, 1), 8, False) / 40.
        gb, b1b, b2b, dlb = np.broadcast_arrays(g, b1, b2, dl)
        want = np.array([best(ensemble(*v)) for v in zip(gb.ravel(), dlb.ravel(), b1b.ravel(), b2b.ravel())]).reshape(gb.shape)
        rec.same(rec.call("wp", nm.weight_prime_from_g, g, dl, b1, b2), want, "weight_prime_from_g broadcasting")
        rec.trace()
    elif kind == "helpers":
        for sh in SHAPES + AMBIG:
            v1, v2 = abs(ref.gdata(sh, 3, False)) + 4., abs(ref.gdata(sh, 4, False)) + 6.
            for mk in [None] + ([np.array(b).reshape(sh) for b in itertools.product((False, True), repeat=int(np.prod(sh))) if any(b)][::7] if sh else []):
                sel = (lambda x: x) if mk is None else (lambda x: x[mk])
                rec.state("helpers", sh, None if mk is None else mk.tobytes())
                rec.same(rec.call("scale_factor", nm.scale_factor, (v1, v2), mk), sel((v1 + v2) / 2), "scale_factor pair")
                if sh not in AMBIG:
                    rec.same(rec.call("scale_factor", nm.scale_factor, v1, mk), sel(v1), "scale_factor single")
                rec.same(rec.call("noise_delta", nm.noise_delta, (v1, v2), mk), sel((v2 - v1) / (v1 + v2)), "noise_delta pair")
                rec.same(rec.call("noise_delta", nm.noise_delta, (v1.astype(int), v2.astype(int)), mk), sel((v2 - v1) / (v1 + v2)), "noise_delta of integers")
                rec.same(rec.call("noise_delta", nm.noise_delta, (v1, v2), mk, scale=False), sel((v2 - v1) / 2), "noise_delta not scaled")
                if sh not in AMBIG:
                    rec.same(rec.call("noise_delta", nm.noise_delta, v1, mk), sel(np.zeros_like(v1)), "noise_delta single")
            for n in (3, 4, 7):
                for cplx in (False, True):
                    g = ref.gdata(sh + (n,), 9, cplx) / 5.
                    d1 = abs(ref.gdata(sh, 14, False)) / 3.
                    for sc in (1., v1):
                        s = np.asarray(sc)[..., None]
                        for pre in (False, True):
                            rec.state("weight", sh, n, cplx, pre)
                            x = denoise(g) if pre else g
                            ww = lambda y, d: 2 * y / (abs2(y) + 1 + np.asarray(d)[..., None] ** 2)
                            for dl in (0., d1):
                                rec.same(rec.call("weight", nm.weight_from_data, g, dl, sc, pre_filter=pre), ww(x / s, dl), "weight corr")
                                rec.same(rec.call("weight", nm.weight_from_data, g, dl, sc, mode="diff", pre_filter=pre), ww(1 - x / s / 2, dl), "weight diff")
                    if not cplx:
                        for fac in (.5, 1., -1., 3., 30.):
                            q = g * fac / s
                            rec.same(nm.noise_mean(g * fac, v1), np.clip(1 - q[..., 0], 0, 1), "noise_mean corr")
                            rec.same(nm.noise_mean(g * fac, v1, "diff"), np.clip(q[..., 0] / 2, 0, 1), "noise_mean diff")
                            rec.same(nm.noise_mean(g * fac), np.clip(1 - g[..., 0] * fac, 0, 1), "noise_mean not scaled")
            rec.trace()
        rec.raises("weight mode", ValueError, nm.weight_from_data, np.ones(4), mode="abc")
        rec.raises("noise_mean mode", ValueError, nm.noise_mean, np.ones(4), mode="abc")
        for sh in ((3, 3), (4, 2)):
            w = ref.gdata(sh, 5, True)
            rec.same(nm.noise_level(w, 7.), abs2(w).sum() * 7, "noise_level")
        rec.raises("scale_factor none", ValueError, nm.scale_factor, None)
