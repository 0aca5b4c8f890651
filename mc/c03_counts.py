"""C03: delay counts equal the number of frame pairs at each delay."""
import itertools
import numpy as np
from mc import ref

PID = "C03"
RULE = ("state = (function, time sequences, requested length, signed/unsigned); transition = one call; trace = one count array compared "
        "with brute-force enumeration of all frame pairs")


def bounds(tier):
    return "all pairs of subsets of {0..%d} up to %d frames (any two sizes), all permutations of small sets, offsets, sparse times, scalars 1..8, accumulation histories of depth 3" % ((5, 3) if tier == "quick" else (7, 4)) + "; all pairs of 9 types of time stamps; a few instances with up to 47000 frames"


def cases(tier):
    U, K = (6, 3) if tier == "quick" else (8, 4)
    out = []
    for k in range(1, K + 1):
        for a in ref.subsets(U, k):
            out.append(("pairs", a, U, K))
    for a in itertools.product(range(4), repeat=3):
        out.append(("any", a))
    for n1 in range(1, 9):
        out.append(("scalar", n1))
    out.append(("sparse",))
    for cplx in (False, True):
        out.append(("hist", cplx))
    out.append(("histauto",))
    for ln in (40, 129, 300):
        out.append(("large", ln))
    out.append(("many",))
    for t1 in ref.TIME_TYPES:
        for t2 in ref.TIME_TYPES:
            out.append(("types", t1, t2))
    return out


def _cc(rec, t1, t2, n, cplx, key):
    import cddm.core as core
    got = rec.call(key, core.cross_count, t1, t2, n, complex=cplx)
    a = np.arange(t1) if np.ndim(t1) == 0 else np.asarray(t1)
    b = a if t2 is None else (np.arange(t2) if np.ndim(t2) == 0 else np.asarray(t2))
    nn = ref.full_n_cross(a.tolist(), b.tolist()) if n is None else n
    rec.state("c", tuple(a.tolist()), tuple(b.tolist()), n, cplx)
    rec.same(got, ref.ccount(a.tolist(), b.tolist(), nn, cplx), key)
    rec.check(np.asarray(got).dtype.kind in "iu", key + ":int", "counts are not integers")
    rec.trace()


def _ac(rec, t, n, key):
    import cddm.core as core
    got = rec.call(key, core.auto_count, t, n)
    a = np.arange(t) if np.ndim(t) == 0 else np.asarray(t)
    nn = ref.full_n_auto(a.tolist()) if n is None else n
    rec.state("a", tuple(a.tolist()), n)
    rec.same(got, ref.acount(a.tolist(), nn), key)
    rec.trace()


def run(case, rec):
    import cddm.core as core
    kind = case[0]
    if kind == "pairs":
        _, a, U, K = case
        for off in (0, -7, 4):
            t1 = [x + off for x in a]
            for n in (None, 1, 2, 4, U, U + 3):
                _ac(rec, t1, n, "auto:%s:n%s" % (t1, n))
                for cplx in (False, True):
                    _cc(rec, t1, None, n, cplx, "cross:%s:None:n%s:c%d" % (t1, n, cplx))
            for kk in range(1, K + 1):
                for b in ref.subsets(U, kk):
                    t2 = [x + off for x in b]
                    for n in (None, 1, 2, U + 2):
                        for cplx in (False, True):
                            _cc(rec, t1, t2, n, cplx, "cross:%s:%s:n%s:c%d" % (t1, t2, n, cplx))
    elif kind == "any":
        a = list(case[1])
        for n in (None, 2, 6):
            _ac(rec, a, n, "auto:%s:n%s" % (a, n))
            for b in ([0, 1, 2], [3, 1, 0], a[::-1], [2, 2, 2]):
                for cplx in (False, True):
                    _cc(rec, a, b, n, cplx, "cross:%s:%s:n%s:c%d" % (a, b, n, cplx))
    elif kind == "scalar":
        n1 = case[1]
        for n in [None] + list(range(1, n1 + 3)):
            _ac(rec, n1, n, "auto:scalar%d:n%s" % (n1, n))
            for cplx in (False, True):
                _cc(rec, n1, None, n, cplx, "cross:scalar%d:None:n%s:c%d" % (n1, n, cplx))
                for n2 in range(1, 7):
                    _cc(rec, n1, n2, n, cplx, "cross:scalar%d:%d:n%s:c%d" % (n1, n2, n, cplx))
                _cc(rec, n1, [0, 2, 5], n, cplx, "cross:scalar%d:arr:n%s:c%d" % (n1, n, cplx))
                _cc(rec, [1, 2, 5], n1, n, cplx, "cross:arr:scalar%d:n%s:c%d" % (n1, n, cplx))
    elif kind == "sparse":
        for t1 in ([0, 10 ** 6, 3 * 10 ** 9], [-(10 ** 10), 5, 6], [2 ** 40, 2 ** 40 + 3]):
            for n in (1, 4, 8):
                _ac(rec, t1, n, "auto:%s:n%s" % (t1, n))
                for cplx in (False, True):
                    _cc(rec, t1, [x + 2 for x in t1], n, cplx, "cross:%s:+2:n%s:c%d" % (t1, n, cplx))
    elif kind == "types":
        for a, b in (([0, 2, 3, 7, 120], [1, 2, 5, 119]), ([3, 1, 0], [0, 3, 4]), ([5], [0, 1])):
            x, y = ref.typed_times(a, case[1]), ref.typed_times(b, case[2])
            for n in (None, 3, 130):
                _ac(rec, x, n, "types auto:%s:%s:n%s" % (a, case[1], n))
                for cplx in (False, True):
                    _cc(rec, x, y, n, cplx, "types cross:%s:%s:%s:%s:n%s:c%d" % (a, case[1], b, case[2], n, cplx))
                    _cc(rec, y, x, n, cplx, "types cross:%s:%s:%s:%s:n%s:c%d" % (b, case[2], a, case[1], n, cplx))
    elif kind == "large":
        ln = case[1]
        g1 = [i + i // 3 + i // 7 for i in range(ln)]
        g2 = [i + i // 2 + i // 5 - 2 for i in range(ln)]
        g3 = [g1[(i * 7) % ln] if ln % 7 else g1[-1 - i] for i in range(ln)]
        for a, b in ((g1, g2), (g2, g1), (g3, g1), (g1, [5]), ([3, 3, 3], g2)):
            for n in (None, 1, ln // 2, 3 * ln):
                _ac(rec, a, n, "large auto:L%d:n%s" % (ln, n))
                for cplx in (False, True):
                    _cc(rec, a, b, n, cplx, "large cross:L%d:n%s:c%d" % (ln, n, cplx))
    elif kind == "many":
        # more pairs than fit into 8, 16 and 32 bits: equal times
        for a, b in ((300, 1), (300, 300), (70000, 1), (47000, 47000)):
            for n in (1, 2) if a < 47000 or b == 1 else (1,):
                rec.state(case, a, b, n)
                for cplx in (False, True) if a < 47000 or b == 1 else (False,):
                    want = np.zeros(2 * n - 1 if cplx else n, int)
                    want[0] = a * b
                    rec.same(rec.call("many", core.cross_count, [4] * a, [4] * b, n, complex=cplx), want, "many equal times: cross_count")
                rec.trace()
        for ln in (300, 70000):
            for n in (1, 3):
                rec.state(case, ln, n)
                k = np.arange(n)
                rec.same(rec.call("many", core.auto_count, ln, n), ln - k, "many: auto_count")
                rec.same(rec.call("many", core.cross_count, ln, None, n), np.where(k, 2, 1) * (ln - k), "many: cross_count")
                rec.same(rec.call("many", core.cross_count, ln, None, n, complex=True), np.concatenate([ln - k, ln - k[:0:-1]]), "many: cross_count complex")
                rec.trace()
    elif kind == "hist":
        cplx = case[1]
        acts = [([0, 1, 2], [0, 1, 2]), ([5, 7], [4, 9]), ([3], [3]), ([9, 2, 4], [1, 1, 8])]
        for n in (1, 3, 5):
            for h in itertools.product(range(len(acts)), repeat=3):
                acc = np.zeros(2 * n - 1 if cplx else n, int)
                want = acc.copy()
                for i, j in enumerate(h):
                    t1, t2 = acts[j]
                    r = rec.call("hist", core.cross_count, t1, t2, None, complex=cplx, aout=acc)
                    want = want + ref.ccount(t1, t2, n, cplx)
                    rec.state("h", cplx, n, h[:i + 1])
                    key = "hist:%s:n%d:c%d" % (h[:i + 1], n, cplx)
                    rec.same(r, want, key); rec.same(acc, want, key + ":inplace")
                rec.trace()
    elif kind == "histauto":
        acts = [[0, 1, 2], [5, 7], 4, [9, 2, 4]]
        for n in (1, 3, 5):
            for h in itertools.product(range(len(acts)), repeat=3):
                acc = np.zeros(n, int)
                want = acc.copy()
                for i, j in enumerate(h):
                    t = acts[j]
                    r = rec.call("hist", core.auto_count, t, None, aout=acc)
                    want = want + ref.acount(np.arange(t) if np.ndim(t) == 0 else t, n)
                    rec.state("ha", n, h[:i + 1])
                    key = "histauto:%s:n%d" % (h[:i + 1], n)
                    rec.same(r, want, key); rec.same(acc, want, key + ":inplace")
                rec.trace()
