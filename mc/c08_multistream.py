"""C08: multiple-tau data of a stream equals the definition, independent of the chunk size."""
import itertools
import numpy as np
from mc import ref
from mc import c07_multi as m7
from mc.c06_stream import stream, used_frames, View

PID = "C08"
RULE = ("state = (function, method, binning, norm, real/complex, stream length, chunk size, level size, period, nlevel, mode, chunks consumed); "
        "transition = one chunk consumed; after every chunk the published fast part must equal the definition on the frames consumed and every "
        "slow level must equal the definition on a prefix of them; the final result must be complete")
FIRST, MEAN, CHOOSE = 0, 1, 2


def bounds(tier):
    return ("level sizes 1..5, chunk sizes from the level size up, stream lengths up to %d including lengths that are not a multiple, nlevel "
            "unspecified/0..3, both modes, all methods, norms and binnings, periods 1..3, thread divisors and all 2x2 masks") % (24 if tier == "quick" else 40) + "; 11 data types and 9 types of time stamps; a few instances with up to 300 frames or 1320 pixels, default level and chunk size on long streams"


CONF = [("corr", n, c) for n in (1, 2, 3, 5, 6, 7) for c in (False, True)] + [("fft", n, c) for n in (3, 7) for c in (False, True)] + \
       [("diff", 2, False), ("diff", 6, False)]


def cases(tier):
    out = []
    counts = (2, 5, 8, 9, 16, 24) if tier == "quick" else (2, 3, 4, 5, 6, 8, 9, 10, 12, 16, 20, 24, 32, 40)
    for fn in ("iccorr_multi", "iacorr_multi"):
        for cfg in CONF:
            if fn == "iacorr_multi" and cfg[:2] == ("diff", 6):
                continue
            for b in (None, FIRST):
                for mode in ("full", "chunk"):
                    for L in counts:
                        out.append(("reg", fn, cfg, b, mode, L, tier))
        for cfg in (("corr", 7, False), ("corr", 3, True), ("fft", 7, False), ("diff", 2, False)):
            for per in (1, 2, 3):
                for pat in range(6):
                    out.append(("times", fn, cfg, per, pat))
            out.append(("mask", fn, cfg))
            out.append(("thread", fn, cfg))
            out.append(("choose", fn, cfg))
            out.append(("choose2", fn, cfg))
            for L, ls, chunk, sh in ((64, 5, 8, (2,)), (96, 8, 12, (2, 2)), (200, 16, 25, (1,)), (256, 16, 64, (2,)), (384, 3, 6, (1,)), (16, 2, 4, (40, 33)), (16, 4, 8, (1100,))):
                out.append(("large", fn, cfg, L, ls, chunk, sh))
            for dt in ref.DATA_TYPES:
                out.append(("types", fn, cfg, dt))
            for L in (128, 129, 257, 300):
                out.append(("default", fn, cfg, L))
        out.append(("errors", fn))
    return out


def chunked(fn, F1, F2, S1, S2, t1, t2, n, norm, m, cplx, chunk):
    acc = None
    for a in range(0, len(F1), chunk):
        s = slice(a, a + chunk)
        w = m7.level_data(fn, F1[s], F2[s], S1[s], S2[s], t1[s], t2[s], n, norm, m, cplx)
        acc = w if acc is None else ref.add_data(acc, w)
    return acc


class Model:
    """Definition on a prefix of the (coarse grained) stream; memoised."""

    def __init__(self, fn, f1, f2, t1, t2, ls, period, norm, method, cplx, binning, mode, chunk, used):
        self.__dict__.update(locals())
        self.m = "diff" if method == "diff" else "corr"
        self.memo = {}
        F1, F2 = f1[:used], f2[:used]
        S1, S2 = F1.real ** 2 + F1.imag ** 2, F2.real ** 2 + F2.imag ** 2
        self.lev = [(F1, F2, S1, S2)]
        while len(self.lev[-1][0]) >= 2:
            self.lev.append(tuple(m7.coarse(x, binning) for x in self.lev[-1]))

    def data(self, level, upto):
        if (level, upto) not in self.memo:
            F1, F2, S1, S2 = (x[:upto] for x in self.lev[level])
            t1, t2 = (self.t1[:upto], self.t2[:upto]) if level == 0 else (range(upto), range(upto))
            n = self.ls * self.period if level == 0 else self.ls
            if upto == 0:
                F1, F2, S1, S2 = (x[:1] * 0 for x in self.lev[level])
                w = m7.level_data(self.fn, F1, F2, S1, S2, [0], [0], n, self.norm, self.m, self.cplx)
                w = tuple(None if x is None else x * 0 for x in w)
            elif self.mode == "full":
                w = m7.level_data(self.fn, F1, F2, S1, S2, t1, t2, n, self.norm, self.m, self.cplx)
            else:
                w = chunked(self.fn, F1, F2, S1, S2, t1, t2, n, self.norm, self.m, self.cplx, self.chunk)
            self.memo[level, upto] = w
        return self.memo[level, upto]

    def levels(self, nlevel):
        k = 0
        while self.used // 2 ** (k + 1) >= self.ls:
            k += 1
        return k if nlevel is None else min(nlevel, k)


def same(a, b):
    return all((x is None and y is None) or (x is not None and y is not None and x.shape == y.shape and np.allclose(x, y, rtol=1e-8, atol=1e-7, equal_nan=True)) for x, y in zip(a, b))


class MView(View):
    def set_data(self, data, background=None, variance=None):
        self.seen.append(tuple(tuple(None if d is None else np.array(d) for d in part) for part in data))


def execute(rec, key, fn, cfg, f1, f2, t1, t2, ls, period, chunk, mode, binning=None, nlevel=None, count=None, mask=None, stats=False, reuse=False, model=None, steps=None, **kw):
    import cddm.multitau as mt
    method, norm, cplx, be = m7.effective(fn, cfg, binning)
    L = count or len(f1)
    T1 = list(range(L)) if t1 is None else [int(x) for x in t1]
    T2 = list(range(L)) if t2 is None else [int(x) for x in t2]
    used = used_frames(L, steps or chunk)
    F1, F2 = (f1, f2) if f1.dtype in (float, complex) else (f1.astype(complex), f2.astype(complex))
    mod = model or Model(fn, F1, F2, T1, T2, ls, period, norm, method, cplx, be, mode, chunk, used)
    v = MView()
    args = dict(level_size=ls, norm=cfg[1], method=cfg[0], count=L, period=period, binning=binning, nlevel=nlevel, chunk_size=chunk,
                viewer=v, mode=mode, mask=mask, stats=stats, complex=cplx, **kw)
    data = stream("iccorr" if fn == "iccorr_multi" else "iacorr", f1, f2, reuse)
    rec.state(key)
    if fn == "iccorr_multi":
        got = rec.call(key, mt.iccorr_multi, data, t1, t2, **args)
    else:
        got = rec.call(key, mt.iacorr_multi, data, t1, **args)
    if stats:
        got = got[0]

    def expand(w):
        if mask is None:
            return w
        out = []
        for i, x in enumerate(w):
            if x is None or i == 1:
                out.append(x)
            else:
                y = np.full(x.shape, np.nan, x.dtype)
                y[..., mask, :] = x[..., mask, :]
                out.append(y)
        return tuple(out)
    chunk = steps or chunk
    nl = mod.levels(nlevel)
    full = [expand(mod.data(k, len(mod.lev[k][0]))) for k in range(nl + 1)]
    T = m7.T(rec)
    ref.same_data(T, got[0], full[0], key + ":fast")
    if nl:
        ref.same_data(T, got[1], tuple(None if full[0][i] is None else np.array([w[i] for w in full[1:]]) for i in range(len(full[0]))), key + ":slow")
    else:
        rec.check(len(got[1][0]) == 0, key + ":slow", "no level expected")
    rec.trace()
    # intermediate results
    for i, seen in enumerate(v.seen[:-1]):
        con = (i + 1) * chunk
        rec.step()
        rec.state(key, con)
        ref.same_data(T, seen[0], expand(mod.data(0, con)), "%s:after%d:fast" % (key, con))
        for k in range(1, nl + 1):
            s = tuple(None if x is None else x[k - 1] for x in seen[1])
            # zeros where nothing was calculated yet are NaN-free; masked-out points are NaN
            c2 = con // 2 ** k
            ok = any(same(s, expand(mod.data(k, u))) for u in sorted({0, c2} | set(range(0, c2 + 1, chunk))))
            rec.check(ok, "%s:after%d:level%d" % (key, con, k), "slow level %d after %d frames is not the result of any prefix of them:\n%s" % (k, con, s[0]))
    rec.check(len(v.seen) in (used // chunk, used // chunk + 1), key + ":published", "published %d results for %d chunks" % (len(v.seen), used // chunk))


def run(case, rec):
    import cddm.multitau as mt
    kind, fn = case[0], case[1]
    if kind == "reg":
        _, fn, cfg, b, mode, L, tier = case
        f1, f2 = ref.gdata((L, 1, 2), L), ref.gdata((L, 1, 2), L + 50)
        t = list(range(L))
        method, norm, cplx, be = m7.effective(fn, cfg, b)
        for ls in (1, 2, 3, 5):
            for chunk in sorted({ls, ls + 1, 4, 8, L // 2, L}):
                if not ls <= chunk <= L:
                    continue
                used = used_frames(L, chunk)
                mod = Model(fn, f1, f2, t, t, ls, 1, norm, method, cplx, be, mode, chunk, used)
                for nlevel in (None, 0, 1, 2, 3):
                    key = "%s:%s:bin%s:L%d:level%d:chunk%d:nlevel%s:%s" % (fn, cfg, b, L, ls, chunk, nlevel, mode)
                    execute(rec, key, fn, cfg, f1, f2, None, None, ls, 1, chunk, mode, b, nlevel, count=L, reuse=bool((ls + chunk) % 2), model=mod)
    elif kind == "times":
        _, fn, cfg, per, pat = case
        for L, ls, chunk in ((8, 2, 2), (16, 3, 4), (16, 4, 8)):
            f1, f2 = ref.gdata((L, 2, 2), L), ref.gdata((L, 2, 2), L + 50)
            t1 = [per * i + (i * (pat + 1) + pat // 3) % per for i in range(L)]
            t2 = [per * i + (i * i + pat) % per for i in range(L)]
            key = "%s:%s:t1=%s:t2=%s:level%d:chunk%d" % (fn, cfg, t1, t2, ls, chunk)
            execute(rec, key, fn, cfg, f1, f2, t1, t2, ls, per, chunk, "full")
            execute(rec, key + ":nlevel1", fn, cfg, f1, f2, t1, t2, ls, per, chunk, "full", nlevel=1)
    elif kind == "large":
        _, fn, cfg, L, ls, chunk, sh = case
        f1, f2 = ref.gdata((L,) + sh, L), ref.gdata((L,) + sh, L + 50)
        for mode in ("full", "chunk"):
            for td in (None, 5, 11) if np.prod(sh) > 100 else (None,):
                key = "large:%s:%s:L%d:level%d:chunk%d:%s:%s:td%s" % (fn, cfg, L, ls, chunk, sh, mode, td)
                execute(rec, key, fn, cfg, f1, f2, None, None, ls, 1, chunk, mode, count=L, reuse=True, thread_divisor=td)
        if L < 200:
            t1 = [3 * i + (i * i) % 3 for i in range(L)]
            t2 = [3 * i + (i + i // 4) % 3 for i in range(L)]
            execute(rec, "large:%s:%s:L%d:level%d:chunk%d:%s:times" % (fn, cfg, L, ls, chunk, sh), fn, cfg, f1, f2, t1, t2, ls, 3, chunk, "full")
    elif kind == "types":
        _, fn, cfg, dt = case
        f1, f2 = ref.typed((24, 2), 3, dt, False), ref.typed((24, 2), 4, dt, False)
        for mode in ("full", "chunk"):
            for binning in (None, 0):
                execute(rec, "types:%s:%s:%s:%s:%s" % (fn, cfg, dt, mode, binning), fn, cfg, f1, f2, None, None, 4, 1, 4, mode, binning=binning, count=24, reuse=bool(binning))
        a = [3 * i + (i * i) % 3 for i in range(24)]
        b = [3 * i + (i + i // 4) % 3 for i in range(24)]
        for tt in ref.TIME_TYPES:
            execute(rec, "types:%s:%s:%s:times %s" % (fn, cfg, dt, tt), fn, cfg, f1, f2, ref.typed_times(a, tt), ref.typed_times(b, tt), 4, 3, 8, "full")
    elif kind == "default":
        _, fn, cfg, L = case
        f1, f2 = ref.gdata((L, 1), L), ref.gdata((L, 1), L + 50)
        method, norm, cplx, be = m7.effective(fn, cfg, None)
        for ls in (5, 16, 90):
            ch = L
            while ch // 2 >= ls and ch > 128:
                ch //= 2
            mod = Model(fn, f1, f2, range(L), range(L), ls, 1, norm, method, cplx, be, "full", ch, used_frames(L, ch))
            execute(rec, "default:%s:%s:L%d:level%d" % (fn, cfg, L, ls), fn, cfg, f1, f2, None, None, ls, 1, None, "full", count=L, model=mod, steps=ch)
    elif kind == "mask":
        _, fn, cfg = case
        f1, f2 = ref.gdata((8, 2, 2), 8), ref.gdata((8, 2, 2), 58)
        for bits in itertools.product((False, True), repeat=4):
            if not any(bits):
                continue
            m = np.array(bits).reshape(2, 2)
            for td in [None] + [d for d in (1, 2, 4) if sum(bits) % d == 0]:
                for chunk in (2, 4, 8):
                    for mode in ("full", "chunk"):
                        execute(rec, "%s:%s:mask%s:td%s:chunk%d:%s" % (fn, cfg, bits, td, chunk, mode), fn, cfg, f1, f2, None, None, 2, 1, chunk, mode, mask=m, stats=td is None, thread_divisor=td)
        f1, f2 = ref.gdata((8, 3), 8), ref.gdata((8, 3), 58)
        m = np.array([True, False, True])
        execute(rec, "%s:%s:mask1d" % (fn, cfg), fn, cfg, f1, f2, None, None, 2, 1, 2, "full", mask=m)
    elif kind == "thread":
        _, fn, cfg = case
        for sh in ((6,), (2, 3), (1, 6), (2, 1, 3)):
            f1, f2 = ref.gdata((8,) + sh, 8), ref.gdata((8,) + sh, 58)
            for td in (None, 1, 2, 3, 6):
                for chunk in (2, 4, 8):
                    for st in (False, True):
                        execute(rec, "%s:%s:%s:td%s:chunk%d:st%d" % (fn, cfg, sh, td, chunk, st), fn, cfg, f1, f2, None, None, 2, 1, chunk, "full", stats=st, thread_divisor=td)
    elif kind == "choose":
        _, fn, cfg = case
        method, norm, cplx, be = m7.effective(fn, cfg, CHOOSE)
        L, ls = 10, 5
        f1, f2 = ref.gdata((L, 1, 2), L), ref.gdata((L, 1, 2), L + 50)
        wants = {}
        S1, S2 = f1.real ** 2 + f1.imag ** 2, f2.real ** 2 + f2.imag ** 2
        for p in itertools.product((0, 1), repeat=5):
            idx = [2 * i + x for i, x in enumerate(p)]
            wants[p] = m7.level_data(fn, f1[idx], f2[idx], S1[idx], S2[idx], range(5), range(5), ls, norm, "diff" if method == "diff" else "corr", cplx)
        fast = m7.level_data(fn, f1, f2, S1, S2, range(L), range(L), ls, norm, "diff" if method == "diff" else "corr", cplx)
        hits = set()
        for chunk in (5, 10):
            for ans in itertools.product((0.2, 0.8), repeat=7):
                seq = itertools.chain(itertools.chain.from_iterable((a, a) for a in ans[:5]), ans[5:], itertools.cycle((.3, .7, .7)))
                old = np.random.rand
                np.random.rand = lambda *a: next(seq)
                key = "%s:%s:choose:chunk%d:%s" % (fn, cfg, chunk, ans)
                rec.state(key)
                try:
                    s = stream("iccorr" if fn == "iccorr_multi" else "iacorr", f1, f2)
                    kw = dict(level_size=ls, norm=cfg[1], method=cfg[0], count=L, binning=CHOOSE, chunk_size=chunk, stats=False, complex=cplx)
                    got = rec.call(key, mt.iccorr_multi if fn == "iccorr_multi" else mt.iacorr_multi, s, **kw)
                finally:
                    np.random.rand = old
                ref.same_data(m7.T(rec), got[0], fast, key + ":fast")
                s = tuple(None if x is None else x[0] for x in got[1])
                hit = [p for p, w in wants.items() if same(s, w)]
                rec.check(bool(hit), key, "slow data does not correspond to any selection of one frame of each pair (same for both cameras and squares)")
                hits.update(hit[:1])
                rec.trace()
        rec.outcome(sorted(hits))
    elif kind == "choose2":
        # two slow levels, the first one within the stream, the second one at its end
        _, fn, cfg = case
        method, norm, cplx, be = m7.effective(fn, cfg, CHOOSE)
        L, ls = 20, 5
        f1, f2 = ref.gdata((L, 1, 1), L), ref.gdata((L, 1, 1), L + 50)
        S1, S2 = f1.real ** 2 + f1.imag ** 2, f2.real ** 2 + f2.imag ** 2

        def level(idx):
            n = range(len(idx))
            return m7.level_data(fn, f1[idx], f2[idx], S1[idx], S2[idx], n, n, ls, norm, "diff" if method == "diff" else "corr", cplx)

        wants = {}
        for p in itertools.product((0, 1), repeat=10):
            idx = [2 * i + x for i, x in enumerate(p)]
            w = level(idx)
            wants.setdefault(tuple(np.round(np.ravel(w[0])[:2], 6)), []).append((idx, w))
        hits = set()
        for chunk in (5, 10):
            for ans in itertools.product((0.2, 0.8), repeat=4):
                a, b, c, d = ans
                seq = itertools.chain((a, b, b, a, c, d, c, c, d, a, d, b, a, a, b, c, d, d, b, a), (d, c), itertools.cycle((.3, .7, .7)))
                old = np.random.rand
                np.random.rand = lambda *a: next(seq)
                key = "%s:%s:choose2:chunk%d:%s" % (fn, cfg, chunk, ans)
                rec.state(key)
                try:
                    s = stream("iccorr" if fn == "iccorr_multi" else "iacorr", f1, f2)
                    kw = dict(level_size=ls, norm=cfg[1], method=cfg[0], count=L, binning=CHOOSE, chunk_size=chunk, stats=False, complex=cplx)
                    got = rec.call(key, mt.iccorr_multi if fn == "iccorr_multi" else mt.iacorr_multi, s, **kw)
                finally:
                    np.random.rand = old
                one, two = (tuple(None if x is None else x[i] for x in got[1]) for i in (0, 1))
                cand = [idx for idx, w in itertools.chain.from_iterable(wants.values()) if np.allclose(np.ravel(w[0])[:2], np.ravel(one[0])[:2]) and same(one, w)]
                ok = rec.check(bool(cand), key + ":level1", "slow data does not correspond to any selection of one frame of each pair (same for both cameras and squares)")
                if ok:
                    rec.check(any(same(two, level([idx[2 * i + x] for i, x in enumerate(q)])) for idx in cand for q in itertools.product((0, 1), repeat=5)), key + ":level2",
                              "the second level does not correspond to any selection of one frame of each pair of the first one")
                    hits.add(tuple(cand[0]))
                rec.trace()
        rec.outcome(sorted(hits))
    elif kind == "errors":
        f_ = mt.iccorr_multi if fn == "iccorr_multi" else mt.iacorr_multi
        f1 = ref.gdata((8, 1, 2), 8)
        src = lambda k=8: stream("iccorr" if fn == "iccorr_multi" else "iacorr", f1[:k], f1[:k])
        for kw in (dict(method="abc"), dict(norm=8), dict(binning=7), dict(binning=MEAN, method="diff"), dict(mode="abc"), dict(level_size=9),
                   dict(chunk_size=1), dict(chunk_size=9), dict(thread_divisor=3), dict(nlevel=-1)):
            a = dict(level_size=2, count=8, chunk_size=2)
            a.update(kw)
            rec.state(str(kw))
            rec.raises("%s:%s" % (fn, kw), ValueError, f_, src(), **a)
        for k in range(0, 8):
            for chunk in (2, 4, 8):
                rec.state("short", k, chunk)
                try:
                    f_(src(k), level_size=2, count=8, chunk_size=chunk)
                    rec.fail("%s:short%d:%d" % (fn, k, chunk), "accepted a source with too few frames")
                except Exception:
                    rec.check(True, "short")
        rec.trace()
