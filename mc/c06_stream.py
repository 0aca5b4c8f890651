"""C06: linear correlation of a stream of frames equals the in-memory calculation, after every chunk."""
import itertools
import numpy as np
from mc import ref

PID = "C06"
RULE = ("state = (function, method, norm, real/complex, stream length, chunk size, n, mode, number of chunks consumed so far); transition = one "
        "chunk of frames consumed; after each transition the published intermediate result (through the viewer interface) and at the end the "
        "returned result are compared with the definition on the frames consumed so far")


def bounds(tier):
    return ("streams of 1..%d frames, every chunk size, every n <= chunk size, both modes, all methods and norms, real/complex; all two-camera "
            "trigger patterns of %d frames; all masks of a 2x2 frame and all thread divisors" % ((8, 4) if tier == "quick" else (16, 6))) + "; 11 data types and 9 types of time stamps; a few instances with up to 300 frames or 1320 pixels, default chunk size on long streams"


CONF = [("corr", n, c) for n in (1, 2, 3, 5, 6, 7) for c in (False, True)] + [("fft", n, c) for n in (1, 3, 7) for c in (False, True)] + \
       [("diff", 2, False), ("diff", 6, False)]


class View:
    """Records what a live viewer would be given."""

    def __init__(self):
        self.seen = []
        self.plots = 0

    def set_data(self, data, background=None, variance=None):
        self.seen.append((tuple(None if d is None else np.array(d) for d in data), background is not None, variance is not None))

    def plot(self):
        self.plots += 1


def used_frames(count, chunk):
    """documented cropping: the largest power-of-two number of chunks that fits"""
    k = chunk
    while 2 * k <= count:
        k *= 2
    return k


def cases(tier):
    big = 8 if tier == "quick" else 16
    out = []
    for fn in ("iccorr", "iacorr"):
        for cfg in CONF:
            if fn == "iacorr" and cfg[0] == "diff" and cfg[1] == 6:
                continue
            for count in range(1, big + 1):
                if tier == "thorough" and count > 9 and count % 2:
                    continue
                for mode in ("full", "chunk"):
                    out.append(("reg", fn, cfg, count, mode))
        for cfg in (("corr", 7, False), ("corr", 7, True), ("fft", 7, False), ("diff", 2, False)):
            out.append(("mask", fn, cfg))
            out.append(("thread", fn, cfg))
        for cfg in (("corr", 7, False), ("corr", 3, True), ("fft", 7, False), ("fft", 6, True), ("diff", 2, False), ("diff", 6, False)):
            if fn == "iacorr" and cfg[0] == "diff" and cfg[1] == 6:
                continue
            for per in (1, 2, 3):
                for head in itertools.product(range(per), repeat=2):
                    out.append(("times", fn, cfg, per, head, 4 if tier == "quick" else 6))
        out.append(("src", fn))
        for cfg in (("corr", 7, False), ("corr", 7, True), ("fft", 7, False), ("diff", 2, False)):
            for L, chunk, n, sh in ((64, 8, 8, (2, 3)), (100, 10, 7, (1,)), (200, 48, 33, (3,)), (8, 2, 2, (40, 33)), (6, 3, 1, (1100,))):
                for mode in ("full", "chunk"):
                    out.append(("large", fn, cfg, L, chunk, n, sh, mode))
            for dt in ref.DATA_TYPES:
                out.append(("types", fn, cfg, dt))
            for L in (128, 129, 200, 257, 300):
                out.append(("default", fn, cfg, L))
    out.append(("errors",))
    return out


def reference(fn, f1, f2, t1, t2, n, norm, method, cplx, chunk, upto, mode):
    """The definition, on the first `upto` frames. mode 'chunk' keeps only pairs inside one chunk."""
    m = "diff" if method == "diff" else "corr"
    if f1.dtype not in (float, complex):
        f1, f2 = f1.astype(complex), f2.astype(complex)

    def one(a, b):
        if fn == "iccorr":
            return ref.ccorr_data(f1[a:b], f2[a:b], t1[a:b], t2[a:b], n, norm, m, cplx)
        return ref.acorr_data(f1[a:b], t1[a:b], n, norm, m, cplx)
    if mode == "full":
        return one(0, upto)
    acc = None
    for a in range(0, upto, chunk):
        w = one(a, a + chunk)
        acc = w if acc is None else ref.add_data(acc, w)
    return acc


def stream(fn, f1, f2, reuse=False):
    """the source: yields frame tuples; with `reuse` the producer overwrites its frame buffer (as a camera driver would)"""
    if reuse:
        b1, b2 = np.empty_like(f1[0]), np.empty_like(f1[0])
        for i in range(len(f1)):
            b1[...] = f1[i]
            b2[...] = f2[i]
            yield (b1, b2) if fn == "iccorr" else (b1,)
            b1[...] = 777
            b2[...] = 555
    else:
        for i in range(len(f1)):
            yield (f1[i], f2[i]) if fn == "iccorr" else (f1[i],)


def execute(rec, key, fn, cfg, f1, f2, t1, t2, n, chunk, mode, count=None, stats=False, reuse=False, src=None, want_frames=None, mask=None, wants=None, steps=None, **kw):
    import cddm.core as core
    method, norm, cplx = cfg
    v = View()
    L = len(f1)
    T1 = np.arange(L) if t1 is None else np.array([int(x) for x in t1])
    T2 = np.arange(L) if t2 is None else np.array([int(x) for x in t2])
    data = stream(fn, f1, f2, reuse) if src is None else src
    args = dict(n=n, norm=norm, method=method, chunk_size=chunk, mode=mode, stats=stats, complex=cplx, viewer=v, mask=mask, count=count, **kw)
    rec.state(key)
    if fn == "iccorr":
        got = rec.call(key, core.iccorr, data, t1, t2, **args)
    else:
        got = rec.call(key, core.iacorr, data, t1, **args)
    if stats:
        got = got[0]
    used = used_frames(count or L, chunk) if want_frames is None else want_frames
    chunk = steps or chunk

    def expand(w):
        if mask is None:
            return w
        out = []
        for i, x in enumerate(w):
            if x is None or i == 1:
                out.append(x)
            else:
                y = np.full(x.shape, np.nan, x.dtype)
                y[mask] = x[mask]
                out.append(y)
        return tuple(out)
    final = None
    for i, (seen, _, _) in enumerate(v.seen):
        upto = min((i + 1) * chunk, used)
        w = wants.get(upto) if wants is not None else None
        if w is None:
            w = reference(fn, f1, f2, T1, T2, n, norm, method, cplx, chunk, upto, mode)
            if wants is not None:
                wants[upto] = w
        w = expand(w)
        ref.same_data(_T(rec), seen, w, "%s:after%d" % (key, upto))
        rec.step()
        final = w
    rec.check(len(v.seen) in (used // chunk, used // chunk + 1) and v.plots == len(v.seen), key + ":published", "results published %d times for %d chunks" % (len(v.seen), used // chunk))
    if final is not None:
        ref.same_data(_T(rec), got, final, key + ":final")
    rec.trace()


class _T:
    def __init__(self, rec):
        self.rec = rec

    def check(self, *a, **k):
        return self.rec.check(*a, **k)

    def same(self, g, w, key, msg=""):
        return self.rec.same(g, w, key, msg, rtol=1e-8, atol=1e-7)


def run(case, rec):
    import cddm.core as core
    kind = case[0]
    if kind == "reg":
        _, fn, cfg, count, mode = case
        f1, f2 = ref.gdata((count, 2, 2), count), ref.gdata((count, 2, 2), count + 31)
        wants = {}
        for n in range(1, count + 1):
            wf = {}
            for chunk in range(n, count + 1):
                key = "%s:%s:L%d:chunk%d:n%d:%s" % (fn, cfg, count, chunk, n, mode)
                execute(rec, key, fn, cfg, f1, f2, None, None, n, chunk, mode, count=count, reuse=bool((n + chunk) % 2), stats=bool(n % 2), wants=wf if mode == "full" else None)
    elif kind == "times":
        _, fn, cfg, per, head, L = case
        tier_full = L > 4
        f1, f2 = ref.gdata((L, 2, 2), L), ref.gdata((L, 2, 2), L + 31)
        seen = set()
        for rest in itertools.product(range(per), repeat=L - 2):
            a = head + rest
            for b in [a] if fn == "iacorr" else (itertools.product(range(per), repeat=L) if (L * per <= 8 or tier_full) and L <= 4 else [a, a[::-1], a[1:] + a[:1], tuple(per - 1 - x for x in a)]):
                t1 = [per * i + x for i, x in enumerate(a)]
                t2 = [per * i + x for i, x in enumerate(b)]
                for chunk in (L // 2, L, 1):
                    for n in (chunk,):
                        key = "%s:%s:t1=%s:t2=%s:chunk%d:n%d" % (fn, cfg, t1, t2, chunk, n)
                        execute(rec, key, fn, cfg, f1, f2, t1, t2, n, chunk, "full", stats=False)
    elif kind == "mask":
        _, fn, cfg = case
        f1, f2 = ref.gdata((4, 2, 2), 4), ref.gdata((4, 2, 2), 35)
        for bits in itertools.product((False, True), repeat=4):
            if not any(bits):
                continue
            m = np.array(bits).reshape(2, 2)
            for chunk, n in ((1, 1), (2, 2), (4, 3)):
                for mode in ("full", "chunk"):
                    for td in [None] + [d for d in (1, 2, 4) if sum(bits) % d == 0]:
                        execute(rec, "%s:%s:mask%s:chunk%d:td%s:%s" % (fn, cfg, bits, chunk, td, mode), fn, cfg, f1, f2, None, None, n, chunk, mode, count=4, mask=m, thread_divisor=td)
    elif kind == "thread":
        _, fn, cfg = case
        for sh in ((6,), (2, 3), (3, 2), (1, 6), (2, 1, 3)):
            f1, f2 = ref.gdata((4,) + sh, 4), ref.gdata((4,) + sh, 35)
            for td in (None, 1, 2, 3, 6):
                for chunk, n in ((1, 1), (2, 2), (4, 4)):
                    for reuse in (False, True):
                        execute(rec, "%s:%s:%s:td%s:chunk%d:re%d" % (fn, cfg, sh, td, chunk, reuse), fn, cfg, f1, f2, None, None, n, chunk, "full", count=4, reuse=reuse, thread_divisor=td)
    elif kind == "src":
        _, fn = case
        cfg = ("corr", 7, False)
        for L in range(1, 7):
            f1, f2 = ref.gdata((L, 2, 2), L), ref.gdata((L, 2, 2), L + 31)
            items = list(stream(fn, f1, f2))
            for count in range(1, L + 1):
                for chunk in range(1, count + 1):
                    # longer sources than the declared count: only the declared frames are used
                    execute(rec, "%s:src%d:count%d:chunk%d" % (fn, L, count, chunk), fn, cfg, f1, f2, None, None, 1, chunk, "full", count=count, src=iter(items))
                    if count == L:      # count taken from the source, or from the times
                        execute(rec, "%s:list%d:chunk%d" % (fn, L, chunk), fn, cfg, f1, f2, None, None, 1, chunk, "full", src=items, want_frames=used_frames(L, chunk))
                        t = list(range(L))
                        execute(rec, "%s:times%d:chunk%d" % (fn, L, chunk), fn, cfg, f1, f2, t, t, 1, chunk, "full", src=iter(items), want_frames=used_frames(L, chunk))
            # default chunk size: the same result
            for n in range(1, L + 1):
                args = dict(n=n, count=L, stats=False)
                rec.state(fn, "default chunk", L, n)
                a = (core.iccorr if fn == "iccorr" else core.iacorr)(iter(items), norm=7, **args)
                # the chunk size is chosen by the library: any documented choice yields all frames for these lengths
                ch = L
                while ch // 2 >= n and ch > 128:
                    ch //= 2
                w = reference(fn, f1, f2, range(L), range(L), n, 7, "corr", False, ch, used_frames(L, ch), "full")
                ref.same_data(_T(rec), a, w, "%s:defaultchunk:L%d:n%d" % (fn, L, n))
                rec.trace()
            # single-camera frames may be given without the tuple
            if fn == "iacorr":
                execute(rec, "bare frames %d" % L, fn, cfg, f1, f2, None, None, 1, 1, "full", src=[f for f in f1], want_frames=used_frames(L, 1))
                for sh in ((1, 3), (1, 1), (1, 2, 2), (2, 1), (1,)):
                    for cp in (False, True):
                        g1 = ref.gdata((L,) + sh, L)
                        execute(rec, "bare frames %d of %s" % (L, sh), fn, ("corr", 7, cp), g1, g1, None, None, 1, 1, "full", src=[f for f in g1], want_frames=used_frames(L, 1))
                        execute(rec, "tuples of frames %d of %s" % (L, sh), fn, ("corr", 7, cp), g1, g1, None, None, 1, 1, "full", src=[(f,) for f in g1], want_frames=used_frames(L, 1))
    elif kind == "large":
        _, fn, cfg, L, chunk, n, sh, mode = case
        f1, f2 = ref.gdata((L,) + sh, L), ref.gdata((L,) + sh, L + 31)
        for td in (None, 5, 11) if np.prod(sh) > 100 else (None,):
            execute(rec, "large:%s:%s:L%d:chunk%d:n%d:%s:%s:td%s" % (fn, cfg, L, chunk, n, sh, mode, td), fn, cfg, f1, f2, None, None, n, chunk, mode, count=L, reuse=True, thread_divisor=td)
        if mode == "full" and L < 200:
            t1 = [3 * i + (i * i) % 3 for i in range(L)]
            t2 = [3 * i + (i + i // 4) % 3 for i in range(L)]
            execute(rec, "large:%s:%s:L%d:chunk%d:n%d:%s:times" % (fn, cfg, L, chunk, n, sh), fn, cfg, f1, f2, t1, t2, n, chunk, mode)
    elif kind == "types":
        _, fn, cfg, dt = case
        f1, f2 = ref.typed((12, 2), 3, dt, False), ref.typed((12, 2), 4, dt, False)
        for mode in ("full", "chunk"):
            for reuse in (False, True):
                execute(rec, "types:%s:%s:%s:%s:%d" % (fn, cfg, dt, mode, reuse), fn, cfg, f1, f2, None, None, 4, 4, mode, count=12, reuse=reuse)
        a = [3 * i + (i * i) % 3 for i in range(12)]
        b = [3 * i + (i + i // 4) % 3 for i in range(12)]
        for tt in ref.TIME_TYPES:
            execute(rec, "types:%s:%s:%s:times %s" % (fn, cfg, dt, tt), fn, cfg, f1, f2, ref.typed_times(a, tt), ref.typed_times(b, tt), 4, 4, "full")
    elif kind == "default":
        # chunk size chosen by the library
        _, fn, cfg, L = case
        f1, f2 = ref.gdata((L, 2), L), ref.gdata((L, 2), L + 31)
        for n in (2, 50, 100, L):
            ch = L
            while ch // 2 >= n and ch > 128:
                ch //= 2
            execute(rec, "default:%s:%s:L%d:n%d" % (fn, cfg, L, n), fn, cfg, f1, f2, None, None, n, None, "full", count=L, want_frames=used_frames(L, ch), steps=ch)
    elif kind == "errors":
        for fn in ("iccorr", "iacorr"):
            call = core.iccorr if fn == "iccorr" else core.iacorr
            for L in range(2, 7):
                f1, f2 = ref.gdata((L, 2, 2), L), ref.gdata((L, 2, 2), L + 31)
                for have in range(0, L):
                    for chunk in (1, 2, L):
                        if have >= used_frames(L, chunk):
                            continue
                        rec.state("short", fn, L, have, chunk)
                        try:
                            call(stream(fn, f1[:have], f2[:have]), n=1, norm=7, count=L, chunk_size=chunk)
                            rec.fail("%s:short source accepted:count%d:have%d:chunk%d" % (fn, L, have, chunk), "a source with too few frames produced a result")
                        except Exception:
                            rec.check(True, "short")
                        rec.trace()
                for n, chunk in ((L + 1, None), (2, 1), (1, L + 1), (L + 1, L)):
                    rec.state("bad sizes", fn, L, n, chunk)
                    rec.raises("%s:sizes:L%d:n%s:chunk%s" % (fn, L, n, chunk), ValueError, call, stream(fn, f1, f2), n=n, norm=7, count=L, chunk_size=chunk)
            f1, f2 = ref.gdata((4, 2, 2), 1), ref.gdata((4, 2, 2), 2)
            rec.raises("mode", ValueError, call, stream(fn, f1, f2), n=1, norm=7, count=4, mode="abc")
            rec.raises("method", ValueError, call, stream(fn, f1, f2), n=1, norm=7, count=4, method="abc")
            rec.raises("norm", ValueError, call, stream(fn, f1, f2), n=1, norm=8, count=4)
            rec.raises("count", ValueError, call, stream(fn, f1, f2), n=1, norm=7)
            rec.raises("divisor", ValueError, call, stream(fn, f1, f2), n=1, norm=7, count=4, thread_divisor=3)
            d = call(stream(fn, f1, f2), n=2, count=4, chunk_size=2, stats=False)     # documented default norm
            w = reference(fn, f1, f2, range(4), range(4), 2, 7, "corr", False, 2, 4, "full")
            rec.state("default norm", fn)
            ref.same_data(_T(rec), d, w, fn + ":default norm")
        for t in ((list(range(4)), None), (None, list(range(4)))):
            rec.raises("one time array", ValueError, core.iccorr, stream("iccorr", f1, f2), t[0], t[1], n=1)
        rec.raises("time lengths", ValueError, core.iccorr, stream("iccorr", f1, f2), [0, 1, 2, 3], [0, 1, 2], n=1)
        rec.raises("count too large", ValueError, core.iccorr, stream("iccorr", f1, f2), [0, 1, 2, 3], [0, 1, 2, 3], n=1, count=5)
