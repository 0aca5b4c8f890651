"""C20: loading a video into arrays, memory maps and back."""
import itertools, os, shutil, tempfile
import numpy as np

PID = "C20"
IMPORTS = ("cddm.video",)
RULE = ("state = (function, frames in the video, declared count, cameras, kind of the video, data type, verbosity); transition = one call; "
        "trace = one load whose complete result (or error) was compared with the frames of the source")
DT = ("float64", "float32", "uint8", "uint16", "int16", "bool", "complex128", "complex64", ">i2")
SHAPES = ((2, 3), (1, 1), (5,), (3, 1), (2, 2, 2))


def bounds(tier):
    t = 5 if tier == "quick" else 8
    return "0..%d frames x declared counts 0..%d or none, 1..3 cameras, list/tuple/lazy/array videos, %d data types, %d frame shapes, non-contiguous frames, verbosity 0..2, failing source" % (t, t + 2, len(DT), len(SHAPES))


def cases(tier):
    t = 5 if tier == "quick" else 8
    out = []
    for fn in ("asarrays", "asmemmaps", "load"):
        for n in range(t + 1):
            for count in [None] + list(range(t + 3)):
                for ncam in (1, 2, 3):
                    out.append((fn, n, count, ncam))
        for dt in DT:
            out.append((fn + "-dtype", dt))
        for n in range(t + 1):
            out.append((fn + "-fail", n))
    for n in range(t + 1):
        for m in range(t + 1):
            out.append(("fromarrays", n, m))
    for fn in ("asarrays", "asmemmaps", "load"):
        for n, count in ((300, None), (300, 257), (129, 128), (130, 200)):
            out.append((fn, n, count, 2))
    out.append(("fromarrays", 300, 299))
    return out


class Boom(Exception):
    pass


def frames(n, ncam, dt="float64", shape=(2, 3), layout="C"):
    out = []
    for i in range(n):
        fr = []
        for c in range(ncam):
            a = (np.arange(int(np.prod(shape))) * 3 + 11 * i + 50 * c + 1).reshape(shape)
            if np.dtype(dt).kind == "c":
                a = a + 1j * (a + 2)
            elif np.dtype(dt).kind == "b":
                a = a % 3 == 0
            a = a.astype(dt)
            if layout == "F":
                a = np.asfortranarray(a)
            elif layout == "strided":
                b = np.zeros(tuple(2 * s for s in shape), dt)
                b[tuple(slice(None, None, 2) for s in shape)] = a
                a = b[tuple(slice(None, None, 2) for s in shape)]
            fr.append(a)
        out.append(tuple(fr))
    return out


def source(data, kind, fail=None):
    if kind == "list":
        return list(data)
    if kind == "tuple":
        return tuple(data)

    def gen():
        for i, f in enumerate(data):
            if i == fail:
                raise Boom(i)
            yield f
        if fail == len(data):
            raise Boom(fail)
    return gen()


class Reused:
    """a source that writes all frames to the same memory, as cameras do"""

    def __init__(self, data):
        self.data = data

    def __iter__(self):
        buf = tuple(np.empty_like(f) for f in self.data[0]) if self.data else ()
        for fr in self.data:
            for b, f in zip(buf, fr):
                b[...] = f
            yield buf


def do_load(v, fn, video, count, d):
    if fn == "asmemmaps":
        return v.asmemmaps(os.path.join(d, "x"), video, count) if count is not None else v.asmemmaps(os.path.join(d, "x"), video)
    f = getattr(v, fn)
    return f(video, count) if count is not None else f(video)


def check_result(rec, fn, out, data, label, key, d):
    n = len(data)
    ncam = len(data[0])
    if fn == "load":
        ok = rec.check(len(out) == n and all(len(fr) == ncam for fr in out), key + ":count", lambda: "%s: %d frame sets" % (label(), len(out)))
        if not ok:
            return
        arrs = [[out[i][c] for i in range(n)] for c in range(ncam)]
    else:
        if not rec.check(isinstance(out, tuple) and len(out) == ncam and all(a.shape == (n,) + data[0][0].shape for a in out), key + ":shape",
                         lambda: "%s: shapes %s" % (label(), [np.shape(a) for a in out])):
            return
        arrs = out
    for c in range(ncam):
        for i in range(n):
            a = np.asarray(arrs[c][i])
            rec.check(a.dtype == data[i][c].dtype and np.array_equal(a, data[i][c]), key + ":value", lambda: "%s: frame %d camera %d is %s (%s), expected %s" % (label(), i, c, a.tolist(), a.dtype, data[i][c].tolist()))
    if fn == "asmemmaps":
        names = sorted(os.listdir(d))
        rec.check(names == ["x_%d.npy" % c for c in range(ncam)], key + ":files", lambda: "%s: files %s" % (label(), names))
        for c in range(ncam):
            disk = np.load(os.path.join(d, "x_%d.npy" % c))
            rec.check(np.array_equal(disk, np.array([fr[c] for fr in data])), key + ":disk", lambda: "%s: file of camera %d has different data" % (label(), c))
    rec.outcome(fn, n, ncam, data[0][0].shape, str(data[0][0].dtype))
    rec.trace()


def run(case, rec):
    d = tempfile.mkdtemp(prefix="verif_c20_")
    try:
        explore(case, rec, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def clean(d):
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))


def explore(case, rec, d):
    import cddm.video as v
    from cddm import conf
    kind = case[0]
    if kind == "fromarrays":
        n, m = case[1], case[2]
        a, b = np.arange(n * 6).reshape(n, 2, 3), 100 + np.arange(m * 2).reshape(m, 2)
        for arrs in ((a,), (a, b), [a, b], (a, b, a)):
            rec.state(kind, n, m, len(arrs))
            out = list(rec.call("fromarrays", v.fromarrays, arrs))
            k = min(len(x) for x in arrs)
            ok = rec.check(len(out) == k and all(isinstance(fr, tuple) and len(fr) == len(arrs) for fr in out), "fromarrays:count", lambda: "%d frame sets of arrays of lengths %s" % (len(out), [len(x) for x in arrs]))
            for i, fr in enumerate(out if ok else ()):
                for c, x in enumerate(arrs):
                    rec.check(np.array_equal(fr[c], x[i]), "fromarrays:value", "frame %d camera %d" % (i, c))
            rec.trace()
            if k and n == m:
                # and back
                back = rec.call("roundtrip", v.asarrays, v.fromarrays(arrs), k)
                for x, y in zip(back, arrs):
                    rec.check(x.dtype == y.dtype and np.array_equal(x, y), "roundtrip", "asarrays(fromarrays(x)) differs from x")
        return
    if kind.endswith("-dtype"):
        fn, dt = kind[:-6], case[1]
        for shape in SHAPES:
            for layout in ("C", "F", "strided"):
                for ncam in (1, 2):
                    clean(d)
                    data = frames(3, ncam, dt, shape, layout)
                    rec.state(kind, dt, shape, layout, ncam)
                    out = rec.call(fn, do_load, v, fn, source(data, "lazy"), 3, d)
                    check_result(rec, fn, out, data, lambda: "%s of %s frames %s %s" % (fn, dt, shape, layout), fn + ":dtype", d)
        # cameras with different frames
        clean(d)
        data = [(f[0], g[0].astype("float32")) for f, g in zip(frames(2, 1, dt, (2, 3)), frames(2, 1, "float64", (4, 1)))]
        out = rec.call(fn, do_load, v, fn, source(data, "lazy"), 2, d)
        arrs = [[fr[c] for fr in out] for c in range(2)] if fn == "load" else out
        for c in range(2):
            for i in range(2):
                rec.check(np.array_equal(arrs[c][i], data[i][c]) and arrs[c][i].dtype == data[i][c].dtype, fn + ":cameras", "frame %d camera %d" % (i, c))
        return
    if kind.endswith("-fail"):
        fn, n = kind[:-5], case[1]
        for fail in range(n + 1):
            clean(d)
            rec.state(kind, n, fail)
            rec.raises(fn + ":failure", Boom, do_load, v, fn, source(frames(n, 2), "lazy", fail), n + 1, d)
            rec.trace()
        return
    fn, n, count, ncam = case
    for src in ("list", "tuple", "lazy", "reused"):
        for verbose in (0, 1, 2):
            clean(d)
            if fn == "asmemmaps":
                # an older and longer file is replaced
                np.save(os.path.join(d, "x_0.npy"), np.full((9, 4, 4), 7.))
            data = frames(n, ncam)
            keep = frames(n, ncam)
            rec.state(fn, n, count, ncam, src, verbose)
            label = lambda: "%s of %d frame sets (%s), count=%s, %d cameras, verbosity %d" % (fn, n, src, count, ncam, verbose)
            video = Reused(data) if src == "reused" else source(data, src)
            old = conf.set_verbose(verbose)
            try:
                known = count if count is not None else (n if src in ("list", "tuple") else None)
                if known is None or known != n or n == 0:
                    # an error, never uninitialised or missing frames
                    # (an empty video has no frame shape)
                    rec.step()
                    exc = None
                    try:
                        out = do_load(v, fn, video, count, d)
                    except Exception as e:
                        exc = e
                    rec.check(exc is not None, fn + ":mismatch", lambda: "%s: no error" % label())
                    if known is None:
                        rec.check(isinstance(exc, ValueError), fn + ":count", lambda: "%s: ValueError expected, got %r" % (label(), exc))
                    rec.trace()
                else:
                    out = rec.call(fn, do_load, v, fn, video, count, d)
                    check_result(rec, fn, out, data, label, fn, d)
                    # the result does not change with the source
                    if fn != "asmemmaps":
                        for fr in data:
                            for f in fr:
                                f[...] = -1
                        data2 = keep
                        check_result(rec, fn, out, data2, label, fn + ":shared", d)
            finally:
                conf.set_verbose(old)
