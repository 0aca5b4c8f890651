"""C17: video processing steps, every program up to a depth."""
import itertools, types
import numpy as np

PID = "C17"
IMPORTS = ("cddm.video",)
RULE = ("state = (program of processing steps, number of frames, cameras, kind of source); transition = one frame set pulled through the program; "
        "trace = complete run of a program, each output compared pixel by pixel with the directly evaluated steps")
H, W = 3, 4
MASK = np.array([[1, 0, 1, 1], [0, 0, 1, 0], [1, 1, 0, 1]], bool)

ROIS = [((0, 2), (1, 3)), ((None, None, 2), (None, None, -1)), (slice(1, None), (0, -1)), ((2,), slice(None)), "default", ((-2, None), (-3, -1))]
OPS = [("crop", i) for i in range(len(ROIS))] + [("mask",)]
for name in ("subtract", "add", "multiply"):
    OPS += [(name, False, None, "same"), (name, True, None, "same")]
OPS += [("subtract", False, "float32", "long"), ("add", False, None, "gen"), ("multiply", False, "complex128", "short"),
        ("subtract", True, None, "short"), ("add", False, "float32", "repeat"), ("multiply", True, None, "gen")]
OPS += [("normalize", False, None), ("normalize", True, None), ("normalize", False, "float32")]


def bounds(tier):
    q = tier == "quick"
    return ("all programs of at most %d of %d processing steps (crop with 6 kinds of roi, mask, subtract/add/multiply in place or not, with dtype, second video longer/shorter/endless/lazy, "
            "normalize), 0..%d frames, 1..2 cameras, list/lazy/array/failing source, source failing before each frame, camera count mismatch at each frame, all invalid rois, 6 data types; videos of 40 and 130 frames of up to 561 pixels; 8 output data types of each filter") % (
                3 if q else 4, len(OPS), 3)


def cases(tier):
    q = tier == "quick"
    out = []
    for d in range(1, 4):
        for p in itertools.product(range(len(OPS)), repeat=d):
            out.append(("prog", p))
    if not q:
        # depth 4 without the steps that differ only in options
        few = [i for i, o in enumerate(OPS) if o in (("crop", 0), ("crop", 1), ("mask",), ("subtract", False, None, "same"), ("multiply", True, None, "same"),
                                                    ("add", False, None, "gen"), ("normalize", False, None), ("subtract", True, None, "short"))]
        out += [("prog", p) for p in itertools.product(few, repeat=4)]
    out += [("one", i) for i in range(len(OPS))]
    out += [("asked", k, dt) for k in range(4) for dt in ASKED]
    out += [("mismatch", i) for i, o in enumerate(OPS) if o[0] in ("subtract", "add", "multiply")]
    out += [("roi", i) for i in range(len(BADROI))]
    out += [("random",)]
    out += [("large", n, ncam, h, w) for n, ncam in ((40, 1), (130, 2)) for h, w in ((33, 17), (16, 40), (2, 200))]
    return out


ASKED = ("uint8", "int16", "int64", "float16", "float32", "float64", "complex64", "complex128")


class Boom(Exception):
    pass


BADROI = [None, 3, (1,), (1, 2, 3), (slice(0, 1), 3), ("ab", 1), ((1, 2, 3, 4), (0, 1)), (None, None), ()]


def frames(n, ncam, dt, salt=0):
    out = []
    for i in range(n):
        fr = []
        for c in range(ncam):
            a = np.array([[1 + (7 * (i + 1) * (y + 2) + 3 * (x + 1) * (c + 1) + 5 * x * y + salt) % 23 for x in range(W)] for y in range(H)], float)
            if np.dtype(dt).kind == "c":
                a = a + 1j * (a[::-1] - 3)
            fr.append(a.astype(dt))
        out.append(tuple(fr))
    return out


class Source:
    """a video that counts how many frames were taken"""

    def __init__(self, data, kind, fail=None):
        self.data, self.kind, self.fail, self.taken = data, kind, fail, 0

    def get(self):
        if self.kind == "list":
            return list(self.data)
        return self.gen()

    def gen(self):
        for i, f in enumerate(self.data):
            if i == self.fail:
                raise Boom(i)
            self.taken += 1
            yield f
        if self.fail == len(self.data):
            raise Boom(self.fail)


def second(kind, n, ncam, salt):
    """values of the second video: one number for each camera and frame"""
    m = {"same": n, "long": n + 2, "gen": n, "short": max(n - 1, 0), "repeat": n + 3}[kind]
    if kind == "repeat":
        return [tuple(np.array(31.37 + 4.1 * c + 1.7 * salt) for c in range(ncam)) for i in range(m)]
    return [tuple(np.array(31.37 + 3.19 * i + 10.3 * c + 1.7 * salt) for c in range(ncam)) for i in range(m)]


def as_slice(r):
    return r if isinstance(r, slice) else slice(*r)


def pixels(f, fn):
    out = np.empty(f.shape, complex)
    for ix in itertools.product(*map(range, f.shape)):
        out[ix] = fn(f[ix])
    return out


def cast(a, dt):
    dt = np.dtype(dt)
    return (a if dt.kind == "c" else a.real).astype(dt)


def result_dtype(op, dt):
    if op[0] in ("crop", "mask"):
        return dt
    if op[1]:
        return dt
    if op[2]:
        return np.dtype(op[2])
    return np.result_type(dt, "float32" if dt.itemsize < 8 and dt.kind == "f" or dt == np.complex64 else "float64")


def ref_step(op, frs, ys, i):
    """one step on one frame set (values, complex)"""
    out = []
    for c, f in enumerate(frs):
        if op[0] == "crop":
            roi = ROIS[op[1]]
            if roi == "default":
                g = f
            else:
                ri, rj = range(f.shape[0])[as_slice(roi[0])], range(f.shape[1])[as_slice(roi[1])]
                g = np.array([[f[y, x] for x in rj] for y in ri]).reshape(len(ri), len(rj))
        elif op[0] == "mask":
            g = np.array([f[y, x] for y in range(f.shape[0]) for x in range(f.shape[1]) if MASK[y, x]])
        elif op[0] == "normalize":
            m = sum(complex(v) for v in f.flat) / f.size if f.size else 1.
            g = pixels(f, lambda v: complex(v) / m)
        else:
            v2 = complex(ys[i][c])
            g = pixels(f, {"subtract": lambda v: complex(v) - v2, "add": lambda v: complex(v) + v2, "multiply": lambda v: complex(v) * v2}[op[0]])
        out.append(g)
    return tuple(out)


def valid(p):
    """steps that make sense: no 2D step after mask, mask needs the complete frame"""
    shape = (H, W)
    for i in p:
        op = OPS[i]
        if op[0] == "crop":
            if shape is None:
                return False
            roi = ROIS[op[1]]
            if roi != "default":
                shape = (len(range(shape[0])[as_slice(roi[0])]), len(range(shape[1])[as_slice(roi[1])]))
                if 0 in shape:
                    return False
        elif op[0] == "mask":
            if shape != (H, W):
                return False
            shape = None
    return True


def build(v, p, x, ys):
    for k, i in enumerate(p):
        op = OPS[i]
        if op[0] == "crop":
            x = v.crop(x) if ROIS[op[1]] == "default" else v.crop(x, ROIS[op[1]])
        elif op[0] == "mask":
            x = v.mask(x, MASK)
        elif op[0] == "normalize":
            x = v.normalize_video(x, inplace=op[1], dtype=op[2])
        else:
            y = ys[k]
            if op[3] in ("gen", "short", "repeat"):
                y = iter(y)
            x = getattr(v, op[0])(x, y, inplace=op[1], dtype=op[2])
    return x


def expected(p, data, ys):
    n = len(data)
    for k, i in enumerate(p):
        if ys[k] is not None:
            n = min(n, len(ys[k]))
    out = []
    for j in range(n):
        fr = data[j]
        fr = tuple(f.astype(complex) for f in fr)
        for k, i in enumerate(p):
            fr = ref_step(OPS[i], fr, ys[k], j)
        out.append(fr)
    return out


def run_prog(v, rec, p, n, ncam, kind, dt, fail=None, key="prog"):
    data = frames(n, ncam, dt)
    ys = [second(OPS[i][3], n, ncam, k) if OPS[i][0] in ("subtract", "add", "multiply") else None for k, i in enumerate(p)]
    ykeep = [None if y is None else [tuple(np.array(a) for a in t) for t in y] for y in ys]
    want = expected(p, data if fail is None else data[:fail], ys)
    keep = [tuple(f.copy() for f in fr) for fr in data]
    # frames shared by several frame sets/cameras must not be affected: the source keeps its own arrays
    src = Source(data, kind, fail)
    label = lambda: "program %s, %d frames, %d cameras, %s source, %s" % ([OPS[i] for i in p], n, ncam, kind, dt)
    rec.state(p, n, ncam, kind, dt, fail)
    it = iter(rec.call(key, build, v, p, src.get(), ys))
    got, copies, err = [], [], None
    rec.check(src.taken == 0, key + ":lazy", "frames taken before they are needed")
    tol = 1e-5 if any(len(OPS[i]) > 2 and OPS[i][2] == "float32" for i in p) or dt in ("float32", "complex64") else 1e-10
    while True:
        try:
            fr = next(it)
        except StopIteration:
            break
        except Boom as e:
            err = e
            break
        rec.step()
        got.append(fr)
        j = len(got) - 1
        if not rec.check(isinstance(fr, tuple) and len(fr) == ncam and j < len(want), key + ":count", lambda: "%s: output %d is %r" % (label(), j, type(fr))):
            return
        if kind != "list":
            rec.check(src.taken == j + 1, key + ":lazy", lambda: "%s: %d frames taken for %d outputs" % (label(), src.taken, j + 1))
        for c in range(ncam):
            ok = rec.same(np.asarray(fr[c], complex), want[j][c], key + ":value", lambda: "%s: frame %d camera %d" % (label(), j, c), rtol=tol, atol=tol)
            if not ok:
                return
        copies.append(tuple(np.array(f) for f in fr))
    rec.check(len(got) == len(want), key + ":count", lambda: "%s: %d outputs for %d expected" % (label(), len(got), len(want)))
    short = any(ys[k] is not None and len(ys[k]) < n for k in range(len(p)))
    if not short:
        rec.check((err is not None) == (fail is not None), key + ":failure", lambda: "%s: failure of the source reported as %r" % (label(), err))
    rec.check(next(it, "end") == "end", key + ":end", "goes on after the end")
    for a, b in zip(got, copies):
        rec.check(all(np.array_equal(s, t) for s, t in zip(a, b)), key + ":late", lambda: "%s: an output changed after it was delivered" % label())
    for y, yk in zip(ys, ykeep):
        if y is not None:
            rec.check(all(np.array_equal(s, t) for a, b in zip(y, yk) for s, t in zip(a, b)), key + ":second", lambda: "%s: second video was modified" % label())
    # in-place steps may write to the frame they get, all other steps never
    inplace = any(len(OPS[i]) > 1 and OPS[i][0] != "crop" and OPS[i][1] for i in p)
    if not inplace:
        rec.check(all(np.array_equal(s, t) for a, b in zip(data, keep) for s, t in zip(a, b)), key + ":input", lambda: "%s: input frames were modified" % label())
    elif len(p) == 1:
        # the result is written to the frame itself
        rec.check(all(s is t for a, b in zip(got, data) for s, t in zip(a, b)), key + ":inplace", lambda: "%s: not done in place" % label())
    rec.trace()


def run(case, rec):
    import cddm.video as v
    kind = case[0]
    if kind == "prog":
        p = tuple(case[1])
        if not valid(p):
            return
        for n in range(4):
            for ncam in (1, 2):
                for src in ("list", "lazy") if len(p) < 3 else ("lazy",):
                    run_prog(v, rec, p, n, ncam, src, "float64")
                for fail in range(n + 1) if len(p) < 3 else ():
                    run_prog(v, rec, p, n, ncam, "lazy", "float64", fail)
    elif kind == "asked":
        # the output data type: the result is calculated first and converted afterwards
        _, k, want = case
        for dt in ("float64", "float32", "uint8", "int16"):
            for h, w in ((2, 3), (3, 3), (1, 4)):
                fr = [np.array([(((i + 1) * (j + 2) * 5) % 23) for j in range(h * w)], dt).reshape(h, w) for i in range(3)]
                other = [np.array([((i + 2) * (j + 1) * 3) % 4 + (.5 if np.dtype(dt).kind == "f" else 0) for j in range(h * w)], dt).reshape(h, w) for i in range(3)]
                if dt == "float64" or dt == "float32":
                    fr = [f + np.asarray(.25, dt) for f in fr]
                keep = [f.copy() for f in fr]
                rec.state(kind, k, want, dt, h, w)
                if k == 0:
                    out = list(v.normalize_video(iter([(f,) for f in fr]), dtype=want))
                    exp = [f / f.mean() for f in fr]
                else:
                    name = ("subtract", "add", "multiply")[k - 1]
                    out = list(getattr(v, name)(iter([(f,) for f in fr]), iter([(f,) for f in other]), dtype=want))
                    exp = [(np.subtract, np.add, np.multiply)[k - 1](a.astype("float64"), b.astype("float64")) for a, b in zip(fr, other)]
                rec.check(len(out) == 3 and all(f[0].dtype == want for f in out), "asked:dtype", "%s" % [f[0].dtype for f in out])
                for f, e in zip(out, exp):
                    # differences of integers may wrap around and whole numbers may be reached from both sides
                    if np.dtype(want).kind in "ui":
                        near = np.abs(e - np.round(e)) < 1e-6
                        ok = ~near & (e > 0) & (e < 120)
                        rec.check(np.array_equal(f[0][ok], np.floor(e[ok]).astype(want)), "asked:value", lambda: "%s of %s to %s: %s, not %s" % (k, dt, want, f[0].tolist(), e.tolist()))
                    elif k == 0 or np.dtype(dt).kind == "f":
                        tol = 2e-3 if want == "float16" else 1e-6
                        rec.check(np.allclose(f[0], e, rtol=tol, atol=tol), "asked:value", lambda: "%s of %s to %s: %s, not %s" % (k, dt, want, f[0].tolist(), e.tolist()))
                rec.check(all(np.array_equal(a, b) for a, b in zip(fr, keep)), "asked:input", "input frames changed")
                rec.trace()
    elif kind == "one":
        p = (case[1],)
        op = OPS[case[1]]
        for dt in ("float32", "uint8", "int16", "uint16", "complex64", "complex128"):
            inpl = op[0] not in ("crop", "mask") and op[1]
            if inpl and np.dtype(dt).kind in "ui":
                continue
            if np.dtype(dt).kind == "c" and len(op) > 2 and op[2] == "float32":
                continue
            for ncam in (1, 2, 3):
                run_prog(v, rec, p, 3, ncam, "lazy", dt, key="dtype")
            # data type and layout of the result
            out = list(build(v, p, frames(2, 1, dt), [second(op[3], 2, 1, 0) if op[0] in ("subtract", "add", "multiply") else None]))
            if op[0] in ("crop", "mask") or inpl:
                rec.check(all(f[0].dtype == dt for f in out), "dtype:kept", lambda: "%s: data type %s became %s" % (op, dt, out[0][0].dtype))
            elif op[2]:
                rec.check(all(f[0].dtype == op[2] for f in out), "dtype:asked", lambda: "%s: data type is %s" % (op, out[0][0].dtype))
            if inpl:
                # in place: only the cameras of this frame set are written
                data = frames(3, 2, dt)
                ref = [tuple(f.copy() for f in fr) for fr in data]
                it = iter(build(v, p, list(data), [second("same", 3, 2, 0) if op[0] != "normalize" else None]))
                next(it)
                rec.check(all(np.array_equal(a, b) for fr, rr in zip(data[1:], ref[1:]) for a, b in zip(fr, rr)), "inplace:other", "frames not yet delivered were modified")
        # full frames as the second video
        if op[0] in ("subtract", "add", "multiply"):
            x, y = frames(3, 2, "float64"), frames(3, 2, "float64", 4)
            xk = [tuple(f.copy() for f in fr) for fr in x]
            fn = {"subtract": lambda a, b: a - b, "add": lambda a, b: a + b, "multiply": lambda a, b: a * b}[op[0]]
            out = list(getattr(v, op[0])(x, y, op[1], op[2]))
            rec.check(len(out) == 3, "full:count")
            for i, fr in enumerate(out):
                for c in range(2):
                    want = np.array([[fn(xk[i][c][a, b], y[i][c][a, b]) for b in range(W)] for a in range(H)])
                    rec.same(np.asarray(fr[c], complex), want.astype(complex), "full:value", lambda: "%s: frame %d camera %d" % (op, i, c), rtol=1e-6, atol=1e-6)
            rec.check(all(np.array_equal(s, t) for a, b in zip(y, frames(3, 2, "float64", 4)) for s, t in zip(a, b)), "full:second", "second video was modified")
            rec.trace()
    elif kind == "mismatch":
        op = OPS[case[1]]
        for ncam, other in ((1, 2), (2, 1), (2, 3), (1, 0), (2, 0)):
            for at in range(3):
                x, y = frames(3, ncam, "float64"), second("same", 3, ncam, 0)
                y[at] = tuple(np.array(1.) for i in range(other))
                rec.state("mismatch", op, ncam, other, at)
                it = iter(getattr(v, op[0])(x, y, op[1], op[2]))
                n, err = 0, None
                try:
                    for fr in it:
                        n += 1
                except ValueError as e:
                    err = e
                rec.step(n + 1)
                rec.check(err is not None and n == at, "mismatch", lambda: "%s: %d cameras in x, %d in y at frame %d: %d outputs, error %r" % (op, ncam, other, at, n, err))
                rec.check(all(np.array_equal(s, t) for a, b in zip(x[at:], frames(3, ncam, "float64")[at:]) for s, t in zip(a, b)), "mismatch:input", "rejected frames were modified")
                rec.trace()
    elif kind == "roi":
        roi = BADROI[case[1]]
        rec.state("roi", repr(roi))
        ok = rec.raises("roi", ValueError, lambda: list(v.crop(frames(1, 1, "float64"), roi)))
        rec.trace()
    elif kind == "large":
        # longer videos of larger frames through single steps and through a chain of all of them
        _, n, ncam, h, w = case
        i, c, y, x = np.ogrid[:n, :ncam, :h, :w]
        data = 1. + (7 * (i + 1) * (y + 2) + 3 * (x + 1) * (c + 1) + 5 * x * y) % 23
        bg = 1. + (5 * (y + 1) * (c + 2) + 7 * x + x * y) % 11 + 0 * i
        gain = .5 + ((i + 2 * x + y * c) % 5)
        m = (np.arange(h)[:, None] + 2 * np.arange(w)) % 3 > 0
        mk = lambda a: ([tuple(q.copy() for q in fr) for fr in a])
        rois = [((1, h - 1), (0, w // 2)), ((None, None, 2), (-5, None)), (slice(0, 1), slice(3, None, 3))]

        def sl(a, r):
            return a[:, :, as_slice(r[0]), as_slice(r[1])]
        todo = [("subtract", lambda: v.subtract(mk(data), mk(bg)), data - bg), ("add", lambda: v.add(mk(data), mk(bg), inplace=True), data + bg),
                ("multiply", lambda: v.multiply(iter(mk(data)), iter(mk(gain)), dtype="float32"), data * gain),
                ("normalize", lambda: v.normalize_video(mk(data)), data / data.mean((2, 3), keepdims=True)),
                ("mask", lambda: v.mask(mk(data), m), data[:, :, m])]
        todo += [("crop", lambda r=r: v.crop(mk(data), r), sl(data, r)) for r in rois]
        for r in rois:
            t = sl(data - bg, r) * sl(gain, r)
            t = t / t.mean((2, 3), keepdims=True)
            t = t + sl(bg, r)
            todo.append(("chain", lambda r=r: v.mask(v.add(v.normalize_video(v.multiply(v.crop(v.subtract(iter(mk(data)), mk(bg)), r), v.crop(mk(gain), r)), inplace=True), v.crop(iter(mk(bg)), r)),
                                                     m[as_slice(r[0]), as_slice(r[1])]), t[:, :, m[as_slice(r[0]), as_slice(r[1])]]))
        for name, fn, want in todo:
            rec.state("large", name, n, ncam, h, w)
            got = rec.call(name, lambda: list(fn()))
            if rec.check(len(got) == n and all(isinstance(fr, tuple) and len(fr) == ncam for fr in got), "large:count"):
                for k in range(n):
                    if not rec.same(np.array(got[k]), want[k], "large:" + name, lambda: "frame %d of %d x %d x %d" % (k, n, h, w), rtol=1e-5, atol=1e-5):
                        break
            rec.step(n)
            rec.trace()
    else:
        sleeps = []
        real, tm = v.time, types.ModuleType("time")
        tm.__dict__.update(real.__dict__)
        tm.sleep = sleeps.append
        v.time = tm
        try:
            for shape in ((1, 1), (2, 3), (4, 2)):
                for count in range(4):
                    for dt in ("float64", "float32", "uint8", "uint16"):
                        for mx in (1., 200.):
                            for dual in (False, True):
                                rec.state(shape, count, dt, mx, dual)
                                np.random.seed(3)
                                out = list(rec.call("random", v.random_video, shape, count, dt, mx, dual))
                                rec.check(len(out) == count and all(isinstance(f, tuple) and len(f) == 1 + dual and all(a.shape == shape and a.dtype == dt and (a >= 0).all() and (a <= mx).all() for a in f) for f in out),
                                          "random", lambda: "random_video(%s, %s, %s, %s, %s)" % (shape, count, dt, mx, dual))
                                rec.check(all(a is not b and not np.shares_memory(a, b) for a, b in itertools.combinations([a for f in out for a in f], 2)), "random:shared", "frames share memory")
                                rec.trace()
        finally:
            v.time = real
