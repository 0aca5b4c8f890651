"""C25: reshaping for threads and masking, and back, over all shapes, divisors, masks, axes."""
import itertools
import numpy as np
from mc import ref

PID = "C25"
IMPORTS = ("cddm.core", "cddm.norm", "cddm.multitau")
RULE = "state = (shape, axis, divisor, mask, layout, dtype); transition = one reshape call; trace = reshape (and calculation) and back, each element compared with its original position"

LARGE = ((300,), (17, 23), (16, 33), (9, 40), (5, 3, 16))


def bounds(tier):
    q = tier == "quick"
    return ("all frame shapes of 1-3 dimensions with up to %d pixels, all axes (negative too), all divisors 1..13 (valid or not), all %s masks of frames with up to %d pixels, five layouts, six dtypes; frames of shapes %s with six patterns of masks; "
            "all methods and norms through the round trip; levels 1-3" % (12 if q else 24, "2^n", 6 if q else 8, LARGE))


def shapes(nmax, dims=(1, 2, 3)):
    out = []
    for d in dims:
        for s in itertools.product(range(1, nmax + 1), repeat=d):
            if int(np.prod(s)) <= nmax and (d < 3 or max(s) <= 4):
                out.append(s)
    return out


def cases(tier):
    q = tier == "quick"
    out = []
    for s in shapes(12 if q else 24):
        out.append(("in", s))
        out.append(("out", s))
        out.append(("frame", s))
    for s in shapes(6 if q else 8, (1, 2)):
        out.append(("mask", s))
        out.append(("take", s))
    for s in LARGE:
        out += [(k, s) for k in ("in", "out", "frame", "mask", "take")]
    for s in ((1,), (4,), (6,), (2, 2), (2, 3), (3, 2), (1, 4), (2, 1, 2)):
        for m in ("corr", "diff", "fft"):
            for auto in (0, 1):
                out.append(("calc", s, m, auto, q))
    return out


LAYOUTS = ("C", "F", "strided", "reversed", "list")


def layout(a, how):
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if how == "reversed":
        return a[::-1].copy()[::-1]
    if how == "list":
        return a.tolist()
    return a


def masks(shape):
    n = int(np.prod(shape))
    if n > 12:
        i = np.arange(n).reshape(shape)
        for m in (i >= 0, i == n - 1, i % 7 == 3, i % shape[-1] == 0, i >= n // 2, i % shape[-1] % 2 == i // shape[-1] % 2):
            yield m
        return
    for bits in itertools.product((False, True), repeat=n):
        if any(bits):
            yield np.array(bits).reshape(shape)


def flat_frames(f, axis):
    """list of frames, each a flat list of pixels in C order"""
    f = np.asarray(f)
    out = []
    for k in range(f.shape[axis]):
        fr = np.take(f, k, axis=axis)
        out.append([fr[ix] for ix in np.ndindex(*fr.shape)])
    return out


def same_array(got, want, ambiguous):
    """equal values; a bare array with unit dimensions does not tell levels from threads, so unit dimensions are not compared then"""
    if not ambiguous and got.shape != want.shape:
        return False
    if [k for k in got.shape if k != 1] != [k for k in want.shape if k != 1]:
        return False
    return bool(np.allclose(got.reshape(want.shape), want, equal_nan=True))


def run(case, rec):
    import cddm.core as core, cddm.norm as norm
    kind, shape = case[0], tuple(case[1])
    npix = int(np.prod(shape))
    if kind == "in":
        for nt in (1, 3):
            for axis in range(-len(shape) - 1, len(shape) + 1):
                pos = axis if axis >= 0 else axis + len(shape) + 1
                full = list(shape)
                full.insert(pos, nt)
                base = np.arange(1., nt * npix + 1).reshape(full) * (1 + 2j)
                for lay in LAYOUTS:
                    f = layout(base, lay)
                    keep = np.array(f)
                    for div in [None] + list(range(1, 14)):
                        rec.step()
                        rec.state(kind, shape, nt, axis, lay, div)
                        label = lambda: "reshape_input of %s axis=%d thread_divisor=%s layout %s" % (full, axis, div, lay)
                        if div is not None and npix % div:
                            rec.raises("in:divisor", ValueError, core.reshape_input, f, axis, div)
                            continue
                        g, old = rec.call("in", core.reshape_input, f, axis, div)
                        if not rec.check(tuple(old) == shape, "in:shape", lambda: "%s returned shape %s" % (label(), old)):
                            return
                        new = (div, npix // div) if div is not None else (1, npix) if len(shape) == 1 else shape
                        # time axis: last stays last, others keep their position (at most the number of new dimensions)
                        pos2 = len(new) if pos == len(shape) else min(pos, len(new))
                        want = list(new)
                        want.insert(pos2, nt)
                        if not rec.check(tuple(g.shape) == tuple(want), "in:newshape", lambda: "%s: shape %s, expected %s" % (label(), g.shape, want)):
                            return
                        rec.check(flat_frames(g, pos2) == flat_frames(base, pos), "in:values", label)
                        rec.check(np.array_equal(np.array(f), keep), "in:input", label)
                        rec.trace()
        rec.raises("in:maskaxis", ValueError, core.reshape_input, np.zeros((3,) + shape), 1 if len(shape) else 0, None, np.ones(shape, bool))
        rec.outcome(shape)
        return
    if kind == "out":
        for n in (1, 4):
            for dtype in (float, complex, "float32", "complex64", "int64"):
                for lev in ((), (1,), (3,)):
                    orig = (np.arange(1, 1 + int(np.prod(lev)) * npix * n) * 3).astype(dtype).reshape(lev + shape + (n,))
                    for div in [d for d in range(1, npix + 1) if npix % d == 0] + [None]:
                        if div is None and lev and len(shape) == 1:
                            new = lev + (1, npix)
                        else:
                            new = lev + ((div, npix // div) if div is not None else shape)
                        x = orig.reshape(new + (n,))
                        rec.step()
                        rec.state(kind, shape, n, str(dtype), lev, div)
                        label = lambda: "reshape_output %s -> %s levels %s" % (x.shape, shape, lev)
                        got = rec.call("out", core.reshape_output, x, shape)
                        rec.check(same_array(got, orig, x.shape[-len(shape) - 1:-1] == shape and x.shape != orig.shape) and got.dtype == x.dtype, "out:array", label)
                        # data tuple; absent data stay absent
                        cnt = np.arange(int(np.prod(lev)) * n).reshape(lev + (n,))
                        tup = (x, cnt, None, x * 2, None)
                        got = rec.call("out", core.reshape_output, tup, shape)
                        rec.check(isinstance(got, tuple) and len(got) == 5 and got[2] is None and got[4] is None, "out:tuple", label)
                        rec.same(got[0], orig, "out:data", label)
                        rec.same(got[1], cnt, "out:count", label)
                        rec.same(got[3], orig * 2, "out:sum", label)
                        rec.trace()
        rec.raises("out:missing", ValueError, core.reshape_output, np.zeros((2, 2, 2)))
        rec.outcome(shape)
        return
    if kind == "frame":
        for dtype in ("uint8", "int64", "float32", float, "complex64", complex):
            fr = np.arange(1, npix + 1).astype(dtype)
            for div in [d for d in range(1, npix + 1) if npix % d == 0]:
                for lay in LAYOUTS[:4]:
                    x = layout(fr.reshape(div, npix // div), lay)
                    rec.step()
                    rec.state(kind, shape, str(dtype), div, lay)
                    g = rec.call("frame", core.reshape_frame, x, shape)
                    rec.check(g.dtype == x.dtype and g.shape == shape and [g[i] for i in np.ndindex(*shape)] == list(fr), "frame", lambda: "reshape_frame of %s layout %s to %s" % (x.shape, lay, shape))
                    rec.trace()
        for dims in range(1, 14):
            for f2 in (False, True):
                label = lambda: "thread_frame_shape(%s, %s, %s)" % (shape, dims, f2)
                if npix % dims:
                    rec.raises("frame:divisor", ValueError, core.thread_frame_shape, shape, dims, f2)
                else:
                    rec.check(tuple(core.thread_frame_shape(shape, dims, f2)) == (dims, npix // dims), "frame:threads", label)
        rec.check(tuple(core.thread_frame_shape(shape)) == shape, "frame:none")
        rec.check(tuple(core.thread_frame_shape(shape, None, True)) == ((1, npix) if len(shape) == 1 else shape), "frame:none2d")
        return
    if kind == "mask":
        nt, n = 2, 3
        base = np.arange(1., nt * npix + 1).reshape((nt,) + shape) * (2 - 1j)
        for mask in masks(shape):
            where = [ix for ix in np.ndindex(*shape) if mask[ix]]
            m = len(where)
            for div in [None] + [d for d in range(1, m + 1) if m % d == 0]:
                rec.step()
                rec.state(kind, shape, mask.tobytes(), div)
                label = lambda: "mask %s thread_divisor %s" % (mask.tolist(), div)
                g, old = rec.call("mask:in", core.reshape_input, base, 0, div, mask)
                rec.check(tuple(old) == (m,), "mask:shape", label)
                want = (m,) if div is None else (div, m // div)
                if not rec.check(g.shape == (nt,) + want, "mask:newshape", lambda: "%s: %s" % (label(), g.shape)):
                    return
                rec.check(flat_frames(g, 0) == [[base[k][ix] for ix in where] for k in range(nt)], "mask:values", label)
                for dtype in (float, complex, "float32", "complex64"):
                    for lev in ((), (2,), (1,)):
                        flat = (np.arange(1, 1 + int(np.prod(lev)) * m * n)).astype(dtype).reshape(lev + (m, n))
                        full = np.full(lev + shape + (n,), np.nan, dtype)
                        for p, ix in enumerate(where):
                            full[(Ellipsis,) + ix + (slice(None),)] = flat[..., p, :]
                        x = flat.reshape(lev + want + (n,))
                        cnt = np.arange(int(np.prod(lev)) * n).reshape(lev + (n,))
                        for kw in (dict(mask=mask), dict(shape=(m,), mask=mask)):
                            got = rec.call("mask:out", core.reshape_output, (x, cnt, None, x, x), **kw)
                            for i in (0, 3, 4):
                                rec.same(got[i], full, "mask:data", label)
                            rec.check(got[2] is None, "mask:none")
                            rec.same(got[1], cnt, "mask:count", label)
                            rec.check(got[0].dtype == x.dtype, "mask:dtype", label)
                            got = rec.call("mask:out", core.reshape_output, x, **kw)
                            rec.check(same_array(got, full, x.shape[-2] == m and x.ndim > 2), "mask:array", label)
                        rec.trace()
                for dtype in ("float32", float, "complex64", complex):
                    fr = np.arange(1, m + 1).astype(dtype)
                    full = np.full(shape, np.nan, dtype)
                    for p, ix in enumerate(where):
                        full[ix] = fr[p]
                    got = rec.call("mask:frame", core.reshape_frame, fr.reshape(want), (m,), mask)
                    rec.same(got, full, "mask:frame", label)
                    rec.check(got.dtype == fr.dtype, "mask:frame:dtype", label)
        rec.outcome(shape)
        return
    if kind == "take":
        n = 3
        for mask in masks(shape):
            where = [ix for ix in np.ndindex(*shape) if mask[ix]]
            for lev in ((), (2,)):
                x = np.arange(float(int(np.prod(lev)) * npix * n)).reshape(lev + shape + (n,))
                cnt = np.arange(int(np.prod(lev)) * n).reshape(lev + (n,))
                want = np.stack([x[(Ellipsis,) + ix + (slice(None),)] for ix in where], axis=-2)
                for tup in ((x, cnt, None, x * 2, None), (x, cnt), (x, cnt, x, None, x * 3)):
                    rec.step()
                    rec.state(kind, shape, mask.tobytes(), lev, len(tup))
                    keep = [None if d is None else d.copy() for d in tup]
                    got = rec.call("take", norm.take_data, tup, mask)
                    rec.check(isinstance(got, tuple) and len(got) == len(tup), "take:tuple")
                    for i, (g, d) in enumerate(zip(got, tup)):
                        if d is None:
                            rec.check(g is None, "take:none")
                        elif i == 1:
                            rec.same(g, cnt, "take:count")
                        else:
                            f = {0: 1, 2: 1, 3: 2, 4: 3}[i] if i != 2 or d is not None else 1
                            rec.same(g, want * f, "take:data", lambda: "mask %s levels %s item %d" % (mask.tolist(), lev, i))
                    rec.check(all(k is None or np.array_equal(k, d) for k, d in zip(keep, tup)), "take:input")
                    rec.trace()
        rec.outcome(shape)
        return
    # calc: the calculation on reshaped data, reshaped back, is the calculation on the data
    _, shape, method, auto, q = case
    nt = 5
    f1, f2 = ref.gdata((nt,) + shape, 3), ref.gdata((nt,) + shape, 8)
    t1, t2 = np.array([0, 1, 3, 4, 7]), np.array([0, 2, 3, 5, 7])
    norms = {"corr": range(1, 16), "diff": (0, 1, 2, 3), "fft": range(1, 8)}[method]
    for tt in (False, True):
        for nm in norms:
            kw = dict(method=method, norm=nm, n=4)
            try:
                if auto:
                    base = core.acorr(f1, t1 if tt else None, **kw)
                else:
                    base = core.ccorr(f1, f2, *((t1, t2) if tt else (None, None)), **kw)
            except ValueError:
                continue        # combination is not supported
            allm = [None] + ([m for i, m in enumerate(masks(shape)) if not q or i % 3 == 0 or i == 2 ** npix - 2])
            for mask in allm:
                m = npix if mask is None else int(mask.sum())
                for div in [None] + [d for d in range(1, m + 1) if m % d == 0]:
                    rec.step()
                    rec.state(kind, shape, method, auto, tt, nm, None if mask is None else mask.tobytes(), div)
                    label = lambda: "%s norm %s mask %s thread_divisor %s times %s" % (method, nm, None if mask is None else mask.tolist(), div, tt)
                    g1, old = rec.call("calc", core.reshape_input, f1, 0, div, mask)
                    if auto:
                        d = rec.call("calc", core.acorr, g1, t1 if tt else None, **kw)
                    else:
                        g2, _ = core.reshape_input(f2, 0, div, mask)
                        d = rec.call("calc", core.ccorr, g1, g2, *((t1, t2) if tt else (None, None)), **kw)
                    got = rec.call("calc", core.reshape_output, d, old, mask)
                    rec.check(len(got) == len(base), "calc:tuple", label)
                    for i, (a, b) in enumerate(zip(got, base)):
                        if b is None:
                            rec.check(a is None, "calc:none", label)
                            continue
                        if i != 1 and mask is not None:
                            b = np.array(b)
                            b[..., ~mask, :] = np.nan
                        rec.same(a, b, "calc:data%d" % i, label, atol=1e-7)
                    rec.trace()
