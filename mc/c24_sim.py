"""C24: simulator: motion of particles, drawing, simulated single and dual camera videos, sensor conversion."""
import itertools, math
import numpy as np

PID = "C24"
IMPORTS = ("cddm.sim",)
RULE = ("state = (function, position / frame times / parameters, step); transition = one step of the particles or one drawn particle; "
        "trace = complete walk, video or image of the real code compared with the reference")

TU = 6
SHAPES = ((1, 1), (1, 4), (3, 1), (2, 3), (4, 4), (5, 3), (6, 7))


def bounds(tier):
    q = tier == "quick"
    return ("all pairs of strictly increasing frame times of two cameras (%d..%d frames within %d steps), all lengths of the particle data; "
            "all particle positions on a grid of 1/%d pixel, shapes up to 6x7, sigma 0.3..2.5, both dtypes, a large particle among small ones in all orders; walks of 0..%d steps for all start positions on a grid; "
            "sensor conversion of all levels of a coarse grid, all bit depths" % (0, 3 if q else 4, TU, 4 if q else 8, 4 if q else 6)) + "; moments of the sensor noise over large frames"


def times(k):
    out = []
    for m in range(0, k + 1):
        out += list(itertools.combinations(range(TU), m))
    return out


def cases(tier):
    q = tier == "quick"
    out = []
    ts = times(3 if q else 4)
    for t1 in ts:
        out.append(("video", t1, q))
    for shape in SHAPES:
        for dtype in ("uint8", "uint16"):
            out.append(("points", shape, dtype, 4 if q else 8))
            for sigma in (0.3, 0.5, 1., 1.7, 2.5):
                out.append(("psf", shape, dtype, sigma, 4 if q else 8))
    for dtype in ("uint8", "uint16"):
        for big in (2., 4.):
            for small in (0.3, 1.):
                for k in range(4):
                    out.append(("psfsizes", dtype, big, small, k))
    for lo, w in ((0, 1), (0, 4), (0, 7), (1, 4), (-3, 5), (2.5, 3)):
        out.append(("mirror", lo, w))
    for shape in ((4, 4), (3, 5), (1, 2)):
        for count in range(0, (4 if q else 6) + 1):
            out.append(("walk", shape, count))
    for count in range(1, (4 if q else 6)):
        for n in (1, 2, 3):
            out.append(("noise", count, n))
    out.append(("particles",))
    for shape in ((4, 4), (3, 5), (6, 4), (1, 3)):
        for navg in (1, 2, 3, 4):
            out.append(("form", shape, navg))
    for bits in ("8bit", "10bit", "12bit", "14bit", "16bit"):
        for sat in (64, 256, 1024, 32768):
            for black in (0, 1, 32, 100):
                out.append(("adc", bits, sat, black))
    for model in ("gaussian", "poisson"):
        for total in (100, 2500, 30000):
            for share in (0., .1, .5, 1.):
                for black in (0, 20):
                    out.append(("adcnoise", model, total, share, black))
    out += [("adcerr",), ("errors",)]
    for t1 in times(2):
        if t1:
            out.append(("simple", t1))
    return out


# ---------------------------------------------------------------- reference
def wrap(x, lo, hi):
    return lo + (x - lo) % (hi - lo)


def psf_bounds(shape, pos, inten, sigma):
    """lower and upper bound of the image: sum of truncated gaussian profiles centred at the particles, periodic frame"""
    h, w = shape
    lo, hi = np.zeros(shape), np.zeros(shape)
    smax = max(sigma)
    for (p0, p1), a, s in zip(pos, inten, sigma):
        inner, outer = 3 * s - 1.001, 3 * smax + 2.001
        m = int(math.ceil(outer)) + 1
        for i in range(int(math.floor(p0)) - m, int(math.floor(p0)) + m + 1):
            for j in range(int(math.floor(p1)) - m, int(math.floor(p1)) + m + 1):
                d0, d1 = i + 0.5 - p0, j + 0.5 - p1
                v = a * math.exp(-0.5 * (d0 * d0 + d1 * d1) / (s * s))
                if abs(d0) <= inner and abs(d1) <= inner:
                    lo[i % h, j % w] += math.floor(v - 1e-9)if v >= 1 else 0
                if abs(d0) <= outer and abs(d1) <= outer:
                    hi[i % h, j % w] += math.floor(v + 1e-9)
    return lo, hi


def points_image(shape, pos, inten):
    im = np.zeros(shape)
    for (a, b), v in zip(pos, inten):
        im[int(math.floor(a)), int(math.floor(b))] += v
    return im


def transform(p, shape, offset, rotation):
    c0, c1 = shape[0] / 2., shape[1] / 2.
    c, s = (math.cos(rotation), math.sin(rotation)) if rotation is not None else (1., 0.)
    oi, oj = offset if offset is not None else (0., 0.)
    out = []
    for a, b in p:
        x = c * (a - c0) - s * (b - c1) + c0 + oi
        y = s * (a - c0) + c * (b - c1) + c1 + oj
        out.append((wrap(x, 0, shape[0]), wrap(y, 0, shape[1])))
    return out


VSHAPE = (5, 6)


def position(i):
    """positions of the two particles at step i, off the borders of the pixels"""
    return [((1.317 + 0.713 * i) % 5, (2.431 + 1.613 * i) % 6), ((4.811 - 0.611 * i) % 5, (0.331 + 1.117 * i) % 6)]


# style: keyword arguments, intensities, sigmas, background
STYLES = (
    (dict(sigma=None, intensity=7), (7, 7), None, 0),
    (dict(sigma=None, intensity=np.array([3, 20]), background=5), (3, 20), None, 5),
    (dict(sigma=0.8, intensity=30, dtype="uint16", background=2), (30, 30), (.8, .8), 2),
    (dict(sigma=np.array([0.5, 0.9]), intensity=[40, 15]), (40, 15), (.5, .9), 0),
)
PLACE = ((None, None), ((1., 2.), None), ((-1.5, .25), .35), (None, math.pi / 2), (None, 0.), ((0., 0.), math.pi))
_images = {}


def want_frame(i, cam, style, place):
    key = (i, cam, style, place)
    if key not in _images:
        kw, inten, sig, back = STYLES[style]
        p = position(i)
        if cam == 1:
            p = transform(p, VSHAPE, *PLACE[place])
        if sig is None:
            im = points_image(VSHAPE, p, inten)
            lo = hi = im
        else:
            lo, hi = psf_bounds(VSHAPE, p, inten, sig)
        _images[key] = lo + back, hi + back
    return _images[key]


def in_bounds(rec, im, want, key, msg):
    lo, hi = want
    im = np.asarray(im)
    ok = im.shape == lo.shape and bool(np.all(lo <= im)) and bool(np.all(im <= hi))
    rec.check(ok, key, lambda: "%s\n image %s\n lower %s\n upper %s" % (msg() if callable(msg) else msg, im.tolist(), lo.tolist(), hi.tolist()))
    return ok


def video_case(case, rec):
    import cddm.sim as sim
    t1, quick = tuple(case[1]), case[2]
    others = [None] + times(3 if quick else 4)
    for k, t2 in enumerate(others):
        for nsteps in sorted({TU, max(t1 + (t2 or ()), default=0), 0}):
            # all styles for one camera, cyclic for pairs of times: every style meets every relation of the times
            combos = itertools.product(range(len(STYLES)), range(len(PLACE))) if t2 is None else \
                [((k + len(t1) + nsteps) % len(STYLES), (k // 2 + sum(t1)) % len(PLACE)), (0, 1)]
            for style, place in combos:
                kw, inten, sig, back = STYLES[style]
                kw = dict(kw)
                off, rot = PLACE[place]
                taken = []

                def particles():
                    for i in range(nsteps):
                        taken.append(i)
                        yield np.array(position(i))
                conv = (list, tuple, np.array)[(k + style) % 3]
                a1 = conv(t1) if t1 else list(t1)
                a2 = None if t2 is None else (conv(t2) if t2 else list(t2))
                label = lambda: "t1=%s t2=%s steps=%d options=%s offset=%s rotation=%s" % (t1, t2, nsteps, kw, off, rot)
                g = sim.particles_video(particles(), a1, VSHAPE, t2=a2, offset=off, rotation=rot, **kw)
                v1 = [t for t in t1 if t < nsteps]
                v2 = [t for t in t2 if t < nsteps] if t2 is not None else v1
                want = list(zip(v1, v2)) if t2 is not None else [(t,) for t in v1]
                got = []
                rec.state("video", t1, t2, nsteps, style, place)
                ok = True
                for m in range(TU + 3):
                    rec.step()
                    try:
                        fr = next(g)
                    except StopIteration:
                        break
                    if not rec.check(m < len(want), "video:extra", lambda: "additional frame %d, %s" % (m, label())):
                        ok = False
                        break
                    if not rec.check(isinstance(fr, tuple) and len(fr) == len(want[m]), "video:cameras", label):
                        ok = False
                        break
                    # a frame is there as soon as its time (of the later camera) is simulated
                    rec.check(len(taken) == max(want[m]) + 1, "video:causal", lambda: "%s frame %d: %d steps" % (label(), m, len(taken)))
                    for c, f in enumerate(fr):
                        rec.check(f.dtype == np.dtype(kw.get("dtype", "uint8")), "video:dtype", label)
                        ok = in_bounds(rec, f, want_frame(want[m][c], c + 1, style, place), "video:frame", lambda: "%s frame %d camera %d" % (label(), m, c + 1)) and ok
                    got.append(fr)
                if ok:
                    rec.check(len(got) == len(want), "video:length", lambda: "%s: %d frames, expected %d" % (label(), len(got), len(want)))
                # frames do not share memory
                for fa, fb in itertools.combinations([f for fr in got for f in fr], 2):
                    rec.check(not np.shares_memory(fa, fb), "video:shared", label)
                rec.check(tuple(int(x) for x in a1) == t1 and (t2 is None or tuple(int(x) for x in a2) == t2), "video:input", label)
                rec.trace()
                rec.outcome(t1, t2, len(got))
                if not ok:
                    return


def grid(shape, d):
    """positions in the box, off the pixel borders and on them"""
    a = [i / d for i in range(shape[0] * d)]
    b = [i / d for i in range(shape[1] * d)]
    return list(itertools.product(a, b))


def run(case, rec):
    import cddm.sim as sim
    kind = case[0]
    if kind == "video":
        return video_case(case, rec)
    if kind == "points":
        _, shape, dtype, d = case
        shape = tuple(shape)
        pos = grid(shape, d)
        amp = 200 if dtype == "uint8" else 60000
        for p in pos:
            rec.step()
            rec.state(kind, shape, p)
            im = np.zeros(shape, dtype)
            out = rec.call("points", sim.draw_points, im, np.array([p]), np.array([amp], dtype))
            rec.same(out, points_image(shape, [p], [amp]), "points", lambda: "draw_points at %s" % (p,))
            rec.check(out.dtype == np.dtype(dtype), "points:dtype")
            rec.trace()
        # all pairs on a coarse grid, on top of an existing image
        cg = grid(shape, 1)
        for p, r in itertools.product(cg, cg):
            im = np.full(shape, 3, dtype)
            out = sim.draw_points(im, np.array([p, r, p]), np.array([10, 20, 5], dtype))
            rec.same(out, points_image(shape, [p, r, p], [10, 20, 5]) + 3, "points:pairs", lambda: "draw_points at %s, %s" % (p, r))
            rec.trace()
        return
    if kind == "psf":
        _, shape, dtype, sigma, d = case
        shape = tuple(shape)
        amp = 40 if dtype == "uint8" else 900
        # a coarser grid for a bigger frame, so that all positions in relation to the borders are there
        for p in grid(shape, d if shape[0] * shape[1] < 20 else d // 2):
            p = (p[0] + .03, p[1] + .07)
            rec.step()
            rec.state(kind, shape, sigma, p)
            a = amp
            want = psf_bounds(shape, [p], [a], [sigma])
            if dtype == "uint8" and want[1].max() > 255:
                a = max(1, int(a * 200 / want[1].max()))
                want = psf_bounds(shape, [p], [a], [sigma])
                if want[1].max() > 255:
                    continue
            im = np.zeros(shape, dtype)
            out = rec.call("psf", sim.draw_psf, im, np.array([p]), np.array([a], dtype), np.array([sigma]))
            in_bounds(rec, out, want, "psf", lambda: "draw_psf at %s sigma %s intensity %s" % (p, sigma, a))
            rec.trace()
        cg = grid(shape, 1)
        if len(cg) <= 16:
            for p, r in itertools.product(cg, cg):
                P = [(p[0] + .3, p[1] + .8), (r[0] + .5, r[1] + .5)]
                s = [sigma, 0.5 * sigma] if (p[0] + p[1]) % 2 else [0.5 * sigma, sigma]
                want = psf_bounds(shape, P, [20, 30], s)
                if want[1].max() > 250:
                    continue
                out = sim.draw_psf(np.full(shape, 4, dtype), np.array(P), np.array([20, 30], dtype), np.array(s))
                in_bounds(rec, out, (want[0] + 4, want[1] + 4), "psf:pairs", lambda: "draw_psf at %s sigma %s" % (P, s))
                rec.state(kind, shape, sigma, p, r)
                rec.trace()
        rec.outcome(case)
        return
    if kind == "psfsizes":
        # one large particle among small ones: each keeps its own extent; the image is the sum of the single images
        _, dtype, big, small, k = case
        shape = ((33, 33), (40, 27), (27, 40), (9, 33))[k]
        amp = 200 if dtype == "uint8" else 20000
        spots = [(0.4, 0.6), (shape[0] / 2. + .2, shape[1] / 2. + .7), (shape[0] - 1.5, 3.1)]
        for order in itertools.permutations(range(3)):
            for where in spots:
                rec.state(kind, dtype, big, small, shape, order, where)
                P = [where] + [s for s in spots if s != where]
                A = [amp, amp // 20, 1]
                S = [big, small, small]
                P, A, S = [[x[o] for o in order] for x in (P, A, S)]
                want = psf_bounds(shape, [P[order.index(0)]], [amp], [big])
                if dtype == "uint8" and want[1].max() + sum(A) - amp > 255:
                    continue
                out = rec.call("psfsizes", sim.draw_psf, np.zeros(shape, dtype), np.array(P), np.array(A, dtype), np.array(S))
                lo, hi = psf_bounds(shape, P, A, S)
                in_bounds(rec, out, (lo, hi), "psf:sizes", lambda: "draw_psf at %s sigma %s" % (P, S))
                rec.trace()
        rec.outcome(case)
        return
    if kind == "mirror":
        _, lo, w = case
        hi = lo + w
        tiny = (0, 1e-17, -1e-17, 1e-16, -1e-16, 1e-12, -1e-12)
        for k in range(-24, 57):
            x = lo + k * w / 8.
            for e in tiny:
                y = x + e
                rec.step()
                rec.state(kind, lo, w, k, e)
                r = float(rec.call("mirror", sim.mirror, y, float(lo), float(hi)))
                rec.check(lo <= r < hi, "mirror:range", lambda: "mirror(%r, %r, %r) = %r" % (y, lo, hi, r))
                m = (r - y) / w
                # congruent: result differs by a multiple of the box
                rec.check(abs(m - round(m)) < 1e-9, "mirror:position", lambda: "mirror(%r, %r, %r) = %r" % (y, lo, hi, r))
                if lo <= y < hi:
                    rec.check(r == y, "mirror:inside", lambda: "mirror(%r, %r, %r) = %r" % (y, lo, hi, r))
                rec.trace()
        a = np.array([[lo - w / 2., lo], [hi, hi + w / 4.]])
        rec.same(sim.mirror(a, lo, np.array([hi, hi + w])), [[lo + w / 2., lo], [lo, hi + w / 4.]], "mirror:array")
        return
    if kind == "walk":
        _, shape, count = case
        shape = tuple(shape)
        xs = [(a * .5, b * .5) for a in range(-3, 2 * shape[0] + 3) for b in range(-3, 2 * shape[1] + 3)]
        sets = [[xs[i], xs[-1 - i], xs[(i * 7) % len(xs)]][:1 + i % 3] for i in range(len(xs))]
        for si, x0 in enumerate(sets):
            for vi, (vel, vfun) in enumerate((((0., 0.), None), ((.5, -.75), None), ((3.25, 2.), None), (0.25, None), ("array", lambda x, n: np.arange(2. * n).reshape(n, 2) / 4 - .5),
                                              ("call", lambda x, n: np.stack([0.25 + 0 * x[:, 0], x[:, 0] / 2], axis=1)))):
                for dt in (1, .5, 2):
                    if (si + vi) % 2 and dt != 1 and vi < 4:
                        continue
                    n = len(x0)
                    v = (lambda x: vfun(x, n)) if vel == "call" else vfun(None, n) if vel == "array" else vel
                    for dl in (0, "call0"):
                        delta = 0 if dl == 0 else (lambda x: np.zeros(len(x)))
                        rec.state(kind, shape, count, tuple(x0), vi, dt)
                        label = lambda: "start %s velocity %s dt %s delta %s shape %s" % (x0, vel, dt, dl, shape)
                        got = [np.array(g) for g in sim.brownian_walk(x0, count, shape, delta, dt, v)]
                        rec.check(len(got) == count, "walk:length", lambda: "%d steps, expected %d" % (len(got), count))
                        x = np.array(x0, float)
                        for i, g in enumerate(got):
                            x = x % np.array(shape, float)
                            rec.step()
                            if not rec.same(g, x, "walk:position", lambda: "step %d, %s" % (i, label())):
                                return
                            rec.check(bool(np.all(g >= 0) and np.all(g < np.array(shape))), "walk:range", label)
                            x = x + (np.asarray(v(x)) if callable(v) else np.asarray(v, float)) * dt
                        rec.trace()
        return
    if kind == "noise":
        _, count, n = case
        big = (1 << 20, 1 << 20)
        x0 = np.full((n, 2), float(1 << 19))

        def walk(delta, dt, v=(0., 0.), sd=3):
            sim.seed(sd)
            return np.array(list(sim.brownian_walk(x0, count + 1, big, delta, dt, v)))
        for sd in (0, 1, 7):
            base = walk(1, 1, sd=sd)
            z = np.diff(base, axis=0)
            rec.check(bool(np.all(z != 0)) and len(set(z.ravel().tolist())) == z.size, "noise:independent", lambda: "displacements are not independent %s" % z)
            rec.same(walk(1, 1, sd=sd), base, "noise:seed", "the same seed gives another walk", rtol=0, atol=0)
            for delta, dt in itertools.product((0.5, 1, 2., 3), (.25, 1, 2, 4)):
                for v in ((0., 0.), (5., -3.)):
                    rec.step(count)
                    rec.state(kind, count, n, sd, delta, dt, v)
                    want = z * (delta * math.sqrt(dt)) + np.array(v) * dt
                    rec.same(np.diff(walk(delta, dt, v, sd), axis=0), want, "noise:scale", lambda: "displacements for delta=%s dt=%s velocity=%s" % (delta, dt, v), rtol=1e-6, atol=1e-6)
                    rec.same(np.diff(walk(lambda x: np.arange(1., len(x) + 1) * delta, dt, lambda x: np.tile(v, (len(x), 1)), sd), axis=0),
                             z * (np.arange(1., n + 1)[:, None] * delta * math.sqrt(dt)) + np.array(v) * dt, "noise:scale:callable",
                             lambda: "displacements for a callable delta %s dt=%s velocity=%s" % (delta, dt, v), rtol=1e-6, atol=1e-6)
                    rec.trace(2)
            # another box does not change the displacements, only wraps them
            for shape in ((4, 6), (1, 1), (7, 3)):
                sim.seed(sd)
                got = list(sim.brownian_walk(x0, count + 1, shape, 1.5, 1, (0.5, 0.)))
                un = x0.copy()
                for i, g in enumerate(got):
                    d = (np.array(g) - un) / np.array(shape)
                    rec.check(bool(np.all(np.abs(d - np.round(d)) < 1e-6)), "noise:wrap", lambda: "step %d in box %s" % (i, shape))
                    rec.check(bool(np.all(np.array(g) >= 0) and np.all(np.array(g) < np.array(shape))), "noise:box", lambda: "step %d in box %s" % (i, shape))
                    if i < count:
                        un = un + z[i] * 1.5 + np.array((.5, 0.))
                rec.trace()
        return
    if kind == "particles":
        for n, shape, count in itertools.product((1, 2, 5), ((4, 4), (3, 9)), (0, 1, 3)):
            for dt, v in itertools.product((1, .5), (0., .25, (1., .5), "call")):
                vel = (lambda x: np.tile((.5, .25), (len(x), 1))) if v == "call" else v
                varr = np.array((.5, .25) if v == "call" else v) * np.ones(2)
                for sd in (0, 5):
                    rec.step()
                    rec.state(kind, n, shape, count, dt, v, sd)
                    label = lambda: "particles=%d shape=%s count=%d dt=%s velocity=%s" % (n, shape, count, dt, v)
                    runs = []
                    for r in range(2):
                        sim.seed(sd)
                        runs.append([np.array(g) for g in sim.brownian_particles(count, shape, n, 0.3, dt, vel)])
                    rec.check(len(runs[0]) == count and all(np.array_equal(a, b) for a, b in zip(*runs)), "particles:seed", label)
                    for g in runs[0]:
                        rec.check(g.shape == (n, 2) and bool(np.all(g >= 0) and np.all(g < np.array(shape))), "particles:box", label)
                    x0 = [((i * .75) % shape[0], (i * 1.25 + .5) % shape[1]) for i in range(n)]
                    got = [np.array(g) for g in sim.brownian_particles(count, shape, n, 0, dt, vel, x0=x0)]
                    rec.check(len(got) == count, "particles:length", label)
                    for i, g in enumerate(got):
                        rec.same(g, (np.array(x0) + varr * dt * i) % np.array(shape, float), "particles:position", label)
                    rec.trace()
                    rec.raises("particles:x0", ValueError, lambda: list(sim.brownian_particles(count, shape, n + 1, 0, dt, vel, x0=x0)))
        # start positions: all over the box
        sim.seed(1)
        x = next(iter(sim.brownian_particles(1, (2, 3), 400)))
        cells = {(int(a), int(b)) for a, b in x}
        rec.check(cells == set(itertools.product(range(2), range(3))), "particles:start", lambda: "cells %s" % cells)
        return
    if kind == "form":
        _, shape, navg = case
        shape = tuple(shape)
        h, w = shape
        for sigma, amp, dtype in itertools.product((0.4, 0.8, 1.3), (5, 30), ("uint8", "uint16")):
            lohi = []
            amb = False
            for i in range(navg):
                for j in range(navg):
                    p = (i * h / navg, j * w / navg)
                    # image by the drawing function, that is checked on its own
                    im = sim.draw_psf(np.zeros(shape, dtype), np.array([p]), np.array([amp], dtype), np.array([sigma]))
                    lohi.append(np.asarray(im, float))
            for wname in ("ones", "ramp"):
                win = np.ones(shape) if wname == "ones" else np.arange(1., h * w + 1).reshape(shape) / (h * w)
                for mode, f in (("rfft2", np.fft.rfft2), ("fft2", np.fft.fft2)):
                    rec.step()
                    rec.state(case, sigma, amp, dtype, wname, mode)
                    want = np.sqrt(np.mean([np.abs(f(im * win)) ** 2 for im in lohi], axis=0))
                    got = rec.call("form", sim.form_factor, win, sigma=sigma, intensity=amp, navg=navg, dtype=dtype, mode=mode)
                    rec.same(got, want, "form", lambda: "form_factor(%s, sigma=%s, intensity=%s, navg=%s, mode=%s)" % (shape, sigma, amp, navg, mode), atol=1e-8)
                    if mode == "rfft2":
                        rec.same(sim.form_factor(win, sigma, amp, navg, dtype), want, "form:default", atol=1e-8)
                    rec.trace()
        rec.raises("form:mode", ValueError, sim.form_factor, np.ones(shape), navg=navg, mode="rfft")
        return
    if kind == "adc":
        _, bits, sat, black = case
        top = 2 ** int(bits[:-3]) - 1
        lev = [0, 1, 2, 3, 5, 10, 16, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 128, 200, 255, 256, 257, 300, 500, 1000, 1023, 1024, 1025, 1124, 5000, 16384, 32767, 32768, 32800, 32868, 40000, 65535]
        f = np.array(lev, float)
        want = np.minimum(np.maximum(np.floor(np.maximum(f - black, 0) / sat * top), 0), top)
        for dt in (float, "float32", "uint16", int):
            for shape in ((len(lev),), (1, len(lev)), (len(lev), 1)):
                for mode in ("plain", "out"):
                    rec.step()
                    rec.state(case, str(dt), shape, mode)
                    x = f.astype(dt).reshape(shape)
                    keep = x.copy()
                    label = lambda: "adc(%s, saturation=%s, black_level=%s, bit_depth=%s)" % (np.dtype(dt), sat, black, bits)
                    kw = dict(saturation=sat, black_level=black, bit_depth=bits, noise_model="none")
                    if mode == "out":
                        out = np.full(shape, 77, "uint16")
                        r = rec.call("adc:out", sim.adc, x, out=out, **kw)
                        rec.check(r is out, "adc:out", label)
                    else:
                        r = rec.call("adc", sim.adc, x, **kw)
                    rec.check(r.dtype.kind == "u", "adc:dtype", lambda: "%s %s" % (r.dtype, label()))
                    rec.same(r, want.reshape(shape), "adc", label)
                    rec.check(np.array_equal(x, keep), "adc:input", label)
                    rec.trace()
        # no photons, no readout noise: noise models add nothing
        z = np.zeros((2, 3))
        for model in ("gaussian", "poisson", "none"):
            rec.same(sim.adc(z, saturation=sat, black_level=black, bit_depth=bits, noise_model=model), z, "adc:dark", model)
        rec.same(sim.adc(z, saturation=sat, black_level=black, bit_depth=bits), z, "adc:dark:default")
        # noise is reproducible, in range, and raises with the signal
        for model in ("gaussian", "poisson"):
            x = np.full((4, 4), 500.)
            rs = []
            for i in range(2):
                sim.seed(4)
                rs.append(sim.adc(x, saturation=sat, black_level=black, bit_depth=bits, noise_model=model))
            rec.check(np.array_equal(*rs), "adc:seed", model)
            rec.check(int(rs[0].max()) <= top, "adc:range", model)
        return
    if kind == "adcnoise":
        # signal and readout noise both carry shot noise: mean is their sum, and variance too, independently in each pixel
        _, model, total, share, black = case
        n = 64
        for sd in (1, 2, 3):
            for dt in (float, "uint16"):
                rec.step()
                rec.state(case, sd, str(dt))
                sim.seed(sd)
                x = np.full((n, n), total * (1 - share)).astype(dt)
                r = rec.call("adc:noise", sim.adc, x, saturation=65535, black_level=black, bit_depth="16bit", readout_noise=total * share, noise_model=model)
                e = np.asarray(r, float) + (.5 if model == "gaussian" else 0.) + black - total
                label = lambda: "signal %s readout noise %s black level %s: mean %s variance %s" % (x[0, 0], total * share, black, e.mean() + total, e.var())
                rec.check(abs(e.mean()) < 6 * math.sqrt(total) / n + .01, "adc:noise:mean:" + model, label)
                rec.check(.85 * total < e.var() < 1.15 * total, "adc:noise:variance:" + model, label)
                for c in ((e[1:] * e[:-1]).mean(), (e[:, 1:] * e[:, :-1]).mean()):
                    rec.check(abs(c) < .12 * total, "adc:noise:independent:" + model, label)
        rec.trace()
        return
    if kind == "adcerr":
        for m in ("normal", "", None, "Gaussian"):
            rec.raises("adc:model", ValueError, sim.adc, np.zeros((2, 2)), noise_model=m)
        rec.trace()
        return
    if kind == "errors":
        bad = [("float64", 5), ("int8", 5), ("uint32", 5), ("uint8", 256), ("uint8", -1), ("uint16", -3), ("uint8", [3, 256]), ("uint16", [1, -1])]
        for dtype, inten in bad:
            rec.state("errors", dtype, str(inten))
            for f in (lambda: list(sim.particles_video([np.zeros((2, 2))], [0], (3, 3), dtype=dtype, intensity=inten)),
                      lambda: list(sim.simple_brownian_video([0], shape=(3, 3), num_particles=2, dtype=dtype, intensity=inten))):
                rec.raises("errors:dtype", ValueError, f)
            if np.ndim(inten) == 0:
                rec.raises("errors:form", ValueError, sim.form_factor, np.ones((3, 3)), intensity=inten, dtype=dtype, navg=1)
            rec.trace()
        for ok in (("uint8", 255), ("uint16", 256), ("uint8", 0), ("uint16", 65535)):
            rec.call("errors:accept", lambda: list(sim.particles_video([np.zeros((1, 2))], [0], (3, 3), dtype=ok[0], intensity=ok[1])))
        for sh in ((3,), (3, 3, 3), ()):
            rec.raises("errors:shape", ValueError, lambda: list(sim.brownian_walk([(0., 0.)], 1, sh)))
            rec.raises("errors:transform", ValueError, lambda: sim.coordinate_transform(np.zeros((1, 2)), sh))
        for x0 in ((0., 1.), 1., np.zeros((1, 2, 2))):
            rec.raises("errors:x0", ValueError, lambda: list(sim.brownian_walk(x0, 1, (3, 3))))
        return
    if kind == "simple":
        t1 = tuple(case[1])
        for t2 in [None] + [t for t in times(2) if t]:
            for si, conv in enumerate((list, np.array)):
                x0 = [(.4, .6), (2.2, 4.7), (.4, 3.3)]
                off, rot = (1., 0.) if t2 is not None and si else (None, None), None
                kw = dict(delta=0, velocity=(.25, .5), num_particles=3, x0=x0, dt=1 + si)
                rec.step()
                rec.state(kind, t1, t2, si)
                label = lambda: "simple_brownian_video t1=%s t2=%s" % (t1, t2)
                v = rec.call("simple", sim.simple_brownian_video, conv(t1), None if t2 is None else conv(t2), (4, 6), background=3, intensity=9, sigma=None,
                             offset=off if off != (None, None) else None, rotation=rot, **kw)
                got = list(v)
                want = [(t,) for t in t1] if t2 is None else list(zip(t1, t2))
                if not rec.check(len(got) == len(want), "simple:length", lambda: "%s: %d frames" % (label(), len(got))):
                    return
                for fr, tt in zip(got, want):
                    for c, (f, t) in enumerate(zip(fr, tt)):
                        p = (np.array(x0) + np.array((.25, .5)) * (1 + si) * t) % np.array((4., 6.))
                        if c == 0 and off != (None, None):
                            p = transform(p, (4, 6), off, rot)
                        rec.same(f, points_image((4, 6), p, [9] * 3) + 3, "simple:frame", lambda: "%s camera %d time %d" % (label(), c + 1, t))
                rec.trace()
        return
