"""C27: window functions, every shape and parameter within bounds."""
import math
import numpy as np

PID = "C27"
IMPORTS = ("cddm.window",)
RULE = "state = (window, shape, parameter, kind of output array); transition = one call; trace = every pixel of the window compared with the documented profile of its radius"
ALPHAS = (0., 0.05, 0.1, 0.25, 0.3, 0.5, 0.75, 0.9, 1.)
SIGMAS = (0.05, 0.1, 0.3, 0.4, 0.5, 1., 2.5)

LARGE = ((64, 64), (129, 65), (1, 200), (257, 3), (128, 200))


def bounds(tier):
    t = 16 if tier == "quick" else 40
    return "all shapes up to %d x %d and %s, alpha in %s, sigma in %s, output array absent / C / Fortran order / strided / single precision" % (t, t, LARGE, ALPHAS, SIGMAS)


def cases(tier):
    t = 16 if tier == "quick" else 40
    return [(h, w) for h in range(1, t + 1) for w in range(1, t + 1)] + list(LARGE)


def radius(h, w):
    """distance of the pixel centre from the image centre, in units of half of the image size"""
    return [[math.hypot((2 * i + 1 - h) / h, (2 * j + 1 - w) / w) for j in range(w)] for i in range(h)]


def black(r, _):
    return 0. if r >= 1 else 0.42 + 0.5 * math.cos(math.pi * r) + 0.08 * math.cos(2 * math.pi * r)


def tuk(r, a):
    if r >= 1:
        return 0.
    return 1. if r <= 1 - a else 0.5 * (1 + math.cos(math.pi * (r - 1 + a) / a))


def gau(r, s):
    return math.exp(-r * r / (2. * s * s))


def run(case, rec):
    import cddm.window as win
    h, w = case
    r = radius(h, w)
    todo = [("blackman", win.blackman, (), black, None), ("hann", win.hann, (), tuk, 1.)]
    todo += [("tukey", win.tukey, (a,), tuk, a) for a in ALPHAS]
    todo += [("gaussian", win.gaussian, (s,), gau, s) for s in SIGMAS]
    for name, fn, args, prof, par in todo:
        want = np.array([[prof(x, par) for x in row] for row in r])
        edge = np.array([[abs(x - 1) < 1e-9 and par == 0. for x in row] for row in r])
        for kind in ("none", "C", "F", "strided", "single"):
            rec.state(name, h, w, par, kind)
            out = {"none": None, "C": np.full((h, w), 7.), "F": np.full((h, w), 7., order="F"), "strided": np.full((2 * h, 3 * w), 7.)[::2, ::3],
                   "single": np.full((h, w), 7., "float32")}[kind]
            got = rec.call(name, fn, (h, w), *args) if out is None else rec.call(name, fn, (h, w), *args, out=out)
            if out is not None:
                rec.check(got is out, name + ":out", "output array not returned")
            tol = 1e-6 if kind == "single" else 1e-12
            g = np.array(got, float)
            if not rec.check(g.shape == (h, w), name + ":shape", lambda: "%s: shape %s for %s" % (name, g.shape, (h, w))):
                return
            g2 = np.where(edge, want, g)
            rec.same(g2, want, name + ":profile", lambda: "%s(%s, %s) out=%s" % (name, (h, w), args, kind), rtol=tol, atol=tol)
            rec.check(bool((g >= -1e-12).all() and (g <= 1 + 1e-12).all()), name + ":range", lambda: "%s(%s, %s): values outside [0,1]" % (name, (h, w), args))
            if not edge.any():
                rec.check(np.allclose(g, g[::-1, :], atol=tol) and np.allclose(g, g[:, ::-1], atol=tol), name + ":symmetry", "not symmetric")
            if kind == "strided":
                rec.check(bool((out.base[1::2] == 7).all() and (out.base[:, 1::3] == 7).all() and (out.base[:, 2::3] == 7).all()), name + ":overrun", "wrote outside of the output array")
            rec.trace()
    for a in (-0.1, -1., 1.1, 2.):
        rec.raises("tukey:reject", ValueError, win.tukey, (h, w), a)
    for s in (0., -0.1):
        rec.raises("gaussian:reject", ValueError, win.gaussian, (h, w), s)
