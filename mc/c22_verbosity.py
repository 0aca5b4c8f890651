"""C22: verbosity: print-disabled sections, failures at every internal call, nothing printed when disabled."""
import contextlib, io, itertools, os, sys
import numpy as np
from mc import ref

PID = "C22"
IMPORTS = ("cddm.core", "cddm.multitau", "cddm.norm", "cddm.video", "cddm.map", "cddm.avg", "cddm.fft", "cddm.sim")
RULE = ("state = (verbosity, stack of open print-disabled sections) and (function, verbosity, position of the fault); transition = one operation / one call with one injected fault; "
        "trace = complete history or call, the verbosity and everything that was printed compared with the model")
LEVELS = (0, 1, 2, -1, -2)


def bounds(tier):
    q = tier == "quick"
    return ("all histories of disable/enable/set_verbose of length <= %d; every library function that calculates something x verbosity 0..2 and inside of a print-disabled section x a failure of "
            "each single internal call (%s) and of the video source before each frame; progress messages for all counts up to 12; frame rate message with a clock that does not advance" % (
                6 if q else 8, "all calls of functions of the package"))


def cases(tier):
    q = tier == "quick"
    n = 6 if q else 8
    out = []
    # a history of length n contains the shorter ones
    for first in itertools.product("DEN012", repeat=2):
        out.append(("hist", "".join(first), n))
    for k in sorted(FUNCS):
        for lev in LEVELS:
            out.append(("fault", k, lev, 1 if not q else 3 if k in HEAVY else 1))
        out.append(("result", k))
    for k in ("iccorr", "iacorr", "iccorr_multi", "iacorr_multi", "asarrays", "load"):
        for lev in LEVELS:
            out.append(("source", k, lev))
    out += [("progress", n) for n in range(1, 13)] + [("rate",)]
    return out


class Boom(Exception):
    pass


N = 32
T1, T2 = np.arange(N), np.arange(N) + (np.arange(N) % 5) // 3


def frames(cross, fail=None):
    for i in range(N):
        if i == fail:
            raise Boom(i)
        a = ref.gdata((2, 3), 3 + i, True, 1, 9)
        yield (a, a[::-1].copy() + 1) if cross else (a,)


def stack(k=0):
    return np.array([ref.gdata((2, 3), 3 + i + k, True, 1, 9) for i in range(N)])


def each(it):
    out = None
    for out in it:
        yield out


FUNCS = {}


def fn(name):
    def deco(f):
        FUNCS[name] = f
        return f
    return deco


def mods():
    import cddm.core as core, cddm.multitau as mt, cddm.norm as norm, cddm.video as video, cddm.map as kmap, cddm.avg as avg, cddm.fft as fft, cddm.sim as sim
    return core, mt, norm, video, kmap, avg, fft, sim


@fn("ccorr")
def _(cache):
    core = mods()[0]
    yield core.ccorr(stack(), stack(3), T1, T2, n=5, norm=7)


@fn("acorr")
def _(cache):
    core = mods()[0]
    yield core.acorr(stack(), n=5, method="fft")
    yield core.acorr(stack(), n=5, method="diff")


@fn("ccorr_multi")
def _(cache):
    mt = mods()[1]
    yield mt.ccorr_multi(stack(), stack(3), level_size=8, norm=7, complex=True)


@fn("acorr_multi")
def _(cache):
    mt = mods()[1]
    yield mt.acorr_multi(stack(), level_size=8, method="diff", thread_divisor=2)


@fn("iccorr")
def _(cache):
    core = mods()[0]
    yield from each(core.iccorr(frames(True), T1, T2, n=4, count=N, chunk_size=4, norm=7, stats=True))


@fn("iacorr")
def _(cache):
    core = mods()[0]
    yield from each(core.iacorr(frames(False), T1, n=4, count=N, chunk_size=4, auto_background=True, stats=True))


@fn("iccorr_multi")
def _(cache):
    mt = mods()[1]
    yield from each(mt.iccorr_multi(frames(True), T1, T1, level_size=8, chunk_size=8, count=N, norm=7, stats=True))


@fn("iacorr_multi")
def _(cache):
    mt = mods()[1]
    yield from each(mt.iacorr_multi(frames(False), T1, level_size=8, chunk_size=8, count=N, binning=True, stats=True, mask=np.array([[1, 0, 1], [1, 1, 0]], bool)))


def norm_args(cache):
    core, mt = mods()[:2]
    if "n" not in cache:
        a, b = stack(), stack(3)
        cache["n"] = (core.ccorr(a, b, n=5, norm=7), mt.ccorr_multi(a, b, level_size=8, norm=7), *core.stats(a, b))
    return cache["n"]


@fn("normalize")
def _(cache):
    norm = mods()[2]
    d, m, bg, var = norm_args(cache)
    for s in ("standard", "structured", "weighted", "subtracted|weighted", "compensated|subtracted"):
        yield norm.normalize(d, bg, var, norm=s, scale=True)
    yield norm.normalize(d, bg, var, norm="weighted", mode="diff", mask=np.array([[1, 0, 1], [1, 1, 0]], bool))


@fn("normalize_multi")
def _(cache):
    norm, mt = mods()[2], mods()[1]
    d, m, bg, var = norm_args(cache)
    for s in ("standard", "subtracted|weighted"):
        yield mt.normalize_multi(m, bg, var, norm=s, scale=True)


@fn("log")
def _(cache):
    mt, norm = mods()[1], mods()[2]
    d, m, bg, var = norm_args(cache)
    x = mt.normalize_multi(m, bg, var, norm=3)
    yield mt.log_merge(*x)
    y = norm.normalize(d, bg, var, norm=3)
    yield mt.log_average(y, 3)


@fn("asarrays")
def _(cache):
    yield mods()[3].asarrays(frames(True), N)


@fn("load")
def _(cache):
    v = mods()[3]
    yield v.load(v.subtract(v.multiply(v.crop(frames(True)), frames(True)), frames(True)), N)


@fn("fft")
def _(cache):
    v, fft = mods()[3], mods()[6]
    yield v.asarrays(fft.normalize_fft(fft.rfft2_video(frames(False), kimax=1, kjmax=1)), N)


@fn("select")
def _(cache):
    kmap = mods()[4]
    x = np.arange(6 * 4 * 3.).reshape(6, 4, 3)
    yield list(kmap.k_select(x, 0., 60., 1, shape=(6, 6)))


@fn("video")
def _(cache):
    sim = mods()[7]
    sim.seed(3)
    yield list(sim.simple_brownian_video(range(4), range(4), shape=(16, 16), num_particles=2, sigma=1.))


HEAVY = ("iccorr", "iacorr", "iccorr_multi", "iacorr_multi", "video")


@contextlib.contextmanager
def captured():
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        yield out


def pkg():
    import cddm
    return os.path.dirname(os.path.realpath(cddm.__file__)) + os.sep


def fault_run(name, lev, k, cache, fail=None):
    """runs the function, the k-th internal call fails; returns (number of calls, exception, verbosities seen by the caller, output, results)"""
    from cddm import conf
    root = pkg()
    skip = tuple(os.path.join(root, f) for f in ("print_tools.py", "conf.py", "decorators.py"))
    cnt = [0]

    def tracer(frame, event, arg):
        if event == "call":
            f = frame.f_code.co_filename
            if f.startswith(root) and f not in skip and frame.f_code.co_name not in ("<lambda>", "<genexpr>"):
                cnt[0] += 1
                if cnt[0] == k:
                    raise Boom(k)
        return None
    conf.CDDMConfig.verbose = lev
    seen, res, exc = [], [], None
    np.random.seed(1)
    with captured() as out:
        sys.settrace(tracer)
        try:
            for r in FUNCS[name](cache):
                seen.append(conf.CDDMConfig.verbose)
                res.append(r)
        except Boom as e:
            exc = e
        finally:
            sys.settrace(None)
    last = conf.CDDMConfig.verbose
    conf.CDDMConfig.verbose = 0
    return cnt[0], exc, seen, last, out.getvalue(), res


def flat(x):
    if isinstance(x, (list, tuple)):
        out = []
        for i in x:
            out += flat(i)
        return out
    return [None if x is None else np.array(x)]


CACHE = {}


def run(case, rec):
    from cddm import conf
    import cddm.print_tools as pt
    kind = case[0]
    if kind == "hist":
        history(case, rec, conf, pt)
    elif kind == "fault":
        name, lev, stride = case[1:]
        norm_args(CACHE)
        n, exc, seen, last, out, res = fault_run(name, lev, 0, CACHE)
        label = lambda: "%s with verbosity %d" % (name, lev)
        rec.check(exc is None and all(s == lev for s in seen) and last == lev, "level", lambda: "%s: verbosity %s while the caller runs, %s afterwards" % (label(), sorted(set(seen)), last))
        if lev <= 0:
            rec.check(out == "", "printed", lambda: "%s: printed %r" % (label(), out[:200]))
        rec.trace()
        rec.outcome(name, lev, n)
        for k in range(1, n + 1):
            if stride > 1 and k % stride and k > 40 and k < n - 40:
                continue
            rec.step()
            rec.state(name, lev, k)
            _, exc, seen, last, out, res = fault_run(name, lev, k, CACHE)
            rec.check(exc is not None, "hidden", lambda: "%s: failure of internal call %d is not reported" % (label(), k))
            if not rec.check(last == lev and all(s == lev for s in seen), "fault", lambda: "%s: verbosity is %d after a failure of internal call %d" % (label(), last, k)):
                return
            if lev <= 0:
                rec.check(out == "", "printed", lambda: "%s: printed %r" % (label(), out[:200]))
            rec.trace()
    elif kind == "result":
        # verbosity does not change the result
        norm_args(CACHE)
        name = case[1]
        base = None
        for lev in LEVELS:
            _, exc, seen, last, out, res = fault_run(name, lev, 0, CACHE)
            f = flat(res)
            if base is None:
                base = f
            ok = len(f) == len(base) and all((a is None and b is None) or (a is not None and b is not None and a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=0, equal_nan=True)) for a, b in zip(f, base))
            rec.check(ok, "result", lambda: "%s: result with verbosity %d differs from that with %d" % (name, lev, LEVELS[0]))
            rec.state("result", name, lev)
            rec.trace()
    elif kind == "source":
        name, lev = case[1:]
        core, mt, norm, video = mods()[:4]
        for fail in range(N):
            for early in (False, True):
                rec.state("source", name, lev, fail, early)
                conf.CDDMConfig.verbose = lev
                seen, exc = [], None
                src = (lambda c: frames(c, fail)) if not early else (lambda c: itertools.islice(frames(c), fail))
                with captured() as out:
                    try:
                        if name == "iccorr":
                            it = core.iccorr(src(True), T1, T2, n=4, count=N, chunk_size=4, norm=7)
                        elif name == "iacorr":
                            it = core.iacorr(src(False), T1, n=4, count=N, chunk_size=4)
                        elif name == "iccorr_multi":
                            it = mt.iccorr_multi(src(True), T1, T1, level_size=8, chunk_size=8, count=N)
                        elif name == "iacorr_multi":
                            it = mt.iacorr_multi(src(False), T1, level_size=8, chunk_size=8, count=N)
                        else:
                            it = getattr(video, name)(src(True), N) and ()
                        for _ in it:
                            seen.append(conf.CDDMConfig.verbose)
                    except Exception as e:
                        exc = e
                last = conf.CDDMConfig.verbose
                conf.CDDMConfig.verbose = 0
                rec.step()
                label = lambda: "%s with verbosity %d, video %s frame %d" % (name, lev, "ends before" if early else "fails at", fail)
                rec.check(isinstance(exc, Boom if not early else Exception), "source:hidden", lambda: "%s: %r" % (label(), exc))
                rec.check(last == lev and all(s == lev for s in seen), "source:level", lambda: "%s: verbosity is %d" % (label(), last))
                if lev <= 0:
                    rec.check(out.getvalue() == "", "source:printed", lambda: "%s: printed %r" % (label(), out.getvalue()[:200]))
                rec.trace()
    elif kind == "progress":
        total = case[1]
        for lev in (0, 1, 2, -2):
            conf.CDDMConfig.verbose = lev
            for i in range(total + 1):
                with captured() as out:
                    rec.call("progress", pt.print_progress, i, total)
                s = out.getvalue()
                rec.state("progress", lev, i, total)
                if lev <= 0:
                    rec.check(s == "", "progress:off", lambda: "printed %r with verbosity %d" % (s, lev))
                else:
                    rec.check("%.1f%%" % (100. * i / total) in s and s.count("=") == 50 * i // total and s.count("=") + s.count("-") == 50 and ("\n" in s) == (i == total),
                              "progress:bar", lambda: "progress %d of %d is %r" % (i, total, s))
                rec.trace()
        conf.CDDMConfig.verbose = 0
    else:
        for lev in (0, 1, 2, -1, -2):
            for n, t0, t1 in itertools.product((0, 1, 100), (0., 5.), (5., 7.5)):
                conf.CDDMConfig.verbose = lev
                with captured() as out:
                    rec.call("rate", pt.print_frame_rate, n, t0, t1)
                s = out.getvalue()
                rec.state("rate", lev, n, t0, t1)
                if lev < 2:
                    rec.check(s == "", "rate:off", lambda: "printed %r with verbosity %d" % (s, lev))
                else:
                    rec.check(" %d frames" % n in s and (t0 == t1 or "%.2f" % (n / (t1 - t0)) in s), "rate", lambda: "printed %r for %d frames in %s s" % (s, n, t1 - t0))
                rec.trace()
        conf.CDDMConfig.verbose = 0


def history(case, rec, conf, pt):
    """all histories with this beginning: D opens, E closes (restores) a print-disabled section, N enables without a level, 0..2 set the verbosity"""
    first, n = case[1:]
    seen = set()
    start = 2

    def play(h):
        conf.CDDMConfig.verbose = start
        level, stk = start, []
        for c in h:
            if c == "D":
                got = pt.disable_prints()
                rec.check(got == level, "hist:previous", lambda: "%s: disable_prints returned %s, the level was %s" % (h, got, level))
                stk.append(got)
                level = -abs(level)
            elif c == "E":
                pt.enable_prints(stk[-1])
                level = stk.pop()
            elif c == "N":
                pt.enable_prints()
                level = abs(level)
            else:
                conf.set_verbose(int(c))
                level = int(c)
            rec.step()
        return level, stk

    def rec_hist(h, depth):
        level, stk = play(h)
        rec.state("hist", level, tuple(stk))
        label = lambda: "after %s from verbosity %d (D disable, E enable(previous), N enable, digit set_verbose)" % (h, start)
        ok = rec.check(conf.CDDMConfig.verbose == level, "hist:level", lambda: "%s: verbosity is %s, expected %s" % (label(), conf.CDDMConfig.verbose, level))
        with captured() as out:
            pt.print1("one"), pt.print2("two"), pt.print_progress(1, 2), pt.print_frame_rate(3, 0., 1.)
        s = out.getvalue()
        rec.check(("one" in s) == (level >= 1) and ("two" in s) == (level >= 2) and ("|" in s) == (level >= 1) and ("frames" in s) == (level >= 2), "hist:print",
                  lambda: "%s: printed %r, level is %s" % (label(), s, level))
        rec.trace()
        if depth == 0 or not ok:
            return
        nxt = "D"
        if stk:
            nxt += "E"
        else:
            # the level is the user's business outside of print-disabled sections only
            nxt += "N012"
        for c in nxt:
            rec_hist(h + c, depth - 1)

    def allowed(h):
        k = 0
        for c in h:
            if c == "E" and k == 0 or c in "N012" and k > 0:
                return False
            k += (c == "D") - (c == "E")
        return True
    if allowed(first):
        for start in (0, 1, 2):
            rec_hist(first, n - len(first))
    conf.CDDMConfig.verbose = 0
