"""C18: reading a video through a background thread, under every schedule."""
import os
import numpy as np
from mc import sched as sc

PID = "C18"
IMPORTS = ("cddm.video",)
RULE = ("state = (scenario, schedule); transition = one scheduled synchronisation operation of the real code; trace = one complete execution, compared with the frames of the source")
MAXRUN = 200000


def bounds(tier):
    q = tier == "quick"
    return ("videos of 0..%d frames, queue sizes unlimited, 1..3, failure of the source before each frame and after the last, consumer that stops early, two nested threads, "
            "play_threaded with and without frame rate, four clock behaviours, 0..2 displays; every interleaving of the synchronisation operations with at most %s preemptions "
            "(unbounded for 0 and 1 frames)") % ((4, "3 (2 when nested)") if q else (6, "5 (3 when nested)"))


def cases(tier):
    q = tier == "quick"
    nmax, pb = (4, 3) if q else (6, 5)
    out = []
    for n in range(0, nmax + 1):
        b = None if n <= 1 else pb
        for qs in (0, 1, 2, 3):
            for fail in [None] + list(range(n + 1)):
                out.append(("threaded", n, qs, fail, None, b))
            for stop in range(n):
                out.append(("threaded", n, qs, None, stop, b))
        for q1, q2 in ((0, 0), (1, 1), (2, 1), (0, 2)):
            for fail in (None, n // 2):
                if n <= nmax - 1:
                    out.append(("nested", n, (q1, q2), fail, None, 2 if q else 3))
        for fps in (None, 10.):
            for pat in range(4):
                if fps is None and pat:
                    continue
                for show in (0, 1, 2, 3):
                    for fail in [None] + list(range(n + 1)):
                        if show and fail not in (None, n // 2):
                            continue
                        if n == nmax and (show == 3 or fail):
                            continue
                        out.append(("play", n, (fps, pat, show), fail, None, min(b or 9, pb if show == 0 else 2)))
                out.append(("play", n, (fps, pat, 0), None, n // 2, 2))
    return out


class Boom(Exception):
    pass


PATTERNS = ((0.,), (0.02,), (1.,), (0., 0.3))
MOD = {}


def module():
    """a copy of the real module with controllable threads, queues and clock"""
    if not MOD:
        import cddm.video as vid
        thr = sc.make_threading()
        clock = sc.Clock()
        v = sc.load_copy("cddm.video_mc", vid.__file__, {"threading": thr, "queue": sc.make_queue(thr), "time": sc.make_time(clock)})

        def pause(i=1):
            sc.sched().point(label="pause", give_way=True)
        v.pause = pause
        MOD.update(v=v, clock=clock)
    return MOD["v"], MOD["clock"]


def worker_init(wid):
    module()


def source(frames, fail, seen):
    for i, f in enumerate(frames):
        sc.sched().point(label="source")
        if i == fail:
            raise Boom(i)
        seen.append(i)
        yield f
    if fail == len(frames):
        raise Boom(fail)


def figures(v):
    """the registered displays, if the module has such a registry"""
    r = getattr(v, "_FIGURES", None)
    return r if isinstance(r, dict) else {}


def run(case, rec):
    v, clock = module()
    kind, n, opt, fail, stop, bound = case
    frames = [(np.full((2, 2), 10. * i + 1), np.full((2, 2), 10. * i + 5)) for i in range(n)]
    keep = [tuple(f.copy() for f in fr) for fr in frames]
    shown = []

    class Show:
        def __init__(self, title="", norm_func=lambda x: x):
            self.title, self.norm = title, norm_func

        def show(self, im):
            sc.sched().point(label="show")
            shown.append((self.title, np.array(im)))
    v.ImageShow = Show
    seen = []

    def main(s):
        shown.clear()
        seen.clear()
        figures(v).clear()
        src = source(frames, fail, seen)
        if kind == "threaded":
            it = v.threaded(src, opt)
        elif kind == "nested":
            it = v.threaded(v.threaded(src, opt[0]), opt[1])
        else:
            fps, pat, show = opt
            clock.reset(PATTERNS[pat])
            if show & 1:
                src = v.show_video(src, 0, "a")
            if show & 2:
                src = v.show_diff(src, "b")
            it = v.play_threaded(src, fps)
        got = []
        err = None
        try:
            for f in it:
                got.append(f)
                if stop is not None and len(got) > stop:
                    break
                if len(got) > n + 3:
                    break
        except Boom as e:
            err = e
        if stop is not None:
            it.close()
        again = next(it, "end")
        return got, err, again, list(shown), len(figures(v))

    runs = 0
    for s, res, exc in sc.explore(main, bound, MAXRUN):
        runs += 1
        rec.step(s.steps)
        sch = [c for _, c in s.trace]
        rec.states.add(sc_digest(case, sch))
        key = kind
        if s.failure is not None:
            rec.fail(key + ":deadlock", "%s: %s; schedule %s" % (case, s.failure, sch))
            return
        if exc is not None:
            rec.fail(key + ":error", "%s: unexpected %s: %s; schedule %s" % (case, type(exc).__name__, exc, sch))
            return
        got, err, again, sh, nfig = res
        want = frames if fail is None else frames[:fail]
        if stop is not None:
            want = want[:stop + 1]
        ok = len(got) == len(want) and all(a is b or (a is not None and len(a) == len(b) and all(np.array_equal(p, q) for p, q in zip(a, b))) for a, b in zip(got, want))
        ok = rec.check(ok, key + ":frames", lambda: "%s: frames %s expected %s; schedule %s" % (
            case, [None if g is None else float(g[0][0, 0]) for g in got], [float(g[0][0, 0]) for g in want], sch))
        if stop is None:
            ok &= rec.check((err is not None) == (fail is not None) and (err is None or err.args == (fail,)), key + ":failure",
                            lambda: "%s: failure of the source reported as %r; schedule %s" % (case, err, sch))
        ok &= rec.check(again == "end", key + ":end", lambda: "iterator goes on after its end: %r" % (again,))
        ok &= rec.check(all(np.array_equal(p, q) for a, b in zip(frames, keep) for p, q in zip(a, b)), key + ":content", "frame content changed")
        if kind == "play":
            last = {}
            for title, im in sh:
                i = shown_index(title, im)
                ok &= rec.check(0 <= i < n and i > last.get(title, -1), key + ":show", lambda: "%s: shown %s after %s; schedule %s" % (case, i, last.get(title), sch))
                last[title] = i
            if stop is None:
                ok &= rec.check(nfig == 0, key + ":figures", "displays left registered after the end of the video")
        rec.outcome(case, len(sh), tuple(sorted({t for t, _ in sh})))
        rec.trace()
        if not ok:
            return


def shown_index(title, im):
    if title == "a":
        return int(round((im[0, 0] - 1) / 10))
    # difference x/m - y/m + 1/2 with m = 2*y, y = x + 4
    y = 2. / (0.5 - (im[0, 0] - 0.5) - 0.5) if im[0, 0] != 0.5 else -1
    return int(round((y - 5) / 10))


def sc_digest(case, sch):
    import hashlib
    return hashlib.blake2b(repr((case, sch)).encode(), digest_size=8).digest()
