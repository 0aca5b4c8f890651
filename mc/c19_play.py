"""C19: showing and playing a video, every clock behaviour and combination of displays."""
import itertools, types
import inspect
import numpy as np
from mc import sched as sc
from mc.c15_geometry import dft

PID = "C19"
IMPORTS = ("cddm.video",)
RULE = ("state = (displays, frames, clock behaviour, frame rate, position in the stream); transition = one frame set pulled through play; "
        "trace = one complete stream, its frames and every displayed image compared with the definition")
ADV = (0., 0.13, 0.29, 1.03)
FIGS = ["video", "video1", "same", "abs", "imag", "diff", "ndiff", "dt"]
MOD = {}


def bounds(tier):
    q = tier == "quick"
    return ("0..%d frames, all sequences of the clock advances %s before each frame, 3 frame rates x 3 maximal delays, all combinations of at most %d of %d displays, "
            "image display of every mode/clip/library on shapes up to 5 x 5, difference images, repeated playing, failing source, consumer that stops early" % (4 if q else 5, ADV, 2 if q else 3, len(FIGS)))


def cases(tier):
    q = tier == "quick"
    out = []
    for n in range(0, (4 if q else 5) + 1):
        for pat in itertools.product(range(len(ADV)), repeat=n):
            out.append(("play", n, pat))
    for d in range(0, (2 if q else 3) + 1):
        for figs in itertools.product(range(len(FIGS)), repeat=d):
            out.append(("figs", figs))
    out += [("norm", h, w) for h in range(1, 6) for w in range(1, 6)]
    out += [("diff", h, w) for h in range(1, 4) for w in range(1, 4)]
    out += [("title",), ("image",), ("stop",)]
    return out


class Boom(Exception):
    pass


def figures(v):
    """the registered displays, if the module has such a registry"""
    r = getattr(v, "_FIGURES", None)
    return r if isinstance(r, dict) else {}


class FakeTime:
    now = 1000.


def module():
    if not MOD:
        import cddm.video as vid
        clock = FakeTime()
        import time as rt
        tm = types.ModuleType("time")
        tm.__dict__.update({k: v for k, v in rt.__dict__.items() if not k.startswith("__")})
        for k in ("time", "monotonic", "perf_counter", "process_time"):
            setattr(tm, k, lambda: clock.now)

        def sleep(x):
            clock.now += x
        tm.sleep = sleep
        v = sc.load_copy("cddm.video_c19", vid.__file__, {"time": tm})
        shown = []

        real = v.ImageShow

        class Show(real):
            """records what is displayed instead of drawing it (drawing itself: case 'image')"""
            def __init__(self, *a, **k):
                real.__init__(self, *a, **k)
                b = inspect.signature(real.__init__).bind(self, *a, **k)
                b.apply_defaults()
                self.mc_title, self.mc_norm = b.arguments["title"], b.arguments["norm_func"]

            def show(self, im):
                shown.append((self.mc_title, np.array(self.mc_norm(im))))
        v.ImageShow = Show
        v.pause = lambda i=1: None
        MOD.update(v=v, clock=clock, shown=shown, real=real)
    from cddm import conf
    conf.set_showlib("matplotlib")
    return MOD["v"], MOD["clock"], MOD["shown"]


def worker_init(wid):
    import matplotlib
    matplotlib.use("Agg")
    module()


def frames(n, h=3, w=4, salt=0, cplx=False):
    out = []
    for i in range(n):
        fr = []
        for c in range(2):
            a = np.array([[1. + (5 * (i + 1) * (y + 3) * (x + 2) + 3 * c * x * (i + 2) + 7 * y * x * x + salt * (x + 1)) % 17 for x in range(w)] for y in range(h)])
            if cplx:
                a = a + 1j * a[::-1]
            fr.append(a)
        out.append(tuple(fr))
    return out


def im_video(fr, id=0):
    return fr[id].real


def im_fft(a, mode, clip):
    h, w = a.shape
    f = dft(np.real(a).astype(float), np.array([i if i <= h // 2 else i - h for i in range(h)]) / h, np.arange(w // 2 + 1) / w)
    f = {"real": np.real, "imag": np.imag, "abs": np.abs}[mode](f).copy()
    f[0, 0] = 0
    c = clip if clip is not None else f.max()
    g = f / c if mode == "abs" else f / (2 * c) + 0.5
    g = np.minimum(np.maximum(g, 0), 1)
    # zero frequency in the middle
    return np.array([g[(i - h // 2) % h] for i in range(h)])


def im_diff(fr, normalize):
    x, y = fr[0].real, fr[1].real
    if normalize:
        x = x / (sum(x.flat) / x.size)
        y = y / (sum(y.flat) / y.size)
    m = 2 * max(max(x.flat), max(y.flat))
    return (x - y) / m + 0.5


T1, T2 = [1, 3, 4, 9, 11, 12, 20], [0, 4, 2, 9, 13, 11, 21]


def add_fig(v, video, name, title):
    """inserts a display; returns the video and the image of each frame set (None when it is not to be shown)"""
    if name == "video":
        return v.show_video(video, 0, title), lambda i, fr: im_video(fr, 0)
    if name == "video1":
        return v.show_video(video, id=1, title=title, norm_func=lambda x: x * 2 + 1), lambda i, fr: fr[1] * 2 + 1
    if name == "same":
        return v.show_video(video), lambda i, fr: im_video(fr, 0)
    if name == "abs":
        return v.show_fft(video, 1, title), lambda i, fr: im_fft(fr[1], "abs", None)
    if name == "imag":
        return v.show_fft(video, title=title, mode="imag", clip=11.), lambda i, fr: im_fft(fr[0], "imag", 11.)
    if name == "diff":
        return v.show_diff(video, title), lambda i, fr: im_diff(fr, False)
    if name == "ndiff":
        return v.show_diff(video, title, normalize=True), lambda i, fr: im_diff(fr, True)
    return v.show_diff(video, title, dt=(1,), t1=T1, t2=T2), lambda i, fr: im_diff(fr, False) if abs(T2[i] - T1[i]) == 1 else None


def stream(v, clock, shown, data, pat, figs, fps, max_delay, fail=None, ncam=2):
    def source():
        for i, f in enumerate(data):
            clock.now += ADV[pat[i]] if pat else 0.
            if i == fail:
                raise Boom(i)
            yield f
        if fail == len(data):
            raise Boom(fail)
    x = source()
    ims = []
    for k, f in enumerate(figs):
        x, im = add_fig(v, x, FIGS[f], "T%d" % k)
        # the title of a display without one is unique
        ims.append(("T%d" % k if FIGS[f] != "same" else None, im))
    kw = {}
    if fps is not None:
        kw["fps"] = fps
    if max_delay is not None:
        kw["max_delay"] = max_delay
    return v.play(x, **kw), ims


def check_stream(rec, v, clock, shown, data, pat, figs, fps, max_delay, fail=None, stop=None, key="play"):
    n = len(data)
    keep = [tuple(f.copy() for f in fr) for fr in data]
    del shown[:]
    clock.now = 1000.
    label = lambda: "%d frames, clock %s, displays %s, fps %s, max_delay %s, fail %s" % (n, [ADV[p] for p in pat] if pat else 0, [FIGS[f] for f in figs], fps, max_delay, fail)
    it, ims = stream(v, clock, shown, data, pat, figs, fps, max_delay, fail)
    it = iter(it)
    rate, delay = fps or 100., 0.1 if max_delay is None else max_delay
    t0 = None
    last, moment = {}, {}
    got = []
    err = None
    while stop is None or len(got) < stop:
        before = len(shown)
        try:
            fr = next(it)
        except StopIteration:
            break
        except Boom as e:
            err = e
            break
        rec.step()
        i = len(got)
        got.append(fr)
        rec.state(figs, tuple(pat or ())[:i + 1], fps, max_delay, i)
        if not rec.check(i < n and fr is data[i], key + ":frames", lambda: "%s: output %d is not the frame set of the source" % (label(), i)):
            return
        if t0 is None:
            t0 = clock.now
        new = shown[before:]
        intime = clock.now - t0 < i / rate + delay
        if not intime:
            rec.check(not new, key + ":late", lambda: "%s: frame %d is late, but %s displayed" % (label(), i, [t for t, _ in new]))
            continue
        # one image in each display, of a frame not shown before: it must appear if there was such a frame since the display
        # was last updated, and it may appear if there was one between the frame last shown and that update
        pend = []
        for k, (title, im) in enumerate(ims):
            cand = [j for j in range(last.get(k, -1) + 1, i + 1) if im(j, data[j]) is not None]
            pend.append((k, title, im, cand, bool(cand) and cand[-1] > moment.get(k, -1)))
        lo, hi = sum(1 for p in pend if p[4]), sum(1 for p in pend if p[3])
        ok = rec.check(lo <= len(new) <= hi, key + ":shown", lambda: "%s: %d images displayed with frame %d, expected %d to %d" % (label(), len(new), i, lo, hi))
        rec.check(len({t for t, _ in new}) == len(new), key + ":once", lambda: "%s: titles %s at frame %d" % (label(), [t for t, _ in new], i))
        named = {t: im for t, im in new}
        rest = [im for t, im in new if t not in {t for t, _ in ims}]
        for k, title, im, cand, must in pend:
            if not cand:
                ok &= rec.check(title not in named, key + ":shown", lambda: "%s: display %s updated at frame %d without a new frame" % (label(), title, i))
                continue
            if title is None:
                ok &= rec.check(bool(rest) or not must, key + ":shown", lambda: "%s: nothing in the display without a title" % label())
                img = rest.pop(0) if rest else None
            else:
                img = named.get(title)
                ok &= rec.check(img is not None or not must, key + ":shown", lambda: "%s: nothing in display %s at frame %d" % (label(), title, i))
            if img is None:
                continue
            moment[k] = i
            hit = [j for j in cand if im(j, data[j]).shape == img.shape and np.allclose(im(j, data[j]), img, rtol=1e-9, atol=1e-9)]
            ok &= rec.check(bool(hit), key + ":image", lambda: "%s: image of display %s (%s) at frame %d is not of frames %s" % (label(), title, FIGS[figs[k]], i, cand))
            last[k] = hit[0] if hit else i
        if not ok:
            return
    if stop is None:
        rec.check(len(got) == (n if fail is None else fail), key + ":frames", lambda: "%s: %d frames" % (label(), len(got)))
        rec.check((err is not None) == (fail is not None), key + ":failure", lambda: "%s: %r" % (label(), err))
        if fail is None:
            rec.check(len(figures(v)) == 0, key + ":figures", lambda: "%s: displays left registered after the end of the video" % label())
    rec.check(all(np.array_equal(a, b) for x, y in zip(data, keep) for a, b in zip(x, y)), key + ":content", lambda: "%s: frames were modified" % label())
    rec.trace()


def run(case, rec):
    v, clock, shown = module()
    figures(v).clear()
    kind = case[0]
    if kind == "play":
        n, pat = case[1], tuple(case[2])
        data = frames(n)
        for fps in (None, 10., 3.):
            for md in (None, 0.5, 0.):
                for figs in ((), (0,), (0, 5), (7, 1)):
                    check_stream(rec, v, clock, shown, data, pat, figs, fps, md)
        for fail in range(n + 1):
            check_stream(rec, v, clock, shown, data, pat, (0,), 10., None, fail, key="fail")
            figures(v).clear()
    elif kind == "figs":
        figs = tuple(case[1])
        for n in range(5):
            for cplx in (False, True):
                if cplx and any(FIGS[f] in ("abs", "imag") for f in figs):
                    continue
                for k, pat in enumerate(((0,) * n, (1,) * n, (0, 3, 0, 0, 0)[:n], (0, 1, 2, 1, 0)[:n])):
                    for fps in (None, 10.):
                        check_stream(rec, v, clock, shown, frames(n, salt=k, cplx=cplx), pat, figs, fps, None, key="figs")
        # the next video is not affected by the one before
        check_stream(rec, v, clock, shown, frames(3, salt=5), (3, 0, 3), figs, 10., None, key="again")
        check_stream(rec, v, clock, shown, frames(2, salt=9), (0, 0), figs, 10., None, key="again")
        # displays without play do not change the stream
        data = frames(4)
        x = iter(data)
        for k, f in enumerate(figs):
            x, _ = add_fig(v, x, FIGS[f], "T%d" % k)
        del shown[:]
        out = list(x)
        rec.check(len(out) == 4 and all(a is b for a, b in zip(out, data)), "noplay:frames", "frames changed by displays that are not played")
        rec.check(not shown, "noplay:shown", "displayed without play")
        rec.trace()
    elif kind == "norm":
        h, w = case[1], case[2]
        from cddm import conf
        from mc.c16_videofft import libs
        a = frames(1, h, w, 3)[0][0]
        for lib in libs():
            old = conf.set_rfft2lib(lib)
            try:
                for mode in ("real", "imag", "abs"):
                    for clip in (None, 1., 7.5, 100.):
                        b = a.copy()
                        rec.state(h, w, lib, mode, clip)
                        with np.errstate(all="ignore"):
                            want = im_fft(a, mode, clip)
                            got = rec.call("norm", v.norm_rfft2(clip, mode), b)
                        rec.check(np.array_equal(a, b), "norm:input", "image was modified")
                        if clip is None and not np.abs(im_range(a, mode)) > 1e-9:
                            continue
                        rec.same(got, want, "norm", lambda: "norm_rfft2(%s, %s) with %s on shape %s" % (clip, mode, lib, (h, w)), rtol=1e-8, atol=1e-8)
                        rec.trace()
            finally:
                conf.set_rfft2lib(old)
        for bad in ("Real", "", "phase", None):
            rec.raises("norm:mode", ValueError, v.norm_rfft2, None, bad)
    elif kind == "diff":
        h, w = case[1], case[2]
        for cplx in (False, True):
            for norm in (False, True):
                check_stream(rec, v, clock, shown, frames(3, h, w, 2, cplx), (0, 0, 0), (6 if norm else 5,), 10., None, key="diff")
    elif kind == "title":
        data = frames(2)
        for k in range(1, 5):
            figures(v).clear()
            x = iter(data)
            for j in range(k):
                x = v.show_video(x) if j % 2 == 0 else v.show_diff(x) if j == 1 else v.show_fft(x)
            next(iter(x))
            rec.check(len(figures(v)) in (0, k), "title", lambda: "%d displays without a title share a name: %s" % (k, list(figures(v))))
            rec.state("title", k)
            rec.trace()
    elif kind == "image":
        # the image drawn by matplotlib is the prepared frame
        import matplotlib.pyplot as plt
        cls = MOD["real"]
        for norm in (None, lambda x: x.real * 3):
            plt.close("all")
            s = cls("t") if norm is None else cls("t", norm)
            for i, fr in enumerate(frames(3)):
                f = fr[0].copy()
                rec.call("image", s.show, f)
                want = f if norm is None else f * 3
                rec.same(np.asarray(plt.gcf().axes[0].images[0].get_array()), want, "image", lambda: "frame %d is not what is displayed" % i)
                rec.check(np.array_equal(f, fr[0]), "image:input", "frame was modified")
                rec.state("image", norm is None, i)
            rec.trace()
            del s
    else:
        for n in range(1, 4):
            for stop in range(1, n + 1):
                figures(v).clear()
                check_stream(rec, v, clock, shown, frames(n), (0,) * n, (0, 5), 10., None, stop=stop, key="stop")


def im_range(a, mode):
    h, w = a.shape
    f = dft(np.real(a).astype(float), np.array([i if i <= h // 2 else i - h for i in range(h)]) / h, np.arange(w // 2 + 1) / w)
    f = {"real": np.real, "imag": np.imag, "abs": np.abs}[mode](f).copy()
    f[0, 0] = 0
    return f.max()
