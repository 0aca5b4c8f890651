"""C16: Fourier transform of a video, Fourier normalization and DLS-like imaging."""
import itertools, warnings
import numpy as np
from mc import ref
from mc.c14_select import freq
from mc.c15_geometry import dft, crop_ok, signed

PID = "C16"
IMPORTS = ("cddm.fft",)
RULE = ("state = (image shape, crop limits, library, in-place option, data type, cameras); transition = one video processed; "
        "trace = every frame of the result compared with the directly summed Fourier transform")
LIBS = ("numpy", "scipy", "pyfftw")
DT = ("float64", "float32", "uint8", "int16", "uint16", "complex128", "complex64")

LARGE = ((33, 17), (32, 40), (17, 64), (64, 33), (3, 200), (128, 5))


def bounds(tier):
    t = 7 if tier == "quick" else 11
    return "image shapes up to %d x %d, all crop limits, libraries numpy/scipy/pyfftw, in place or not, 7 data types, all wave vectors alone and in triples with one or several windows, videos of 0..3 frames with 1..2 cameras; shapes %s with limits at the ends of their range and in the middle" % (t, t, LARGE)


def cases(tier):
    t = 7 if tier == "quick" else 11
    return [(k, h, w) for k in ("fft", "norm", "dls") for h in range(1, t + 1) for w in range(1, t + 1)] + [("large", h, w) for h, w in LARGE]


def libs():
    from cddm import conf
    out = ["numpy"]
    if conf.SCIPY_INSTALLED:
        out.append("scipy")
    if conf.PYFFTW_INSTALLED:
        out.append("pyfftw")
    return out


def video(nframes, ncam, h, w, dt, salt=0):
    out = []
    for n in range(nframes):
        fr = []
        for c in range(ncam):
            x = ref.gdata((h, w), 3 + salt + 10 * n + c, True, 1, 9)
            fr.append((x if dt.startswith("complex") else x.real).astype(dt))
        out.append(tuple(fr))
    return out


def run(case, rec):
    import cddm.fft as ff
    from cddm import conf
    kind, h, w = case
    tol = lambda dt: dict(rtol=1e-4, atol=1e-3) if dt in ("float32", "complex64") else dict(rtol=1e-8, atol=1e-8)
    if kind == "fft":
        for dt in DT:
            for name, half, setter in (("rfft2_video", True, conf.set_rfft2lib), ("fft2_video", False, conf.set_fftlib)):
                n1 = w // 2 + 1 if half else w
                vid = video(2, 2, h, w, dt)
                si, sj = freq(h), (list(range(n1)) if half else freq(w))
                full = [[dft(np.real(f).astype(float) if half else f.astype(complex), np.array(si) / h, np.array(sj) / w) for f in fr] for fr in vid]
                for lib in libs():
                    old = setter(lib)
                    try:
                        for kimax in [None] + list(range(0, h // 2 + 2)):
                            for kjmax in [None] + list(range(0, (w // 2 if half else w // 2) + 2)):
                                if dt not in ("float64", "complex128") and (kimax, kjmax) not in ((None, None), (1, 1), (0, None)):
                                    continue
                                for ov in (False, True):
                                    rec.state(name, h, w, dt, lib, kimax, kjmax, ov)
                                    fn = getattr(ff, name)
                                    if not (crop_ok(h, kimax, False) and crop_ok(n1, kjmax, half)):
                                        rec.raises(name + ":too large", ValueError, lambda: list(fn(video(1, 1, h, w, dt), kimax, kjmax, ov)))
                                        continue
                                    ii = signed(h, kimax)
                                    jj = (list(range(n1)) if kjmax is None else list(range(kjmax + 1))) if half else signed(w, kjmax)
                                    for nf, nc in ((2, 2), (1, 1), (0, 1)):
                                        v = [fr[:nc] for fr in vid[:nf]]
                                        src = [tuple(f.copy() for f in fr) for fr in v]
                                        g = rec.call(name, lambda: list(fn(iter(src), kimax, kjmax, ov)))
                                        if not rec.check(len(g) == nf and all(isinstance(x, tuple) and len(x) == nc for x in g), name + ":frames"):
                                            continue
                                        for a in range(nf):
                                            for c in range(nc):
                                                want = full[a][c][np.ix_([i % h for i in ii], [j % (w if not half else n1) if j >= 0 else j % w for j in jj])]
                                                rec.same(g[a][c], want, "%s:%s" % (name, lib), "limits %s %s dtype %s" % (kimax, kjmax, dt), **tol(dt))
                                                if not ov:
                                                    rec.check(np.array_equal(src[a][c], v[a][c]), name + ":input", "input frame changed")
                                        # results of different frames and cameras do not share memory
                                        arrs = [x for fr in g for x in fr]
                                        rec.check(not any(np.shares_memory(p, q) for p, q in itertools.combinations(arrs, 2)), name + ":memory", "frames share memory")
                                        rec.trace()
                    finally:
                        setter(old)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            v = video(2, 1, h, w, "float64")
            for a, b in ((ff.rfft2, ff.rfft2_video), (ff.fft2, ff.fft2_video)):
                for p, q in zip(a(v, 0, 0), b(v, 0, 0)):
                    rec.same(p[0], q[0], "renamed function")
        # switching libraries half way of a video
        v = video(3, 1, h, w, "float64")
        for seq in itertools.product(libs(), repeat=3):
            o1, o2 = conf.CDDMConfig.rfft2lib, conf.CDDMConfig.fftlib
            try:
                rec.state("switch", h, w, seq)
                for fn, setter, half in ((ff.rfft2_video, conf.set_rfft2lib, True), (ff.fft2_video, conf.set_fftlib, False)):
                    it = fn(iter(v))
                    for k, lib in enumerate(seq):
                        setter(lib)
                        g, = next(it)
                        rec.same(g, dft(v[k][0], np.array(freq(h)) / h, np.array(range(w // 2 + 1) if half else freq(w)) / w), "switch", rtol=1e-8, atol=1e-8)
                    rec.trace()
            finally:
                conf.set_rfft2lib(o1)
                conf.set_fftlib(o2)
    elif kind == "large":
        for dt in ("float64", "uint8", "complex64"):
            vid = video(3, 2, h, w, dt)
            for name, half, setter in (("rfft2_video", True, conf.set_rfft2lib), ("fft2_video", False, conf.set_fftlib)):
                n1 = w // 2 + 1 if half else w
                si, sj = freq(h), (list(range(n1)) if half else freq(w))
                full = [[dft(np.real(f).astype(float) if half else f.astype(complex), np.array(si) / h, np.array(sj) / w) for f in fr] for fr in vid]
                for lib in libs():
                    old = setter(lib)
                    try:
                        for (kimax, kjmax), ov in itertools.product(((None, None), (0, None), (h // 4, w // 4), (h // 2, w // 2), (None, w // 4), (h // 2, 0)), (False, True)):
                            rec.state("large", name, h, w, dt, lib, kimax, kjmax, ov)
                            ii = signed(h, kimax)
                            jj = (list(range(n1)) if kjmax is None else list(range(kjmax + 1))) if half else signed(w, kjmax)
                            src = [tuple(f.copy() for f in fr) for fr in vid]
                            fn = getattr(ff, name)
                            if not (crop_ok(h, kimax, False) and crop_ok(n1, kjmax, half)):
                                rec.raises(name + ":too large", ValueError, lambda: list(fn(src, kimax, kjmax, ov)))
                                continue
                            g = rec.call(name, lambda: list(ff.normalize_fft(fn(iter(src), kimax, kjmax, ov))))
                            src = [tuple(f.copy() for f in fr) for fr in vid]
                            g2 = rec.call(name, lambda: list(fn(iter(src), kimax, kjmax, ov)))
                            want = np.array(full)[np.ix_(range(3), range(2), [i % h for i in ii], [j if half else j % w for j in jj])]
                            big = np.abs(want).max()
                            rec.same(np.array(g2) / big, want / big, "%s:large:%s" % (name, lib), "limits %s %s dtype %s" % (kimax, kjmax, dt), **tol(dt))
                            rec.same(np.array(g), want / want[..., :1, :1], "normalize_fft:large", **tol(dt))
                            if not ov:
                                rec.check(np.array_equal(np.array(src), np.array(vid)), name + ":input", "input frame changed")
                            rec.trace()
                    finally:
                        setter(old)
        return
    elif kind == "norm":
        for dt in ("complex128", "float64", "complex64"):
            for nf in range(4):
                for nc in (1, 2):
                    for inplace in (False, True):
                        for odt in (None, "complex128", "complex64"):
                            if inplace and odt:
                                continue
                            if dt == "float64" and odt:
                                continue
                            rec.state("norm", h, w, dt, nf, nc, inplace, odt)
                            v = video(nf, nc, h, w, dt)
                            src = [tuple(f.copy() for f in fr) for fr in v]
                            g = rec.call("normalize_fft", lambda: list(ff.normalize_fft(iter(src), inplace=inplace, dtype=odt)))
                            if not rec.check(len(g) == nf and all(len(x) == nc for x in g), "normalize_fft:frames"):
                                continue
                            for a in range(nf):
                                for c in range(nc):
                                    want = v[a][c] / v[a][c][0, 0]
                                    rec.same(g[a][c], want, "normalize_fft", **tol("float32" if "64" == dt[-2:] and dt != "float64" or odt == "complex64" else "float64"))
                                    if odt:
                                        rec.check(g[a][c].dtype == np.dtype(odt), "normalize_fft:dtype")
                                    rec.check((g[a][c] is src[a][c]) if inplace else np.array_equal(src[a][c], v[a][c]), "normalize_fft:input")
                            rec.trace()
    else:
        if h > 5 or w > 5:
            return
        from cddm import fft as ff
        frame = ref.gdata((h, w), h + 9 * w, False)
        y, x = np.arange(h)[:, None], np.arange(w)[None, :]
        win = 1. + ref.gdata((h, w), 5, False, 0, 4)
        F = np.fft.fft2(frame)

        def ref_dls(frame, wi, k, kimax, kjmax):
            # circular convolution with the window that is modulated by the plane wave of the wave vector
            ker = wi * np.exp(-2j * np.pi * (k[0] * y / h + k[1] * x / w))
            out = np.zeros((h, w), complex)
            for a in range(h):
                for b in range(w):
                    out += frame[a, b] * np.roll(np.roll(ker, a, 0), b, 1)
            if kimax is None and kjmax is None:
                return out
            ii, jj = signed(h, kimax), signed(w, kjmax)
            f = dft(out, np.array(ii) / h, np.array(jj) / w)
            # back transform of the cropped spectrum: sampled at the cropped number of points
            yy = np.exp(2j * np.pi * np.outer(np.arange(len(ii)), np.arange(len(ii))) / len(ii)) / len(ii)
            xx = np.exp(2j * np.pi * np.outer(np.arange(len(jj)), np.arange(len(jj))) / len(jj)) / len(jj)
            return yy @ f @ xx

        for lib in libs():
            old = conf.set_fftlib(lib)
            try:
                for k in itertools.product(range(-(h // 2), (h + 1) // 2), range(-(w // 2), (w + 1) // 2)):
                    for lim in ((None, None), (h // 2, None), (0, 0), ((h - 1) // 2, (w - 1) // 2)):
                        rec.state("dls", h, w, lib, k, lim)
                        want = ref_dls(frame, win, k, *lim)
                        rec.same(rec.call("dls", ff.dls, frame, win, k, *lim), want, "dls", "k %s limits %s" % (k, lim), rtol=1e-7, atol=1e-7)
                        vid = [(frame, 2 * frame), (frame[::-1], frame)]
                        g = rec.call("dls_video", lambda: list(ff.dls_video(iter(vid), win, k, *lim)))
                        if rec.check(len(g) == 2 and all(len(fr) == 2 for fr in g), "dls_video:frames"):
                            for fr, gr in zip(vid, g):
                                for a, b in zip(fr, gr):
                                    rec.same(b, ref_dls(a, win, k, *lim), "dls_video", rtol=1e-7, atol=1e-7)
                        rec.trace()
                # several wave vectors, one or several windows: all triples of neighbours in the list of all wave vectors
                allk = list(itertools.product(range(-(h // 2), (h + 1) // 2), range(-(w // 2), (w + 1) // 2))) + [(h - 1, w - 1), (0, 0)]
                trip = [[(0, 0), (-1, 0), (h // 2 - 1 if h > 1 else 0, w - 1)]] + [[allk[(i + d) % len(allk)] for d in range(3)] for i in range(len(allk))]
                for ks, wi in ((np.array(t), wi) for t in trip for wi in (win, np.stack([win, 2 * win, win + 1]))):
                    rec.state("dls multi", h, w, lib, ks.tobytes(), wi.ndim)
                    g = rec.call("dls multi", ff.dls, frame, wi, ks)
                    want = np.array([ref_dls(frame, wi if wi.ndim == 2 else wi[i], k, None, None) for i, k in enumerate(ks)])
                    rec.same(g, want, "dls:several", rtol=1e-7, atol=1e-7)
                    rec.trace()
            finally:
                conf.set_fftlib(old)
