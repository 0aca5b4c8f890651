"""C21: configuration setters (complete state space) and the configuration file / environment variables."""
import contextlib, io, itertools, os, shutil, tempfile, warnings
import numpy as np
from mc import sched as sc

PID = "C21"
IMPORTS = ("cddm.conf",)
RULE = ("state = configuration (all settings together); transition = one setter call from that state; trace = setter call, or one import of the configuration module, compared with the model")

KEYS = ("verbose", "showlib", "fftlib", "rfft2lib", "fft_threads", "numba_threads")
ALIAS = {"numpy.fft": "numpy", "numpy": "numpy", "scipy": "scipy", "scipy.fftpack": "scipy", "pyfftw": "pyfftw", "mkl_fft": "mkl_fft"}


def installed(name):
    try:
        __import__(name)
        return True
    except ImportError:
        return False


def domain():
    """settings that are reachable"""
    libs = ["numpy"] + [x for x in ("scipy", "pyfftw", "mkl_fft") if installed(x)]
    show = ["matplotlib"] + [x for x in ("pyqtgraph", "cv2") if installed(x)]
    import numba
    thr = [1, 2] if max_threads() >= 2 else [1]
    return {"verbose": [0, 1, 2], "showlib": show, "fftlib": libs, "rfft2lib": libs, "fft_threads": [1, 2, 3], "numba_threads": thr}


def max_threads():
    import numba
    return numba.config.NUMBA_NUM_THREADS


def bounds(tier):
    return ("all reachable configurations of 6 settings x every setter with all valid names, aliases, names of missing libraries and invalid values (restored afterwards through the returned value); "
            "all combinations of values of every pair of entries of the configuration file with the environment variable of the compile-time ones")


OPS = [("verbose", x) for x in (0, 1, 2, 5, -1, -2, "1", 1.7, True, "x", None, "", [1])]
OPS += [("showlib", x) for x in ("matplotlib", "pyqtgraph", "cv2", "Matplotlib", "", None, 3)]
OPS += [(k, x) for k in ("fftlib", "rfft2lib") for x in ("numpy", "numpy.fft", "scipy", "scipy.fftpack", "pyfftw", "mkl_fft", "Numpy", "fftw", "", None, "DEFAULT")]
OPS += [("fft_threads", x) for x in (1, 2, 3, "x", None)]
OPS += [("numba_threads", x) for x in (1, 2, 0, -1, 10 ** 6, "x", None)]


def cases(tier):
    out = []
    d = domain()
    for st in itertools.product(*[range(len(d[k])) for k in KEYS]):
        out.append(("set", st))
    ini = list(INI)
    for a, b in itertools.combinations_with_replacement(range(len(ini)), 2):
        out.append(("ini", ini[a], ini[b]))
    for e in ENV:
        out.append(("env", e))
    out += [("home",), ("print",)]
    return out


def setter(conf, key):
    return getattr(conf, "set_" + key)


def model(st, key, val):
    """(new state, exception expected, warning expected)"""
    new = dict(st)
    if key == "verbose":
        try:
            new[key] = max(0, int(val))
        except (ValueError, TypeError):
            return st, True, False
        return new, False, False
    if key == "showlib":
        if val not in ("matplotlib", "cv2", "pyqtgraph"):
            return st, True, False
        if val != "matplotlib" and not installed(val):
            return st, False, True
        new[key] = val
        return new, False, False
    if key in ("fftlib", "rfft2lib"):
        if val == "DEFAULT":
            val = "numpy"
        if val not in ALIAS:
            return st, True, False
        if not installed(ALIAS[val]):
            return st, False, True
        new[key] = ALIAS[val]
        return new, False, False
    if not isinstance(val, int) or key == "numba_threads" and not 1 <= val <= max_threads():
        return st, True, False
    new[key] = val
    return new, False, False


def real(conf):
    return {k: getattr(conf.CDDMConfig, k) for k in KEYS}


def effects(rec, conf, st, label):
    import numba
    if installed("pyfftw"):
        import pyfftw
        rec.check(pyfftw.config.NUM_THREADS == st["fft_threads"], "effect:fft_threads", lambda: "%s: pyfftw uses %s threads" % (label(), pyfftw.config.NUM_THREADS))
    rec.check(numba.get_num_threads() == st["numba_threads"], "effect:numba_threads", lambda: "%s: numba uses %s threads" % (label(), numba.get_num_threads()))


def run(case, rec):
    from cddm import conf
    if case[0] == "set":
        d = domain()
        st = {k: d[k][i] for k, i in zip(KEYS, case[1])}
        for k in KEYS:
            rec.call("reach", setter(conf, k), st[k])
        rec.check(real(conf) == st, "reach", lambda: "setters give %s instead of %s" % (real(conf), st))
        rec.state(tuple(st.values()))
        for key, val in OPS:
            label = lambda: "set_%s(%r) in %s" % (key, val, st)
            new, exc, warn = model(st, key, val)
            err, out = None, None
            rec.step()
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    out = setter(conf, key)() if val == "DEFAULT" else setter(conf, key)(val)
                except Exception as e:
                    err = e
            got = real(conf)
            rec.check((err is not None) == exc, key + ":reject", lambda: "%s: %r, expected %s" % (label(), err, "an error" if exc else "no error"))
            if key in ("showlib", "fftlib", "rfft2lib") and exc:
                rec.check(isinstance(err, ValueError), key + ":reject", lambda: "%s: %r instead of ValueError" % (label(), err))
            if warn:
                rec.check(len(w) > 0, key + ":warning", lambda: "%s: no warning that the library is missing" % label())
            rec.check(got == new, key + ":state", lambda: "%s: configuration is %s, expected %s" % (label(), got, new))
            if err is None:
                rec.check(out == st[key], key + ":previous", lambda: "%s: returned %r, the previous value is %r" % (label(), out, st[key]))
            effects(rec, conf, new, label)
            if err is None:
                # the returned value restores the former configuration
                back = rec.call(key + ":restore", setter(conf, key), out)
                rec.check(real(conf) == st and back == new[key], key + ":restore", lambda: "%s: restored to %s (returned %r)" % (label(), real(conf), back))
                effects(rec, conf, st, label)
            for k in KEYS:
                setattr(conf.CDDMConfig, k, st[k])
            rec.check(conf.CDDMConfig[key] == st[key], "item", "CDDMConfig[...] differs from the attribute")
            rec.outcome(key, val, repr(err), repr(out))
            rec.trace()
        for k in KEYS:
            setter(conf, k)({"fft_threads": 1, "numba_threads": 1, "verbose": 0, "showlib": "matplotlib"}.get(k, "numpy"))
    elif case[0] == "print":
        conf.set_fftlib("scipy")
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            conf.print_config()
        for k, v in list(real(conf).items()) + [("PRECISION", conf.PRECISION), ("NUMBA_CACHE", conf.NUMBA_CACHE), ("NUMBA_PARALLEL", conf.NUMBA_PARALLEL), ("NUMBA_FASTMATH", conf.NUMBA_FASTMATH)]:
            rec.check("%r: %r" % (k, v) in out.getvalue(), "print_config", lambda: "print_config does not show %s = %r" % (k, v))
        rec.check(repr(conf.CDDMConfig) == repr(conf.CDDMConfig.__dict__), "repr")
        rec.state("print")
        rec.trace()
        conf.set_fftlib("numpy")
    else:
        d = tempfile.mkdtemp(prefix="verif_c21_")
        try:
            config(case, rec, conf, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)


# entries of the configuration file: (section, name) -> values
INI = {
    "verbose": ("core", ["0", "1", "2", "abc", "-1", "7"]),
    "showlib": ("core", ["matplotlib", "pyqtgraph"]),
    "double_precision": ("core", ["yes", "no", "true", "0", "maybe"]),
    "cache": ("numba", ["yes", "no", "x"]),
    "parallel": ("numba", ["yes", "no", "x"]),
    "fastmath": ("numba", ["yes", "no", "x"]),
    "numba.nthreads": ("numba", ["1", "2", "100000", "x"]),
    "fft.nthreads": ("fft", ["1", "2", "5", "x"]),
    "fftlib": ("fft", ["numpy", "scipy", "pyfftw", "scipy.fftpack", "numpy.fft"]),
    "rfft2lib": ("fft", ["numpy", "scipy", "pyfftw", "scipy.fftpack", "numpy.fft"]),
}
ENV = {"CDDM_TARGET_PARALLEL": "parallel", "CDDM_NUMBA_CACHE": "cache", "CDDM_FASTMATH": "fastmath", "CDDM_DOUBLE_PRECISION": "double_precision"}
BOOL = {"yes": True, "no": False, "true": True, "0": False, "1": True}


def load_conf(conf, home, env, ini):
    """imports the configuration module again, in a home folder with this configuration file"""
    os.makedirs(home, exist_ok=True)
    if ini is not None:
        os.makedirs(os.path.join(home, ".cddm"), exist_ok=True)
        sec = {}
        for k, v in ini.items():
            sec.setdefault(INI[k][0], []).append("%s = %s\n" % (k.split(".")[-1], v))
        with open(os.path.join(home, ".cddm", "cddm.ini"), "w") as fh:
            for s, lines in sec.items():
                fh.write("[%s]\n%s" % (s, "".join(lines)))
    old = dict(os.environ)
    os.environ.update({"HOME": home, "USERPROFILE": home, "TMP": home})
    for e in ENV:
        os.environ.pop(e, None)
    os.environ.update(env)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return sc.load_copy("cddm.conf_mc", conf.__file__, {})
    finally:
        os.environ.clear()
        os.environ.update(old)


def flag(ini, env, key, default):
    v = BOOL.get(ini.get(key), default)
    for e, k in ENV.items():
        if k == key and e in env:
            try:
                v = bool(int(env[e]))
            except ValueError:
                pass
    return v


def number(x, default):
    try:
        return int(x)
    except (TypeError, ValueError):
        return default


def check_conf(rec, m, conf, ini, env, label):
    ncore = os.sysconf("SC_NPROCESSORS_ONLN")
    w = {}
    double = flag(ini, env, "double_precision", True)
    par = flag(ini, env, "parallel", False)
    w["PRECISION"] = "double" if double else "single"
    w["FDTYPE"], w["CDTYPE"] = ("float64", "complex128") if double else ("float32", "complex64")
    w["IDTYPE"], w["UDTYPE"] = ("int64", "uint64") if double else ("int32", "uint32")
    w["F"], w["C"], w["I"], w["U"] = w["FDTYPE"], w["CDTYPE"], w["IDTYPE"], w["UDTYPE"]
    w["NUMBA_PARALLEL"], w["NUMBA_TARGET"] = par, "parallel" if par else "cpu"
    w["NUMBA_CACHE"] = flag(ini, env, "cache", True)
    w["NUMBA_FASTMATH"] = flag(ini, env, "fastmath", False)
    for k, v in w.items():
        g = getattr(m, k)
        rec.check(str(g) == str(v), "config:" + k, lambda: "%s: %s is %s, expected %s" % (label(), k, g, v))
    c = m.CDDMConfig
    r = {"verbose": max(0, number(ini.get("verbose"), 0)), "showlib": ini.get("showlib", "cv2" if installed("cv2") else "matplotlib"),
         "fftlib": ALIAS[ini.get("fftlib", "mkl_fft" if installed("mkl_fft") else "numpy")], "rfft2lib": ALIAS[ini.get("rfft2lib", "numpy")],
         "fft_threads": number(ini.get("fft.nthreads"), ncore)}
    nt = number(ini.get("numba.nthreads"), ncore)
    if 1 <= nt <= max_threads():
        r["numba_threads"] = nt
    else:
        # more threads than numba can have: as many as there are
        rec.check(1 <= c.numba_threads <= max_threads(), "config:numba_threads", lambda: "%s: %s threads" % (label(), c.numba_threads))
    for k, v in r.items():
        rec.check(getattr(c, k) == v, "config:" + k, lambda: "%s: %s is %r, expected %r" % (label(), k, getattr(c, k), v))


def config(case, rec, conf, d):
    import numba
    k = 0
    try:
        if case[0] == "ini":
            a, b = case[1], case[2]
            for va in INI[a][1]:
                for vb in INI[b][1] if a != b else (None,):
                    ini = {a: va}
                    if vb is not None:
                        ini[b] = vb
                    k += 1
                    label = lambda: "configuration file %s" % ini
                    rec.state("ini", tuple(ini.items()))
                    m = rec.call("import", load_conf, conf, os.path.join(d, str(k)), {}, ini)
                    check_conf(rec, m, conf, ini, {}, label)
                    rec.trace()
        elif case[0] == "env":
            e = case[1]
            key = ENV[e]
            for v in ("0", "1", "2", "x", "", "yes"):
                for va in [None] + INI[key][1]:
                    for e2, v2 in [(None, None)] + [(x, y) for x in ENV if x != e for y in ("0", "1")]:
                        k += 1
                        env = {e: v}
                        if e2:
                            env[e2] = v2
                        ini = {} if va is None else {key: va}
                        label = lambda: "environment %s, configuration file %s" % (env, ini)
                        rec.state("env", tuple(env.items()), va)
                        m = rec.call("import", load_conf, conf, os.path.join(d, str(k)), env, ini)
                        check_conf(rec, m, conf, ini, env, label)
                        rec.trace()
        else:
            # first use: the configuration file is made from the template
            home = os.path.join(d, "new")
            os.makedirs(home)
            m = rec.call("import", load_conf, conf, home, {}, None)
            f = os.path.join(home, ".cddm", "cddm.ini")
            tmpl = open(os.path.join(os.path.dirname(conf.__file__), "cddm.ini")).read()
            rec.check(os.path.exists(f) and open(f).read() == tmpl, "home:template", "configuration file was not made from the template")
            rec.check(m.CDDM_CONFIG_DIR == os.path.join(home, ".cddm"), "home:folder", "configuration folder is %s" % m.CDDM_CONFIG_DIR)
            check_conf(rec, m, conf, {}, {}, lambda: "template")
            # and kept afterwards
            open(f, "w").write("[core]\nverbose = 2\n")
            m = rec.call("import", load_conf, conf, home, {}, None)
            rec.check(open(f).read() == "[core]\nverbose = 2\n" and m.CDDMConfig.verbose == 2, "home:kept", "configuration file of the user was changed or ignored")
            rec.state("home")
            rec.trace()
    finally:
        numba.set_num_threads(1)
        if installed("pyfftw"):
            import pyfftw
            pyfftw.config.NUM_THREADS = 1
