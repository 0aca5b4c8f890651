"""C29: numeric configuration: multi-threaded kernels, fast math and single precision do not change the results."""
import itertools, os, pickle, subprocess, sys, types
import numpy as np
from mc import driver, sched as sc

PID = "C29"
IMPORTS = ("cddm.sim",)
RULE = ("state = (configuration, input) of the explored kernels, (iterations that ran, image) of the interleaving exploration; transition = one call of a kernel / one access of a shared pixel; "
        "trace = one complete calculation in this configuration compared with the reference model, or one complete interleaving of the iterations of a parallel loop")
STALL_S = 860.
BLOCK = 1
ENV = {"parallel": ("CDDM_TARGET_PARALLEL", "1"), "fastmath": ("CDDM_FASTMATH", "1"), "single": ("CDDM_DOUBLE_PRECISION", "0")}
ASSUMPTIONS = ["iterations of a parallel loop communicate only through the shared image (that is what the compiled loop shares)",
               "the interleaving exploration runs the Python form of the compiled loop; the compiled one is run free of schedule control against the same reference"]


def bounds(tier):
    q = tier == "quick"
    return ("correlation, count, sum, multi-tau, statistics, averaging and drawing cases of the other checks (fixed sub-lists of their enumerations, see backend_worker.PLAN) in each of three configurations; "
            "all interleavings of up to %d overlapping particles in images up to 3x2 with at most %d preemptions" % (2 if q else 3, 2 if q else 3))


def cases(tier):
    out = [("config", c, tier) for c in sorted(ENV)]
    q = tier == "quick"
    for shape in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2)):
        for pts in (((0.5, 0.5), (0.5, 0.5)), ((0.5, 0.5), (shape[0] - .5, shape[1] - .5))):
            for sigma in (0.2, 0.5):
                out.append(("race", shape, pts, sigma, 2 if q else 3))
    if not q:
        out.append(("race", (2, 1), ((.5, .5),) * 3, .2, 2))
    return out


def config_case(case, rec):
    _, name, tier = case
    env = dict(os.environ)
    var, val = ENV[name]
    env[var] = val
    home = os.path.join(os.environ["VERIF_SCRATCH"], "home-" + name)
    cache = env["NUMBA_CACHE_DIR"] + "-" + name
    for d in (home, cache):
        os.makedirs(d, exist_ok=True)
    env["HOME"], env["NUMBA_CACHE_DIR"] = home, cache
    out = os.path.join(os.environ["VERIF_SCRATCH"], "backend-%s.pickle" % name)
    p = subprocess.Popen([sys.executable, "-m", "mc.backend_worker", name, tier, out], cwd=driver.VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    txt, _ = p.communicate()
    if p.returncode != 0 or not os.path.exists(out):
        t = txt.decode(errors="replace")[-1800:]
        if os.path.realpath(driver.REPO) + os.sep in t or "/cddm/" in t:
            rec.fail("%s:start" % name, "calculation in configuration %s=%s ended with %s: %s" % (var, val, p.returncode, t))
            return
        raise RuntimeError("worker of %s failed (%s): %s" % (name, p.returncode, t))
    res = pickle.load(open(out, "rb"))
    if not rec.check(res["configured"], "%s:configured" % name, "%s=%s has no effect" % (var, val)):
        return
    for pid, n, tr, traces, ev, states, outcomes, fails, errors in res["runs"]:
        rec.step(tr)
        rec.trace(traces)
        rec.evaluations += ev
        rec.states |= {bytes(a ^ b for a, b in zip(s, driver._digest((name, pid)))) for s in states}
        rec.outcomes |= outcomes
        for f in fails:
            rec.fail("%s:%s:%s" % (name, pid, f["key"]), "configuration %s=%s, check %s case %s: %s" % (var, val, pid, f["case"], f["msg"]))
        if errors and not fails:
            raise RuntimeError(errors[0])


class Shared:
    """image shared by the iterations; every access is a scheduling point"""

    def __init__(self, a, log=None, point=None):
        self.a, self.log, self.point = a, log, point
        self.shape, self.ndim, self.dtype, self.size = a.shape, a.ndim, a.dtype, a.size

    def __len__(self):
        return len(self.a)

    def _at(self, op, ix):
        if self.log is not None:
            for k in np.arange(self.a.size).reshape(self.a.shape)[ix].ravel() if not np.isscalar(np.arange(self.a.size).reshape(self.a.shape)[ix]) else [np.arange(self.a.size).reshape(self.a.shape)[ix]]:
                self.log.append((op, int(k)))
        if self.point:
            self.point("%s%s" % (op, ix))

    def __getitem__(self, ix):
        self._at("r", ix)
        return self.a[ix].copy() if isinstance(self.a[ix], np.ndarray) else self.a[ix]

    def __setitem__(self, ix, v):
        self._at("w", ix)
        self.a[ix] = v


def spmd(func, chunk, seen):
    """the function with its parallel loop restricted to the iterations of the chunk"""
    class NB:
        pass
    real = func.__globals__.get("nb")
    nbm = types.SimpleNamespace(**{k: getattr(real, k) for k in ("njit", "jit") if hasattr(real, k)})

    def prange(*a):
        r = list(range(*[int(x) for x in a]))
        seen.append(len(r))
        return r if chunk is None else [r[i] for i in chunk if i < len(r)]
    nbm.prange = prange
    g = dict(func.__globals__)
    g["nb"] = nbm
    g["prange"] = prange
    return types.FunctionType(func.__code__, g, func.__name__, func.__defaults__, func.__closure__)


def race_case(case, rec):
    import cddm._sim_nb as snb
    _, shape, pts, sigma, bound = case
    shape = tuple(shape)
    func = getattr(getattr(snb, "draw_psf", None), "py_func", None)
    if func is None:
        return
    n = len(pts)
    args = (np.array(pts, float), np.arange(20, 20 + 7 * n, 7).astype("uint8"), np.full(n, sigma))
    seen = []
    seq = np.zeros(shape, "uint8")
    try:
        spmd(func, None, seen)(Shared(seq), *args)
    except Exception:
        # not executable in this form; the compiled function is compared with the reference in the configuration case
        return
    want = np.zeros(shape, "uint8")
    want = snb.draw_psf(want, *args)
    rec.same(seq, want, "race:sequential", "Python form of draw_psf differs from the compiled one")
    if len(seen) != 1:
        # no (or more than one) parallel loop
        rec.state(case, "sequential")
        rec.trace()
        return
    iters = seen[0]
    logs = []
    for i in range(iters):
        log = []
        spmd(func, [i], [])(Shared(np.zeros(shape, "uint8"), log), *args)
        logs.append(log)
        rec.step(len(log))
    conflicts = [(i, j) for i, j in itertools.combinations(range(iters), 2)
                 if {k for o, k in logs[i] if o == "w"} & {k for o, k in logs[j]} or {k for o, k in logs[j] if o == "w"} & {k for o, k in logs[i]}]
    # iterations that share no pixel commute: one representative interleaving decides all the others; explored nevertheless with one preemption
    sc.SPIN, sc.MAX_STEPS = 10 ** 9, 10 ** 9
    pairs = conflicts[:4] or list(itertools.combinations(range(iters), 2))[:3]
    bad = 0
    for pair in pairs:
        rest = [i for i in range(iters) if i not in pair]

        def main(s):
            a = np.zeros(shape, "uint8")
            if rest:
                spmd(func, rest, [])(Shared(a), *args)
            th = [sc.Thread(target=spmd(func, [i], []), args=(Shared(a, None, lambda lab: s.point(label=lab)),) + args) for i in pair]
            for t in th:
                t.start()
            for t in th:
                t.join()
            return a
        for m, (s, res, exc) in enumerate(sc.explore(main, bound if conflicts else 1)):
            rec.step(s.steps)
            rec.state(case, pair, tuple(c for _, c in s.trace))
            rec.trace()
            if exc is not None:
                raise exc
            if not np.array_equal(res, want):
                bad += 1
                rec.fail("race", "iterations %s of the parallel loop of draw_psf at the same time: image %s, expected %s; particles %s sigma %s, schedule %s" % (
                    pair, res.tolist(), want.tolist(), pts, sigma, [x for x in s.log if x[1] not in ("start", "join")][:60]))
                break
        if bad:
            return
    rec.outcome(case)


def run(case, rec):
    if case[0] == "config":
        return config_case(case, rec)
    return race_case(case, rec)
