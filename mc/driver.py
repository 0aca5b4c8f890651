"""Exploration driver.

A check is a module ``mc/<pid>_*.py`` that defines

* ``PID``, ``TITLE``, ``LEVEL_RULE`` (what a state / transition / trace is)
* ``cases(tier)``   -> the complete, deterministic list of cases (JSON-able tuples)
* ``run(case, rec)``-> executes one case on the real code, comparing it with the reference model

The driver enumerates *every* case (no sampling), in parallel forked workers, counts what was covered,
confirms a violation by re-running its case, writes a replay file and the evidence file.
"""
import sys, os, json, time, importlib, glob, traceback, signal, hashlib, struct, io, contextlib, threading
import multiprocessing as mp

VERIF = os.environ.get("VERIF_DIR", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("REPO_DIR", "/repo")
STALL_S = 200.0     # a single case takes milliseconds; no progress for this long means it does not terminate
MAX_FAIL = 40
FAST = bool(os.environ.get("VERIF_FAILFAST"))   # development only: stop at the first violation
FAST_KNOWN = ()


class Stop(Exception):
    """A case ended early because of a recorded violation."""


def jsonable(x):
    import numpy as np
    if isinstance(x, (list, tuple)):
        return [jsonable(i) for i in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return repr(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Recorder:
    """Collects what one worker explored."""

    def __init__(self):
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.states = set()
        self.outcomes = set()
        self.fails = []
        self.perkey = {}
        self.case = None
        self.index = None

    def step(self, n=1):
        self.transitions += n

    def state(self, *key):
        """Counts one visited (canonicalised) state."""
        self.states.add(_digest(key))

    def outcome(self, *key):
        """Counts one observed result (to show that the exploration is not vacuous)."""
        self.outcomes.add(_digest(key))

    def trace(self, n=1):
        """Counts one complete execution of the real code that was compared with the reference model."""
        self.traces += n

    def fail(self, key, msg):
        # a repeated failure (e.g. a listed finding) must not crowd out another one
        n = self.perkey[key] = self.perkey.get(key, 0) + 1
        if n <= 3 and len(self.fails) < MAX_FAIL:
            self.fails.append({"index": self.index, "case": jsonable(self.case), "key": key, "msg": str(msg)[:2000]})

    def check(self, ok, key, msg=""):
        self.evaluations += 1
        if not ok:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(ok)

    def same(self, got, want, key, msg="", rtol=1e-9, atol=1e-9):
        """Compares arrays: shape, and values to rounding error (nan equals nan)."""
        import numpy as np
        self.evaluations += 1
        try:
            g = np.asarray(got); w = np.asarray(want)
            ok = g.shape == w.shape and np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        except Exception as e:      # e.g. result is not an array at all
            ok = False
            g, w = got, want
        if not ok:
            self.fail(key, "%s\n got : %s\n want: %s" % (msg() if callable(msg) else msg, _short(g), _short(w)))
        else:
            self.outcome(w.shape, w.tobytes() if w.dtype != object else repr(w))
        return ok

    def call(self, key, fn, *a, **k):
        """Calls the code under test; an unexpected exception is a violation."""
        self.transitions += 1
        try:
            return fn(*a, **k)
        except Exception as e:
            self.fail(key, "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-4)))
            raise Stop()

    def raises(self, key, exc, fn, *a, **k):
        self.transitions += 1
        try:
            fn(*a, **k)
        except exc:
            self.evaluations += 1
            return True
        except Exception as e:
            self.fail(key, "expected %s, got %s: %s" % (exc, type(e).__name__, e))
            return False
        self.fail(key, "expected %s, but the call succeeded" % (exc,))
        return False


def _short(x):
    s = repr(x)
    return s if len(s) < 700 else s[:700] + "..."


def _digest(key):
    h = hashlib.blake2b(digest_size=8)
    h.update(repr(key).encode() if not isinstance(key, bytes) else key)
    return h.digest()


def load(pid):
    c = glob.glob(os.path.join(VERIF, "mc", pid.lower() + "_*.py"))
    if len(c) != 1:
        raise SystemExit("no such check: %s" % pid)
    return importlib.import_module("mc." + os.path.basename(c[0])[:-3])


def from_repo(tb):
    """Did the exception come out of the code under test?"""
    root = os.path.realpath(REPO) + os.sep
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(root):
            return True
        tb = tb.tb_next
    return False


def run_one(mod, rec, idx, case):
    rec.index, rec.case = idx, case
    try:
        mod.run(case, rec)
    except Stop:
        pass
    except Exception as e:
        if from_repo(e.__traceback__):
            rec.fail("exception", "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6)))
        else:
            raise


def silence():
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    sys.stdout = open(os.devnull, "w")
    import warnings
    warnings.simplefilter("ignore")
    try:
        import numpy as np
        np.seterr(all="ignore")
    except Exception:
        pass


def worker(mod, cases, counter, progress, beat, wid, conn, block):
    silence()
    rec = Recorder()
    err = None
    try:
        if hasattr(mod, "worker_init"):
            mod.worker_init(wid)
        n = len(cases)
        while True:
            with counter.get_lock():
                lo = counter.value
                counter.value = lo + block
            if lo >= n:
                break
            for i in range(lo, min(lo + block, n)):
                progress[wid] = i
                beat[wid] = time.monotonic()
                run_one(mod, rec, i, cases[i])
                if FAST and any(f["key"] not in FAST_KNOWN for f in rec.fails):
                    counter.value = n
                    break
            if len(rec.fails) >= MAX_FAIL:
                break
    except BaseException as e:
        err = traceback.format_exc()
    progress[wid] = -1
    conn.send((rec.transitions, rec.traces, rec.evaluations, rec.states, rec.outcomes, rec.fails, err))
    conn.close()
    os._exit(0)


def explore(mod, cases, nproc):
    ctx = mp.get_context("fork")
    counter = ctx.Value("q", 0)
    progress = ctx.Array("q", [-1] * nproc, lock=False)
    beat = ctx.Array("d", [time.monotonic()] * nproc, lock=False)
    block = max(1, min(32, len(cases) // (nproc * 8) or 1))
    block = getattr(mod, "BLOCK", block)
    procs, conns = [], []
    for w in range(nproc):
        r, s = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(mod, cases, counter, progress, beat, w, s, block))
        p.start()
        s.close()
        procs.append(p); conns.append(r)
    total = Recorder()
    errors = []
    pending = set(range(nproc))
    import multiprocessing.connection as mpc
    while pending:
        ready = mpc.wait([conns[w] for w in pending], timeout=1.0)
        for r in ready:
            w = conns.index(r)
            try:
                tr, tc, ev, st, oc, fl, err = r.recv()
                total.transitions += tr; total.traces += tc; total.evaluations += ev
                total.states |= st; total.outcomes |= oc
                total.fails += fl
                if err:
                    errors.append(err)
            except EOFError:
                procs[w].join()
                i = progress[w]
                total.fails.append({"index": i, "case": jsonable(cases[i]) if 0 <= i < len(cases) else None, "key": "crash",
                                    "msg": "the process running this case died (exit code %s)" % procs[w].exitcode})
            pending.discard(w)
        now = time.monotonic()
        for w in list(pending):
            if progress[w] >= 0 and now - beat[w] > getattr(mod, "STALL_S", STALL_S):
                i = progress[w]
                os.kill(procs[w].pid, signal.SIGKILL)
                procs[w].join()
                total.fails.append({"index": i, "case": jsonable(cases[i]), "key": "hang",
                                    "msg": "no progress for %g s: the operation does not terminate" % STALL_S})
                pending.discard(w)
    for p in procs:
        p.join()
    return total, errors


def known_findings(pid):
    out = {}
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            line = line.strip()
            if line.startswith("finding:"):
                f = dict(x.split("=", 1) for x in line.split()[1:3])
                if f.get("property") == pid:
                    out[f["key"]] = line.split(None, 3)[3] if len(line.split(None, 3)) > 3 else ""
    except FileNotFoundError:
        pass
    return out


def main():
    pid = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    import random
    random.seed(seed)
    mod = load(pid)
    if "--replay" in sys.argv:
        rep = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        cases = list(mod.cases(rep.get("tier", tier)))
        rec = Recorder()
        i = rep["index"]
        if jsonable(cases[i]) != rep["case"]:
            raise SystemExit("replay diverged: the case list changed")
        run_one(mod, rec, i, cases[i])
        for f in rec.fails:
            print("REPLAY property=%s key=%s\n%s" % (pid, f["key"], f["msg"]))
        print("reproduced" if rec.fails else "not reproduced")
        return 1 if rec.fails else 0
    for m in getattr(mod, "IMPORTS", ("cddm.core",)):
        importlib.import_module(m)
    cases = list(mod.cases(tier))
    global FAST_KNOWN
    FAST_KNOWN = tuple(known_findings(pid))
    nproc = max(1, min(os.cpu_count() or 1, int(os.environ.get("VERIF_PROCS", "8")), len(cases)))
    t1 = time.time()
    total, errors = explore(mod, cases, nproc)
    if hasattr(mod, "finish"):
        total.index, total.case = -1, None
        mod.finish(total, tier)
    if errors:
        sys.stderr.write(errors[0])
        if not total.fails:
            return 2
    known = known_findings(pid)
    viol, kn = [], {}
    for f in sorted(total.fails, key=lambda f: (f["index"] if f["index"] is not None else -1)):
        if f["key"] in known:
            kn.setdefault(f["key"], f)
        else:
            viol.append(f)
    cov = {
        "states": len(total.states), "transitions": total.transitions,
        "traces_validated_against_impl": total.traces,
        "cases": len(cases), "comparisons": total.evaluations, "distinct_observed_outcomes": len(total.outcomes),
        "exhaustive": bool(getattr(mod, "EXHAUSTIVE", True)) and not errors,
        "rule": mod.RULE, "bounds": mod.bounds(tier) if hasattr(mod, "bounds") else getattr(mod, "BOUNDS", ""),
        "samples": [jsonable(cases[i]) for i in sorted({0, len(cases) // 3, (2 * len(cases)) // 3, len(cases) - 1}) if 0 <= i < len(cases)],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s: cases=%d states=%d transitions=%d traces=%d comparisons=%d outcomes=%d import=%.1fs explore=%.1fs" % (
        pid, tier, len(cases), cov["states"], total.transitions, total.traces, total.evaluations, len(total.outcomes), t1 - t0, time.time() - t1))
    for k, f in kn.items():
        print("KNOWN-FINDING: property=%s key=%s %s" % (pid, k, known[k]))
    if viol:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + ".json")
        v = viol[0]
        v["tier"] = tier
        v["others"] = len(viol) - 1
        v["other_keys"] = sorted({x["key"] for x in viol})[:30]
        v["how"] = "./run_check.sh %s --replay %s" % (pid, path)
        json.dump(v, open(path, "w"), indent=1)
        print("first violation (case %s): key=%s\n%s" % (json.dumps(v["case"])[:600], v["key"], v["msg"]))
        print("distinct keys: %s" % v["other_keys"])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)
