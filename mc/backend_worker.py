"""Runs the cases of other checks under another numeric configuration (environment variables are set by the caller).

usage: python -m mc.backend_worker CONFIG TIER OUTFILE
"""
import importlib, pickle, sys
import numpy as np
from mc import driver, ref


# check, case selection: a step or a filter; which cases run is fixed
PLAN = {
    "parallel": (("C01", 1), ("C02", 2), ("C03", 1), ("C05", 2), ("C07", 24), ("C09", 6), ("C10", 12), ("C11", 4), ("C12", 3), ("C13", 6), ("C24", "draw")),
    "fastmath": (("C01", 1), ("C02", 2), ("C03", 1), ("C05", 2), ("C07", 24), ("C09", 6), ("C24", "draw")),
    "single": (("C01", 1), ("C02", 2), ("C04", 24), ("C06", 8), ("C07", 24), ("C09", 6)),
}


def select(pid, how, cases, tier):
    q = tier == "quick"
    if how == "draw":
        return [c for c in cases if c[0] in ("points", "psf", "video", "mirror", "walk", "simple", "form")][::3 if q else 1]
    return cases[::how if q else max(1, how // 3)]


def single():
    """data in single precision, comparison to single precision rounding error"""
    from cddm.conf import FDTYPE, CDTYPE
    g = ref.gdata

    def gdata(*a, **k):
        x = g(*a, **k)
        return np.asarray(x, CDTYPE if np.iscomplexobj(x) else FDTYPE)
    ref.gdata = gdata
    same = driver.Recorder.same

    def same32(self, got, want, key, msg="", rtol=1e-9, atol=1e-9):
        w = np.asarray(want)
        s = 1.
        if w.size and w.dtype.kind in "fc":
            m = np.abs(w)
            m = m[np.isfinite(m)]
            s = max(1., float(m.max())) if m.size else 1.
        return same(self, got, want, key, msg, 3e-4, 3e-4 * s)
    driver.Recorder.same = same32


def main():
    config, tier, out = sys.argv[1:4]
    sys.stderr = sys.stdout
    import cddm.conf as conf
    want = {"parallel": conf.NUMBA_TARGET == "parallel" and conf.NUMBA_PARALLEL, "fastmath": conf.NUMBA_FASTMATH, "single": conf.PRECISION == "single" and str(conf.FDTYPE) == "float32"}[config]
    res = {"configured": bool(want), "runs": []}
    if want:
        mods = [(driver.load(p), p, how) for p, how in PLAN[config]]
        for m, p, how in mods:
            for i in getattr(m, "IMPORTS", ("cddm.core",)):
                importlib.import_module(i)
        import numba
        numba.set_num_threads(min(4, numba.config.NUMBA_NUM_THREADS))
        if config == "single":
            single()
        nproc = 3 if tier == "quick" else 4
        for m, p, how in mods:
            cases = select(p, how, list(m.cases("quick")), tier)
            total, errors = driver.explore(m, cases, nproc)
            known = driver.known_findings(p)
            fails = [dict(f, case=driver.jsonable(f["case"])) for f in total.fails if f["key"] not in known]
            res["runs"].append((p, len(cases), total.transitions, total.traces, total.evaluations, total.states, total.outcomes, fails[:20], errors[:1]))
    with open(out, "wb") as fh:
        pickle.dump(res, fh)


if __name__ == "__main__":
    main()
