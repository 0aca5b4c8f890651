"""C23: random trigger times, for every answer of the random number generator; selection of triggered data."""
import itertools
import numpy as np

PID = "C23"
IMPORTS = ("cddm.sim",)
RULE = ("state = (generator, parameters, answers of the random number generator so far); transition = one random number drawn by the real code; "
        "trace = one complete time sequence for one sequence of random answers, compared with the trigger scheme")


def bounds(tier):
    q = tier == "quick"
    return ("all random answers: single camera scheme up to %s, dual camera schemes up to %s frames x period; all sets and orderings of up to %d indices, all data lengths up to 7 for the data trigger" % (
        ("5 frames x 5, minimal separation 0..period", "3 x 3 (second scheme 2 x 4, 3 x 2)", 4) if q else ("7 frames x 5 and 5 frames x 7", "4 x 3 (second scheme 3 x 3)", 5)))


def cases(tier):
    q = tier == "quick"
    out = []
    for nf in range(0, (5 if q else 7) + 1):
        for n in range(1, (5 if q else 7) + 1):
            if n ** nf > (4000 if q else 80000):
                continue
            for dm in range(0, n + 1):
                out.append(("single", nf, n, dm))
            if nf:
                out.append(("count", nf, n))
    for nf in range(0, 5):
        for n in range(1, 6):
            if (2 * n) ** nf <= (2000 if q else 20000):
                out.append(("dual1", nf, n))
            if (4 * n * n) ** nf <= (5000 if q else 50000):
                out.append(("dual2", nf, n))
    for m in range(0, (4 if q else 5) + 1):
        for ix in itertools.product(range(7), repeat=m):
            if m >= 4 and len(set(ix)) < 3:
                continue
            out.append(("trigger", ix))
    return out


class Answers:
    """stand-in of numpy.random.randint; enumerates every answer"""

    def __init__(self, prefix):
        self.prefix, self.trace = prefix, []

    def one(self, low, high):
        low, high = int(low), int(high)
        if high <= low:
            raise ValueError("low >= high")
        k = len(self.trace)
        c = self.prefix[k] if k < len(self.prefix) else 0
        self.trace.append((high - low, c))
        return low + c

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if size is None and np.ndim(low) == 0 and np.ndim(high) == 0:
            return self.one(low, high)
        shape = np.broadcast(np.empty(size if size is not None else ()), np.asarray(low), np.asarray(high)).shape
        lo, hi = np.broadcast_to(low, shape), np.broadcast_to(high, shape)
        out = np.empty(shape, dtype)
        for ix in np.ndindex(*shape):
            out[ix] = self.one(lo[ix], hi[ix])
        return out


def explore(fn):
    """results of fn for every sequence of random answers, with the number of equally probable ones it stands for"""
    prefix = []
    real = np.random.randint
    while True:
        a = Answers(prefix)
        np.random.randint = a.randint
        try:
            res = fn()
        finally:
            np.random.randint = real
        p = 1.
        for m, _ in a.trace:
            p /= m
        yield res, tuple(c for _, c in a.trace), p
        tr = a.trace
        i = len(tr) - 1
        while i >= 0 and tr[i][1] + 1 >= tr[i][0]:
            i -= 1
        if i < 0:
            return
        prefix = [c for _, c in tr[:i]] + [tr[i][1] + 1]


def increasing(t):
    return all(int(a) < int(b) for a, b in zip(t, t[1:]))


def run(case, rec):
    import cddm.sim as sim
    kind = case[0]
    if kind == "trigger":
        ix = tuple(case[1])
        for idx in (list(ix), ix, np.array(ix, int)):
            for n in range(0, 8):
                taken = []

                def data():
                    for i in range(n):
                        taken.append(i)
                        yield ("item", i)
                rec.state("trigger", ix, n)
                rec.step()
                out = list(sim.data_trigger(data(), idx))
                want = [("item", i) for i in sorted(set(ix)) if i < n]
                rec.check(out == want, "trigger", lambda: "data_trigger of %d items at %s: %s" % (n, ix, out))
                if ix and max(ix) < n:
                    rec.check(len(taken) == max(ix) + 1, "trigger:taken", lambda: "data_trigger at %s took %d items" % (ix, len(taken)))
                rec.trace()
        rec.outcome(ix)
        return
    nf, n = case[1], case[2]
    if kind == "count":
        # mean number of frame pairs over all random answers
        c = rec.call("count", sim.random_time_count, nf, n)
        if not rec.check(len(c) == nf * n + 1, "count:length", lambda: "length %d" % len(c)):
            return
        mean = np.zeros(nf * n + 1)
        total, draws = 0., 0
        for t, ch, p in explore(lambda: sim.create_random_time(nf, n)):
            draws += len(ch)
            total += p
            for i in range(nf):
                for j in range(i, nf):
                    mean[int(t[j]) - int(t[i])] += p
            rec.step(len(ch))
            rec.state(case, ch)
            rec.trace()
        if nf and not draws:
            return
        rec.check(abs(total - 1) < 1e-9, "count:probability", "answers are not complete")
        for tau in range(1, nf * n + 1):
            # an estimate below the period, exact above
            tol = 1e-9 if tau >= n else tau / n / n + 1e-9
            rec.check(abs(c[tau] - mean[tau]) <= tol, "count", lambda: "random_time_count(%d, %d)[%d] is %s, the mean number of pairs is %s" % (nf, n, tau, c[tau], mean[tau]))
        return
    seen = set()
    draws = 0
    if kind == "single":
        dm = case[3]
        gen = explore(lambda: sim.create_random_time(nf, n, dm) if dm != 1 else sim.create_random_time(nf, n))
        for t, ch, p in gen:
            draws += len(ch)
            rec.step(len(ch) or 1)
            rec.state(case, ch)
            label = lambda: "create_random_time(%d, %d, %d) = %s" % (nf, n, dm, list(t))
            ok = rec.check(len(t) == nf and all(float(x) == int(x) for x in t), "single:length", label)
            ok = ok and rec.check(increasing(t), "single:increasing", label)
            ok = ok and rec.check(all(i * n <= int(x) < (i + 1) * n for i, x in enumerate(t)), "single:period", label)
            ok = ok and rec.check(all(int(b) - int(a) >= dm for a, b in zip(t, t[1:])), "single:separation", label)
            rec.trace()
            seen.add(tuple(int(x) for x in t))
            if not ok:
                return
        if draws:
            # every sequence that obeys the scheme can occur
            want = set()

            def grow(t):
                i = len(t)
                if i == nf:
                    want.add(t)
                    return
                for r in range(n):
                    if not t or i * n + r - t[-1] >= dm:
                        grow(t + (i * n + r,))
            grow(())
            rec.check(seen == want, "single:reach", lambda: "create_random_time(%d, %d, %d): sequences that never occur %s" % (nf, n, dm, sorted(want - seen)[:3]))
    else:
        f = sim.create_random_times1 if kind == "dual1" else sim.create_random_times2
        prob = {}
        for (t1, t2), ch, p in explore(lambda: f(nf, n)):
            draws += len(ch)
            rec.step(len(ch) or 1)
            rec.state(case, ch)
            label = lambda: "%s(%d, %d) = %s, %s" % (f.__name__, nf, n, list(t1), list(t2))
            ok = rec.check(len(t1) == nf and len(t2) == nf and all(float(x) == int(x) for x in list(t1) + list(t2)), "dual:length", label)
            ok = ok and rec.check(increasing(t1) and increasing(t2), "dual:increasing", label)
            ok = ok and rec.check(all(0 <= int(x) - 2 * n * i < n for i, x in enumerate(t1)), "dual:camera1", label)
            ok = ok and rec.check(all(int(y) - 2 * n * i in (0, n) or kind == "dual2" and int(y) == int(x) for i, (x, y) in enumerate(zip(t1, t2))), "dual:camera2", label)
            rec.trace()
            key = (tuple(int(x) for x in t1), tuple(int(x) for x in t2))
            prob[key] = prob.get(key, 0.) + p
            if not ok:
                return
        if draws:
            # probability of every sequence: uniform offset, either start or half of the period, and coincidence once in 2n
            want = {}
            one = {}
            for r in range(n):
                for s in (0, n):
                    q = 1. / (2 * n)
                    if kind == "dual1":
                        one[(r, s)] = one.get((r, s), 0) + q
                    else:
                        one[(r, s)] = one.get((r, s), 0) + q * (1 - 1. / (2 * n))
                        one[(r, r)] = one.get((r, r), 0) + q / (2 * n)
            for comb in itertools.product(one, repeat=nf):
                q = 1.
                for c in comb:
                    q *= one[c]
                key = (tuple(2 * n * i + c[0] for i, c in enumerate(comb)), tuple(2 * n * i + c[1] for i, c in enumerate(comb)))
                want[key] = want.get(key, 0.) + q
            rec.check(set(prob) == set(want), "dual:reach", lambda: "%s(%d, %d): never occur %s" % (f.__name__, nf, n, sorted(set(want) - set(prob))[:3]))
            rec.check(all(abs(prob.get(k, 0) - want[k]) < 1e-9 for k in want), "dual:probability", lambda: "%s(%d, %d): probabilities of the sequences differ" % (f.__name__, nf, n))
    rec.outcome(kind, nf, n, len(seen))
