import json
import os
import tempfile
import numpy as np
from lib import gen as G, api as A, oracle as O
from checks import c02

LEVEL = "fault_enumeration"
RULE = ("one case = one maximum-likelihood search, its optimiser calls logged from all processes, some of them made to fail; distinct by unit, order, trials, "
        "workers, pattern of failures")
ASSUMPTIONS = ["the optimiser is observed at the name `minimize` of the module (the real optimiser runs behind it, or a stand-in that returns chosen outcomes)",
               "a trial failed numerically if its objective is not finite"]


def density(o, x, rng):
    """minus the log-density, and how far it moves when the parameters move by some units in the last place (near-multiple roots)"""
    f = -o.getLogDensity(A.vd(x))
    near = [-o.getLogDensity(A.vd(x * (1 + 1e-15 * rng.normal(size=len(x))))) for _ in range(8)]
    return f, max(abs(g - f) for g in near)


class Log:
    """wraps the optimiser; every call of every process is appended to a file"""

    def __init__(self, d, outcome=None):
        import carmcmc.carma_pack as cp
        import scipy.optimize
        self.cp, self.file, self.outcome = cp, os.path.join(d, "calls"), outcome
        self.target = cp if hasattr(cp, "minimize") else scipy.optimize
        open(self.file, "w").close()

    def __enter__(self):
        self.real = self.target.minimize
        real, log, outcome = self.real, self.file, self.outcome

        def minimize(fun, x0, args=(), **kw):
            x0 = np.array(x0, dtype=float)
            f0 = float(fun(x0.copy(), *args))
            if outcome is None:
                r = real(fun, x0.copy(), args=args, **kw)
                tag = None
            else:
                r = outcome(x0, log)
                tag = r.tag
            # the objective elsewhere between its bounds, where the prior of the sampler may not reach
            probes = []
            bd = kw.get("bounds")
            if bd is not None and not hasattr(bd, "lb"):
                g = np.random.default_rng([abs(hash(v)) % (1 << 31) for v in x0.tolist()])
                for _ in range(4):
                    x = x0 + 0.3 * g.normal(size=len(x0))
                    for j, (lo, hi) in enumerate(bd):
                        if lo is not None and hi is not None and np.isfinite(lo) and np.isfinite(hi):
                            x[j] = lo + (hi - lo) * g.random() if j != 0 else x0[0]
                    probes.append((x.tolist(), float(fun(x.copy(), *args))))
            rec = dict(pid=os.getpid(), probes=probes, x0=x0.tolist(), f0=f0, x=np.asarray(r.x, dtype=float).tolist(), fun=float(np.ravel(r.fun)[0]), tag=tag,
                       bounds=[list(b) for b in kw["bounds"]] if kw.get("bounds") is not None and not hasattr(kw["bounds"], "lb") else None)
            fd = os.open(log, os.O_WRONLY | os.O_APPEND)
            try:
                os.write(fd, (json.dumps(rec) + "\n").encode())
            finally:
                os.close(fd)
            return r
        self.target.minimize = minimize
        return self

    def __exit__(self, *a):
        self.target.minimize = self.real

    def calls(self):
        with open(self.file) as f:
            return [json.loads(l) for l in f if l.strip()]


def quiet(fn, *a, **k):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def documented(t, y, p, q):
    s = np.std(y)
    maxf = 0.9 / np.min(np.diff(t))
    minf = 1 / (t.max() - t.min())
    b = [(s / 10, 10 * s), (0.9, 1.1), (-np.inf, np.inf)]
    if p == 1:
        return b + [(np.log(minf), np.log(maxf))]
    return b + [(np.log(min(minf ** 2, 2 * minf)), np.log(max(maxf ** 2, 2 * maxf)))] * p + [(-np.inf, np.inf)] * q


def judge(ctx, res, calls, ntrials, data, key):
    ctx.check(len(calls) == ntrials, key + ":trials", "%d optimisations ran, %d were asked for" % (len(calls), ntrials), **data)
    f = np.array([c["fun"] for c in calls])
    ok = np.isfinite(f)
    got = float(np.ravel(res.fun)[0])
    if ok.any():
        ctx.check(got == f[ok].min(), key + ":best", "returned objective %r, the trials gave %r" % (got, f.tolist()), **data)
        best = [c for c in calls if c["fun"] == f[ok].min()]
        ctx.check(any(np.array_equal(np.asarray(res.x), c["x"]) for c in best), key + ":x", "the returned parameters are not those of the best trial", **data)
    starts = set(tuple(c["x0"]) for c in calls)
    ctx.check(len(starts) == len(calls), key + ":starts", "%d optimisations used only %d different starting values" % (len(calls), len(starts)),
              processes=len(set(c["pid"] for c in calls)), **data)
    ctx.count("optimisations", len(calls))
    ctx.count("failed optimisations", int((~ok).sum()))
    ctx.maximum("processes used", len(set(c["pid"] for c in calls)))


def unit_real(ctx):
    cm = A.cm()

    def case(i, rng):
        p = int(rng.choice([1, 1, 2, 2, 3]))
        q = int(rng.integers(0, p))
        n = int(rng.choice([15, 30]))
        t, y, e, kinds = c02.dataset(rng, n, min(p, 2), 0)
        e = np.maximum(e, 0.02 * np.std(y))
        nt = int(rng.choice([1, 2, 4]))
        if i % 10 == 9:
            p, q, nt = 5, int(rng.integers(0, 3)), 1
        nj = [1, 2, 1, 3, 1, -1][i % 6]
        m = cm.CarmaModel(t, y, e, p=p, q=q)
        data = dict(t=t, y=y, e=e, p=p, q=q, ntrials=nt, njobs=nj)
        with tempfile.TemporaryDirectory() as d, Log(d) as log:
            res = ctx.call("get_mle", quiet, m.get_mle, p, q, ntrials=nt, njobs=nj)
            calls = log.calls()
        judge(ctx, res, calls, nt, data, "real")
        x = np.asarray(res.x, dtype=float)
        f = float(np.ravel(res.fun)[0])
        ctx.check(len(x) == 3 + p + q, "real:length", "%d parameters for CARMA(%d,%d)" % (len(x), p, q), **data)
        if not np.isfinite(f):
            ctx.count("searches without a finite result")
            return
        for c in calls:
            b = documented(t, y, p, q)
            inside = all(lo - 1e-7 * (1 + abs(lo)) <= v <= hi + 1e-7 * (1 + abs(hi)) if np.isfinite(lo) else True for v, (lo, hi) in zip(c["x"], b))
            if np.isfinite(c["fun"]):
                ctx.check(inside, "real:bounds", "the trial ended outside its bounds", x=c["x"], bounds=b, **data)
            ctx.check(all(lo - 1e-7 * (1 + abs(lo)) <= v <= hi + 1e-7 * (1 + abs(hi)) if np.isfinite(lo) else True for v, (lo, hi) in zip(c["x0"], b)), "real:start",
                      "the trial started outside its bounds", x=c["x0"], bounds=b, **data)
            if np.isfinite(c["f0"]) and np.isfinite(c["fun"]):
                ctx.check(c["fun"] <= c["f0"] + 1e-9 * (1 + abs(c["f0"])), "real:worse", "a trial ended with objective %r, it started with %r" % (c["fun"], c["f0"]), **data)
        o = A.run(1, 0, t, y, e, p, q, 1)
        if p > 1:
            o.SetMLE(True)
        want, noise = density(o, x, rng)
        ctx.close(f, want, 1e-9 * (1 + abs(want)) + 20 * noise, "real:objective", "objective of the returned fit against minus the log-density of the model", theta=x, **data)
        for c in calls:
            for px, pf in c["probes"]:
                px = np.array(px)
                with np.errstate(all="ignore"):
                    ys, sc, mu, r, ma = O.decode(px, p, q)
                    s2 = O.sigsqr_of(ys, r, ma)
                    K = O.judge_tol(t, np.sqrt(sc) * e, s2, r, ma) if np.isfinite(s2) and s2 > 0 else (np.inf, 0)
                if not K[0] < 1e-7:
                    ctx.count("probes not judged")
                    continue
                if p == 1 and not 1 / (t.max() - t.min()) < np.exp(px[3]) < 1 / np.diff(t).min():
                    continue
                ll = float(O.loglik(t, y - mu, np.sqrt(sc) * e, s2, r, ma) + O.logprior_scale(sc))
                ctx.count("probes judged")
                ctx.close(-pf, ll, 1e-5 * (1 + abs(ll)), "real:probe", "the objective between its bounds against the dense log-density without prior bounds", theta=px, **data)
        # and against the independent density
        kind = "CAR1" if p == 1 else "CARMA" if q else "CARp"
        try:
            ys, sc, mu, r, ma = O.decode(x, p, q)
            K = O.judge_tol(t, np.sqrt(sc) * e, O.sigsqr_of(ys, r, ma), r, ma)
            if K[1]:
                ll = O.loglik(t, y - mu, np.sqrt(sc) * e, O.sigsqr_of(ys, r, ma), r, ma)
                lp = O.logprior_scale(sc)
                ctx.count("objectives compared with the dense density")
                ctx.close(-f, float(ll + lp), K[0] * (1 + abs(float(ll))) * len(t) + 1e-6, "real:dense", "objective of the returned fit against the dense log-density", theta=x, **data)
        except (ZeroDivisionError, FloatingPointError, np.linalg.LinAlgError):
            pass
        ctx.distinct("real", p, q, nt, nj)
        ctx.sample(dict(p=p, q=q, trials=nt, workers=nj, objective=f))
    ctx.each(120, 600, case)


def unit_faults(ctx):
    """outcomes of the trials chosen by the monitor: the winner must be the best that succeeded"""
    from scipy.optimize import OptimizeResult
    cm = A.cm()

    def case(i, rng):
        p = int(rng.choice([1, 2, 3]))
        q = int(rng.integers(0, p))
        t, y, e, kinds = c02.dataset(rng, 8, 1, 0)
        nt = int(rng.integers(1, 8)) if i % 15 else int(rng.choice([70, 101]))
        nj = [1, 1, 1, 2, 1, 3][i % 6]
        base = float(rng.choice([0.0, -300.0, 500.0]))
        vals = base + rng.normal(size=nt) * 10
        pat = str(rng.choice(["none", "first", "some", "allbutone", "all", "last"]))
        bad = {"none": np.zeros(nt, bool), "first": np.arange(nt) == 0, "last": np.arange(nt) == nt - 1, "some": rng.random(nt) < 0.4, "all": np.ones(nt, bool),
               "allbutone": np.arange(nt) != rng.integers(nt)}[pat]
        vals[bad] = rng.choice([np.nan, np.nan, np.inf, -np.inf], bad.sum())
        shape = int(rng.integers(0, 2))

        def outcome(x0, log):
            # the k-th call of this search, counted over all processes
            fd = os.open(log + ".n", os.O_CREAT | os.O_WRONLY | os.O_APPEND)
            os.write(fd, b"x")
            os.close(fd)
            k = os.path.getsize(log + ".n") - 1
            r = OptimizeResult(x=np.asarray(x0) + 1e-3 * k, fun=vals[k % nt] if shape == 0 else float(vals[k % nt]), success=bool(k % 2), message="outcome %d" % k,
                               nit=1, nfev=1, status=0)
            r.tag = int(k)
            return r
        m = cm.CarmaModel(t, y, e, p=p, q=q)
        data = dict(p=p, q=q, ntrials=nt, njobs=nj, outcomes=vals, pattern=pat, t=t, y=y, e=e)
        with tempfile.TemporaryDirectory() as d, Log(d, outcome) as log:
            res = ctx.call("get_mle", quiet, m.get_mle, p, q, ntrials=nt, njobs=nj)
            calls = log.calls()
        if not calls:
            ctx.skip("the optimiser is not called through a name of the module")
            return
        judge(ctx, res, calls, nt, data, "faults")
        ctx.distinct("faults", nt, nj, pat, p, q)
    ctx.each(360, 3000, case)


UNITS = [dict(name="real", fn=unit_real, shards=3, weight=4), dict(name="faults", fn=unit_faults, shards=3, weight=2)]
