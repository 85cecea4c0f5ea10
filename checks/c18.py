import tempfile
import numpy as np
from lib import gen as G, api as A
from checks import c02, c17

LEVEL = "fault_enumeration"
RULE = ("one case = one order selection over a grid or list with chosen fit outcomes, or with real fits; distinct by unit, maxima, list, number of data, pattern of failures")
ASSUMPTIONS = ["criteria are judged where the number of data exceeds the number of parameters by two or more; with equality the criterion is infinite",
               "a fit whose objective is not finite never wins over one with a finite criterion"]


def grid(pmax, qmax):
    return [(p, q) for p in range(1, pmax + 1) for q in range(p) if q <= qmax]


def judge(ctx, m, ret, pairs, fun, n, data, key, fits=None):
    mle, pq, aicc = ret
    pq = [tuple(int(a) for a in x) for x in pq]
    ctx.check(sorted(pq) == sorted(pairs), key + ":grid", "pairs evaluated %r, requested %r" % (pq, pairs), **data)
    if sorted(pq) != sorted(pairs) or len(aicc) != len(pq):
        ctx.check(len(aicc) == len(pq), key + ":length", "%d criteria for %d pairs" % (len(aicc), len(pq)), **data)
        return
    want = []
    for x, a in zip(pq, aicc):
        k = x[0] + x[1] + 2
        f = fun[x]
        if n - k - 1 > 0:
            w = 2 * k + 2 * f + 2 * k * (k + 1.0) / (n - k - 1.0)
            ctx.ev()
            if np.isfinite(w):
                ctx.close(float(a), w, 1e-9 * (1 + abs(w)), key + ":aicc", "criterion of (%d,%d) with objective %r and %d data" % (x[0], x[1], f, n), **data)
            else:
                ctx.check(not np.isfinite(a), key + ":aiccfinite", "finite criterion %r of a fit with objective %r" % (a, f), **data)
        elif n - k - 1 == 0:
            w = np.inf
            ctx.check(not np.isfinite(a), key + ":aiccfinite", "finite criterion %r with as many data as parameters plus one" % a, **data)
        else:
            w = float(a)
        want.append(w)
    w = np.array(want, dtype=float)
    ok = np.isfinite(w)
    if not ok.any():
        ctx.count("selections without a finite criterion")
        return
    best = [x for x, v in zip(pq, w) if np.isfinite(v) and v == w[ok].min()]
    near = [x for x, v in zip(pq, w) if np.isfinite(v) and v <= w[ok].min() + 1e-9 * (1 + abs(w[ok].min()))]
    ctx.check((int(m.p), int(m.q)) in near, key + ":order", "order (%r,%r) set on the model, smallest criterion at %r" % (m.p, m.q, best), criteria=w, pairs=pq, **data)
    ctx.check(any(float(np.ravel(mle.fun)[0]) == fun[x] for x in near), key + ":fit", "the returned fit has objective %r, those of the best pair: %r" % (float(np.ravel(mle.fun)[0]), [fun[x] for x in near]), **data)
    if fits is not None:
        ctx.check(any(mle is fits[x] or np.array_equal(mle.x, fits[x].x) for x in near), key + ":fitobj", "the returned fit is not that of the best pair", **data)


def unit_grid(ctx):
    from scipy.optimize import OptimizeResult
    cm = A.cm()

    def case(i, rng):
        n = int(rng.choice([6, 7, 8, 9, 10, 12, 20, 60, 200]))
        t, y, e, kinds = c02.dataset(rng, n, 1, 0)
        if rng.random() < 0.5:
            # rounded data and errors, some values several times
            y, e = np.round(y / np.std(y)) + 1.0, np.full(n, 0.5)
        pmax = int(rng.integers(1, 8))
        qmax = None if rng.random() < 0.4 else int(rng.integers(0, pmax + 1))
        pql = None
        if rng.random() < 0.3:
            full = grid(7, 7)
            pql = [full[k] for k in rng.permutation(len(full))[:int(rng.integers(1, 9))]]
        pairs = pql if pql is not None else grid(pmax, pmax if qmax is None else qmax)
        spread = float(rng.choice([0.5, 5.0, 50.0]))
        fun = {}
        fail = float(rng.choice([0, 0, 0.2, 0.9]))
        for x in grid(7, 7):
            f = float(rng.normal() * spread + rng.choice([0, -300, 400]) * 0)
            if rng.random() < fail:
                f = float(rng.choice([np.nan, np.nan, np.inf]))
            fun[x] = f
        shift = float(rng.choice([0.0, -2000.0, 3000.0, 1e6, -1e6]))
        fun = {x: f + shift for x, f in fun.items()}
        fits = {x: OptimizeResult(x=np.arange(3 + x[0] + x[1]) + 0.01 * x[0] + 0.001 * x[1], fun=f, success=True, message="m", nit=1, nfev=1, status=0) for x, f in fun.items()}
        p0, q0 = (1, 0) if rng.random() < 0.5 else (5, 2)
        m = cm.CarmaModel(t, y, e, p=p0, q=q0)
        seen = []

        def fake(p, q, *a, **k):
            seen.append(((int(p), int(q)), a, k))
            return fits[(int(p), int(q))]
        m.get_mle = fake
        nt, nj = int(rng.integers(1, 50)), int(rng.choice([1, 2, -1]))
        data = dict(n=n, pmax=pmax, qmax=qmax, pqlist=pql, objectives=[[x, fun[x]] for x in pairs], ntrials=nt, njobs=nj)
        kw = dict(ntrials=nt, njobs=nj)
        if pql is not None:
            kw["pqlist"] = list(pql)
        if qmax is not None or rng.random() < 0.5:
            kw["qmax"] = qmax
        ret = ctx.call("choose_order", c17.quiet, m.choose_order, pmax, **kw)
        if not seen:
            ctx.skip("fits are not made through get_mle")
            return
        ctx.check(sorted(s[0] for s in seen) == sorted(pairs), "grid:evaluated", "fits were made for %r, requested %r" % ([s[0] for s in seen], pairs), **data)
        for s in seen:
            names = dict(zip(["ntrials", "njobs"], s[1]))
            names.update(s[2])
            ctx.check(names.get("ntrials", 100) == nt and names.get("njobs", 1) == nj, "grid:settings", "a fit was asked for with settings %r" % names, **data)
        judge(ctx, m, ret, pairs, fun, n, data, "grid", fits)
        if pql is not None:
            ctx.check([tuple(x) for x in ret[1]] == pql, "grid:list", "the given list is returned as %r" % (ret[1],), **data)
        ctx.distinct("grid", n, pmax, qmax, len(pairs), fail, pql is None)
        ctx.sample(dict(n=n, pairs=len(pairs), chosen=[int(m.p), int(m.q)], failures=fail))
    ctx.each(600, 12000, case)


def unit_real(ctx):
    cm = A.cm()

    def case(i, rng):
        n = int(rng.choice([10, 20]))
        t, y, e, kinds = c02.dataset(rng, n, 2, 0)
        e = np.maximum(e, 0.05 * np.std(y))
        nt = int(rng.choice([1, 2]))
        nj = [1, 2][i % 2]
        if i % 3 == 2:
            pql, pmax, qmax = [(2, 1), (1, 0)], 3, None
            pairs = pql
        else:
            pql, pmax, qmax = None, 2 + i % 2, [None, 0, 1][i % 3]
            pairs = grid(pmax, pmax if qmax is None else qmax)
        m = cm.CarmaModel(t, y, e)
        data = dict(t=t, y=y, e=e, pmax=pmax, qmax=qmax, pqlist=pql, ntrials=nt, njobs=nj)
        with tempfile.TemporaryDirectory() as d, c17.Log(d) as log:
            ret = ctx.call("choose_order", c17.quiet, m.choose_order, pmax, qmax=qmax, pqlist=pql, njobs=nj, ntrials=nt)
            calls = log.calls()
        if calls:
            per = {}
            for c in calls:
                per.setdefault(len(c["x0"]), []).append(c["fun"])
            want = {}
            for x in pairs:
                want[3 + sum(x)] = want.get(3 + sum(x), 0) + nt
            ctx.check({k: len(v) for k, v in per.items()} == want, "real:trials", "optimisations by number of parameters %r, expected %r" % ({k: len(v) for k, v in per.items()}, want), **data)
            uniq = [x for x in pairs if sum(1 for z in pairs if sum(z) == sum(x)) == 1]
            fun = {}
            for x, a in zip(ret[1], ret[2]):
                k = x[0] + x[1] + 2
                f = np.array(per.get(3 + sum(x), [np.nan]))
                if tuple(x) in uniq:
                    fun[tuple(x)] = float(np.min(f[np.isfinite(f)])) if np.isfinite(f).any() else float("nan")
                else:
                    fun[tuple(x)] = (a - 2 * k - 2 * k * (k + 1.0) / (n - k - 1.0)) / 2
                    ctx.check(not np.isfinite(fun[tuple(x)]) or np.min(np.abs(f - fun[tuple(x)])) < 1e-8 * (1 + abs(fun[tuple(x)])), "real:value", "criterion of %r matches none of the optimisations" % (x,), **data)
                    j = int(np.nanargmin(np.abs(f - fun[tuple(x)]))) if np.isfinite(fun[tuple(x)]) else 0
                    fun[tuple(x)] = float(f[j])
            judge(ctx, m, ret, pairs, fun, n, data, "real")
        o = A.run(1, 0, t, y, e, int(m.p), int(m.q), 1)
        if m.p > 1:
            o.SetMLE(True)
        x = np.asarray(ret[0].x, dtype=float)
        ctx.check(len(x) == 3 + m.p + m.q, "real:length", "the returned fit has %d parameters, the chosen order is (%d,%d)" % (len(x), m.p, m.q), **data)
        if len(x) == 3 + m.p + m.q and np.isfinite(ret[0].fun):
            f, noise = c17.density(o, x, rng)
            ctx.close(float(np.ravel(ret[0].fun)[0]), f, 1e-9 * (1 + abs(f)) + 20 * noise, "real:objective", "objective of the returned fit", theta=x, **data)
        ctx.distinct("real", pmax, qmax, pql is None, nt, nj, n)
    ctx.each(48, 240, case)


UNITS = [dict(name="grid", fn=unit_grid, shards=2), dict(name="real", fn=unit_real, shards=4, weight=6)]
