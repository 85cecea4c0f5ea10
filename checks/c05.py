import numpy as np
import scipy.stats as st
from lib import oracle as O, gen as G, api as A

LEVEL = "exploration"
RULE = ("one case = one data set, process and set of requested times (unsorted, some repeated or equal to observations), simulated N times; the N draws "
        "are whitened with the exact joint conditional covariance and their first and second moments and distribution tested; distinct by grid, "
        "error and root kind, orders and request pattern")
ASSUMPTIONS = ["reference: dense Gaussian conditioning in 80-bit arithmetic", "moment tests alarm at 6.5 sigma and only if an independent, larger set of draws alarms too"]


def moments(W):
    """largest |z| over means, variances and cross-products of whitened draws"""
    n, m = W.shape
    z = [np.abs(W.mean(0)).max() * np.sqrt(n)]
    C = W.T @ W / n
    z.append(np.abs(np.diag(C) - 1).max() * np.sqrt(n / 2.0))
    if m > 1:
        z.append(np.abs(C - np.diag(np.diag(C))).max() * np.sqrt(n))
    return float(np.max(z)), float(st.kstest(W.ravel(), "norm").pvalue)


def test_draws(ctx, key, sim, mean, S, n, data):
    L = np.array(O.chol(S), dtype=float)
    mean = np.array(mean, dtype=float)

    def whiten(k):
        X = np.array([sim() for _ in range(k)])
        return np.linalg.solve(L, (X - mean).T).T
    W = whiten(n)
    ctx.ev(n)
    z, pv = moments(W) if np.isfinite(W).all() else (np.inf, 0.0)
    ctx.maximum("largest z", z)
    if z > 6.5 or pv < 1e-10:
        ctx.substream("confirm")
        W2 = whiten(4 * n)
        z2, pv2 = moments(W2) if np.isfinite(W2).all() else (np.inf, 0.0)
        if z2 > 6.5 or pv2 < 1e-10:
            ctx.violation(key, "simulated values do not follow the joint conditional distribution (z=%.1f, KS p=%.2g)" % (z2, pv2), **data)


def unit_joint(ctx):
    def case(i, rng):
        n = int(rng.choice([2, 4, 10, 20]))
        car1 = rng.random() < 0.3
        p = 1 if car1 else int(rng.choice([2, 2, 3, 4, 7]))
        q = 0 if car1 else int(rng.integers(0, p))
        t, tk = G.times(rng, n)
        unit = G.unit(rng)
        t = t * unit
        s2, r, ma, var, rk = G.process(rng, p, q, t)
        e, ek = G.errors(rng, n, np.sqrt(var))
        y = G.draw(rng, t, e, s2, r, ma)
        R0 = float(O.acv(s2, r, ma, 0.0))
        m = int(rng.integers(1, 6))
        T, dt = t[-1] - t[0], np.median(np.diff(t))
        ts = np.concatenate([rng.uniform(t[0] - 2 * dt, t[-1] + 2 * dt, m), t[0] - rng.exponential(dt, 1), t[-1] + rng.exponential(dt, 1)])
        rng.shuffle(ts)
        ts = ts[:m]
        noisy = np.flatnonzero(e > 0)
        pattern = "plain"
        if noisy.size and rng.random() < 0.3:
            ts[0] = t[noisy[0]]
            pattern = "at"
        rel, small = O.judge_tol(np.sort(np.append(t, ts)), np.append(e, np.zeros(m))[np.argsort(np.append(t, ts), kind="stable")], s2, r, ma)
        if len(set(ts)) < m or not (rel / small if small else 1) < 1e-3:
            ctx.count("too ill-conditioned to judge")
            return
        mean, S = O.conditional(t, y, e, s2, r, ma, ts)
        try:
            O.chol(S)
        except np.linalg.LinAlgError:
            return
        data = dict(t=t, y=y, e=e, sigsqr=s2, roots=r, ma=ma, times=ts)
        k = ctx.call("filter construction", A.filt, t, y, e, s2, r, ma, car1)
        f0 = ctx.call("Filter", A.run_filter, k)
        probe = [t[0] - dt, t[0] + 0.37 * T, t[-1] + dt]
        p0 = ctx.call("Predict", A.predict, k, probe)
        test_draws(ctx, "joint", lambda: ctx.call("Simulate", A.simulate, k, ts), mean, S, 300 if not ctx.thorough else 1500, data)
        p1 = ctx.call("Predict", A.predict, k, probe)
        f1 = ctx.call("Filter", A.run_filter, k)
        ctx.check(np.array_equal(p0, p1, equal_nan=True) and np.array_equal(f0[0], f1[0]) and np.array_equal(f0[1], f1[1]), "restore",
                  "simulating changed later filter output or predictions", **data)
        ctx.distinct(tk, ek, rk, p, q, car1, pattern, m, unit, tuple(np.argsort(ts)))
        ctx.sample(dict(n=n, p=p, q=q, times=ts.tolist(), cond_mean=np.array(mean, dtype=float).tolist()))
    ctx.each(220, 2000, case)


def unit_many(ctx):
    """many times in one request: as many as or more than there are observations"""
    def case(i, rng):
        n = int(rng.choice([2, 6, 20]))
        car1 = i % 2 == 0
        p = 1 if car1 else int(rng.choice([2, 2, 3]))
        q = 0 if car1 else int(rng.integers(0, p))
        m = int(rng.choice([18, 30, 60, 130]))
        t, tk = G.times(rng, n, rng.choice(["irregular", "regular", "mixed", "offset"]))
        T = t[-1] - t[0]
        # requested times spread out enough for the joint covariance to be well-conditioned, some in dense groups
        g = rng.uniform(0.5, 2.0, m)
        ts = t[0] - 0.3 * T + np.cumsum(g) * 1.6 * T / g.sum()
        gap = np.median(np.diff(np.sort(np.append(t, ts))))
        r, rk = G.roots(rng, p, np.exp(rng.uniform(-1.5, 0.5)) / gap)
        ma = G.ma_coefs(rng, q, 1 / gap)
        var = np.exp(rng.uniform(-3, 3))
        s2 = float(var / O.acv(1.0, r, ma, 0.0))
        e, ek = G.errors(rng, n, np.sqrt(var), rng.choice(["uniform", "hetero", "large", "masked"]))
        y = G.draw(rng, t, e, s2, r, ma)
        if i % 3:
            rng.shuffle(ts)
        if len(set(np.append(t, ts))) < n + m:
            return
        o = np.argsort(np.append(t, ts))
        rel, small = O.judge_tol(np.append(t, ts)[o], np.append(e, np.zeros(m))[o], s2, r, ma)
        if not (rel / small if small else 1) < 1e-3:
            ctx.count("too ill-conditioned to judge")
            return
        mean, S = O.conditional(t, y, e, s2, r, ma, ts)
        try:
            O.chol(S)
        except np.linalg.LinAlgError:
            return
        k = ctx.call("filter construction", A.filt, t, y, e, s2, r, ma, car1)
        test_draws(ctx, "many", lambda: ctx.call("Simulate", A.simulate, k, ts), mean, S, 200 if not ctx.thorough else 600,
                   dict(t=t, y=y, e=e, sigsqr=s2, roots=r, ma=ma, times=ts))
        ctx.distinct("many", tk, ek, rk, p, q, n, m, bool(i % 3))
    ctx.each(36, 300, case)


def unit_dense(ctx):
    """times so dense that neighbours determine each other: finite values, steps of the right size, and the right joint distribution at a few of the times"""
    def case(i, rng):
        n = int(rng.choice([2, 6, 12]))
        car1 = i % 4 == 0
        p = 1 if car1 else int(rng.choice([2, 3, 3, 4, 5, 6]))
        q = 0 if car1 else int(rng.integers(0, p))
        m = int(rng.choice([20, 40, 60]))
        t, tk = G.times(rng, n, rng.choice(["irregular", "regular", "mixed"]))
        unit = G.unit(rng)
        t = t * unit
        gap = np.median(np.diff(t))
        rate = np.exp(rng.uniform(-1.0, 0.7)) / gap
        r, rk = G.roots(rng, p, rate)
        ma = G.ma_coefs(rng, q, rate)
        var = np.exp(rng.uniform(-3, 3))
        s2 = float(var / O.acv(1.0, r, ma, 0.0))
        if O.cancellation(s2, r, ma) > 1e4:
            ctx.count("too ill-conditioned to judge")
            return
        e, ek = G.errors(rng, n, np.sqrt(var), rng.choice(["uniform", "hetero", "large", "somezero", "masked"]))
        rel, small = O.judge_tol(t, e, s2, r, ma)
        if not (rel / small if small else 1) < 1e-3:
            ctx.count("too ill-conditioned to judge")
            return
        y = G.draw(rng, t, e, s2, r, ma)
        step = 10.0 ** rng.uniform(-6, -0.5) / rate
        ts = rng.uniform(t[0] - gap, t[-1]) + np.cumsum(rng.uniform(0.5, 1.5, m)) * step
        if i % 2:
            rng.shuffle(ts)
        o = np.argsort(ts)
        data = dict(t=t, y=y, e=e, sigsqr=s2, roots=r, ma=ma, times=ts)
        k = ctx.call("filter construction", A.filt, t, y, e, s2, r, ma, car1)
        few = o[np.unique(np.linspace(0, m - 1, int(rng.integers(2, 4))).astype(int))]
        pairs = [(o[a], o[a + 1]) for a in rng.choice(m - 1, 6, replace=False)]
        ref = []
        for a, b in pairs:
            mean, S = O.conditional(t, y, e, s2, r, ma, ts[[a, b]])
            ref.append((float(mean[1] - mean[0]), float(np.sqrt(max(S[0, 0] + S[1, 1] - 2 * S[0, 1], 0)))))
        for _ in range(3):
            x = ctx.call("Simulate", A.simulate, k, ts)
            if not ctx.check(np.isfinite(x).all(), "dense:finite", "non-finite simulated values for times %.2g of the time scale apart" % (step * rate), **data):
                break
            for (a, b), (mu, sd) in zip(pairs, ref):
                d = x[b] - x[a] - mu
                ctx.check(abs(d) <= 8 * sd + 2e-3 * np.sqrt(var), "dense:step",
                          "values at times %.2g of the time scale apart differ by %.3g, expected %.3g with deviation %.3g" % (step * rate, x[b] - x[a], mu, sd), **data)
        else:
            if i % 3 == 0:
                mean, S = O.conditional(t, y, e, s2, r, ma, ts[few])
                w = np.linalg.eigvalsh(np.array(S, dtype=float))
                if w[0] > 1e-4 * w[-1] and w[0] > 1e-4 * var:
                    test_draws(ctx, "dense:joint", lambda: ctx.call("Simulate", A.simulate, k, ts)[few], mean, S, 60, data)
                    ctx.count("joint distributions amid dense times")
        ctx.distinct("dense", tk, ek, p, q, car1, int(np.log10(step * rate)), bool(i % 2))
    ctx.each(300, 3000, case)


def unit_special(ctx):
    """repeated requested times, noise-free observed times, empty and single requests"""
    def case(i, rng):
        n = int(rng.choice([3, 8]))
        car1 = i % 3 == 0
        p = 1 if car1 else int(rng.integers(2, 4))
        q = 0 if car1 else int(rng.integers(0, p))
        t, tk = G.times(rng, n, rng.choice(["irregular", "regular", "mixed", "offset"]))
        s2, r, ma, var, rk = G.process(rng, p, q, t)
        e, ek = G.errors(rng, n, np.sqrt(var), rng.choice(["zero", "somezero", "uniform"]))
        y = G.draw(rng, t, e, s2, r, ma)
        data = dict(t=t, y=y, e=e, sigsqr=s2, roots=r, ma=ma)
        k = ctx.call("filter construction", A.filt, t, y, e, s2, r, ma, car1)
        out = ctx.call("Simulate", A.simulate, k, [])
        ctx.check(out.shape == (0,), "special:empty", "an empty request returned %s values" % (out.shape,), **data)
        dt = np.median(np.diff(t))
        a, b = t[0] + 0.4 * (t[1] - t[0]), t[-1] + 0.5 * dt
        ts = np.array([b, a, b, t[1], a, t[-1], t[1], t[0] - dt])
        out = ctx.call("Simulate", A.simulate, k, ts)
        data["times"], data["values"] = ts, out
        ctx.check(out.shape == ts.shape, "special:shape", "%d values for %d times" % (out.size, ts.size), **data)
        ctx.check(np.isfinite(out).all(), "special:finite", "non-finite simulated value", **data)
        sc = np.sqrt(var) + np.abs(y).max()
        for u in (a, b, t[1]):
            v = out[ts == u]
            ctx.check(np.ptp(v) <= 1e-6 * sc, "special:repeat", "a time requested twice got different values", **data)
        for j in (1, n - 1):
            if e[j] == 0:
                ctx.check(np.all(np.abs(out[ts == t[j]] - y[j]) <= 1e-6 * sc), "special:exact", "value at a noise-free observation differs from it", **data)
        f1 = ctx.call("Filter", A.run_filter, k)
        ctx.check(len(f1[0]) == n, "special:restore", "simulating changed the number of data points", **data)
        ctx.distinct(tk, ek, rk, p, q, car1, n)
    ctx.each(150, 1500, case)


def unit_deprecated(ctx):
    from carmcmc import carma_pack as CP
    if not hasattr(CP, "KalmanFilterDeprecated"):
        ctx.skip("no Python filter")
        return

    def case(i, rng):
        n = 6
        p = int(rng.integers(2, 4))
        q = int(rng.integers(0, p))
        t, tk = G.times(rng, n, rng.choice(["irregular", "regular", "mixed"]))
        s2, r, ma, var, rk = G.process(rng, p, q, t)
        e, ek = G.errors(rng, n, np.sqrt(var), "uniform")
        y = G.draw(rng, t, e, s2, r, ma)
        ts = np.append(rng.uniform(t[0], t[-1], 2), t[-1] + np.median(np.diff(t)))
        rng.shuffle(ts)
        rel, small = O.judge_tol(np.sort(np.append(t, ts)), np.append(e, np.zeros(3))[np.argsort(np.append(t, ts))], s2, r, ma)
        if not (rel / small if small else 1) < 1e-3:
            return
        mean, S = O.conditional(t, y, e, s2, r, ma, ts)
        k = CP.KalmanFilterDeprecated(t.copy(), y.copy(), e ** 2, s2, r, ma)
        f0 = [x.copy() for x in ctx.call("filter", k.filter)]
        data = dict(t=t, y=y, e=e, sigsqr=s2, roots=r, ma=ma, times=ts)
        test_draws(ctx, "deprecated", lambda: ctx.call("simulate", k.simulate, ts.copy()), mean, S, 120, data)
        f1 = ctx.call("filter", k.filter)
        ctx.check(np.array_equal(f0[0], f1[0]) and np.array_equal(f0[1], f1[1]), "deprecated:restore", "simulating changed the filter", **data)
        ctx.distinct(tk, rk, p, q, tuple(np.argsort(ts)))
    ctx.each(12, 80, case)


UNITS = [dict(name="dense", fn=unit_dense, shards=2, tshards=3), dict(name="many", fn=unit_many, shards=2, tshards=3), dict(name="joint", fn=unit_joint, shards=5, tshards=8), dict(name="special", fn=unit_special, shards=1), dict(name="deprecated", fn=unit_deprecated, shards=2)]
