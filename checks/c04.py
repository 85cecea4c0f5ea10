import numpy as np
from lib import oracle as O, gen as G, api as A

LEVEL = "exploration"
RULE = ("one case = one random data set and process with predictions before, between, at, very near and after the observations; distinct by grid, "
        "error and root kind, orders, class and position of the predicted time; ill-conditioned cases are counted but not judged")
ASSUMPTIONS = ["reference: dense Gaussian conditioning in 80-bit arithmetic", "tolerance grows with the measured cancellation and smallest one-step variance"]


def positions(rng, t):
    T = t[-1] - t[0]
    dt = np.diff(t)
    j = int(rng.integers(0, len(t) - 1))
    return [("before", t[0] - rng.exponential(1.0) * np.median(dt)), ("farbefore", t[0] - 20 * T), ("at", t[int(rng.integers(0, len(t)))]),
            ("first", t[0]), ("last", t[-1]), ("between", t[j] + rng.uniform(0.05, 0.95) * dt[j]), ("near", t[j] + 1e-3 * dt[j]),
            ("after", t[-1] + rng.exponential(1.0) * np.median(dt)), ("farafter", t[-1] + 20 * T)]


def unit_predict(ctx):
    def case(i, rng):
        n = int(rng.choice([2, 3, 5, 12, 25, 25, 60]))
        car1 = rng.random() < 0.3
        p = 1 if car1 else int(rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8]))
        q = 0 if p == 1 else int(rng.integers(0, p))
        t, tk = G.times(rng, n)
        unit = G.unit(rng)
        t = t * unit
        s2, r, ma, var, rk = G.process(rng, p, q, t)
        e, ek = G.errors(rng, n, np.sqrt(var))
        y = G.draw(rng, t, e, s2, r, ma) if rng.random() < 0.8 else rng.normal(0, 5 * np.sqrt(var), n)
        R0 = float(O.acv(s2, r, ma, 0.0))
        k = ctx.call("filter construction", A.filt, t, y, e, s2, r, ma, car1)
        pos = positions(rng, t)
        rng.shuffle(pos)
        ys = np.abs(y).max() + np.sqrt(R0)
        if rng.random() < 0.3:
            ctx.call("Filter", A.run_filter, k)
        for name, x in pos:
            x = float(x)
            got = ctx.call("Predict", A.predict, k, [x])[0]
            data = dict(t=t, y=y, e=e, sigsqr=s2, roots=r, ma=ma, time=x, position=name, car1=car1)
            hit = np.flatnonzero(t == x)
            exact = hit.size and e[hit[0]] == 0
            ts = np.sort(np.append(t, x)) if not hit.size else t
            ee = np.insert(e, np.searchsorted(t, x), 0.0) if not hit.size else e
            rel, small = O.judge_tol(ts, ee, s2, r, ma)
            if rel * (1 / small if small else np.inf) > 1e-3 and not exact:
                ctx.count("too ill-conditioned to judge")
                continue
            if exact:
                # a noise-free observation is the process itself
                ctx.close(got, [y[hit[0]], 0.0], [1e-6 * ys, 1e-6 * R0], "predict:exact", "prediction at a noise-free observation", **data)
            else:
                m, S = O.conditional(t, y, e, s2, r, ma, [x])
                ctx.close(got[1], float(S[0, 0]), rel * R0, "predict:var", "predictive variance (%s)" % name, **data)
                ctx.close(got[0], float(m[0]), rel * ys / np.sqrt(small), "predict:mean", "predictive mean (%s)" % name, **data)
            ctx.check(got[1] <= R0 * (1 + max(1e-8, rel)), "predict:bounded", "predictive variance above the stationary variance", **data)
            rate = np.min(-r.real)
            if name.startswith("far") and rate * 20 * (t[-1] - t[0]) > 40:
                ctx.close(got, [0.0, R0], [1e-6 * ys, 1e-6 * R0], "predict:far", "prediction far from the data", **data)
            ctx.distinct(tk, ek, rk, p, q, car1, name, unit)
        ctx.sample(dict(n=n, p=p, q=q, grid=tk, errors=ek, roots=rk, stationary=R0, last=list(map(float, got))))
    ctx.each(2400, 24000, case)


def unit_long(ctx):
    """hundreds of values, predictions everywhere between them"""
    import scipy.linalg as sl

    def case(i, rng):
        n = int(rng.choice([110, 250, 600, 1200]))
        p = 1 if i % 2 else int(rng.integers(2, 5))
        q = int(rng.integers(0, p))
        t = rng.normal() + np.cumsum(rng.exponential(1.0, n) + 0.05)
        r, rk = G.roots(rng, p, np.exp(rng.uniform(-5 if p == 1 else -3, 0)))
        ma = G.ma_coefs(rng, q, 1.0)
        s2 = float(1.0 / O.acv(1.0, r, ma, 0.0))
        if O.cancellation(s2, r, ma) > 1e5:
            ctx.count("too ill-conditioned to judge")
            return
        e = rng.uniform(0.2, 1.0, n)
        y = rng.normal(size=n) + np.sin(t / 7)
        x = np.concatenate([rng.uniform(t[0] - 2, t[-1] + 2, 8), rng.choice(t, 2), [t[0] - 1, t[-1] + 1, t[-1] - 1e-3]])
        k = ctx.call("filter construction", A.filt, t, y, e, s2, r, ma, p == 1)
        got = np.array(ctx.call("Predict", A.predict, k, x))
        L = O.big_factor(t, e, s2, r, ma)
        B = sl.solve_triangular(L, np.array(O.acv(s2, r, ma, t[:, None] - x[None, :]), dtype=float), lower=True)
        data = dict(n=n, p=p, q=q, sigsqr=s2, roots=r, ma=ma, times=x)
        ctx.close(got[:, 0], B.T @ sl.solve_triangular(L, y, lower=True), 1e-6 * (np.abs(y).max() + 1), "long:mean", "predictive mean in a series of %d" % n, **data)
        ctx.close(got[:, 1], 1.0 - (B ** 2).sum(0), 1e-6, "long:var", "predictive variance in a series of %d" % n, **data)
        ctx.distinct("long", n, rk, p, q)
    ctx.each(40, 300, case)


def unit_close(ctx):
    """times next to observations, down to the spacing of the numbers, where differences of nearly equal variances appear"""
    def case(i, rng):
        n = int(rng.choice([2, 5, 12, 30]))
        car1 = i % 3 == 0
        p = 1 if car1 else int(rng.choice([1, 2, 2, 3, 4, 5]))
        q = 0 if p == 1 else int(rng.integers(0, p))
        t, tk = G.times(rng, n, rng.choice(["irregular", "regular", "mixed"]))
        unit = G.unit(rng)
        t = t * unit
        gap = np.median(np.diff(t))
        r, rk = G.roots(rng, p, np.exp(rng.uniform(-1.0, 0.7)) / gap)
        ma = G.ma_coefs(rng, q, 1 / gap)
        var = np.exp(rng.uniform(-3, 3))
        s2 = float(var / O.acv(1.0, r, ma, 0.0))
        if O.cancellation(s2, r, ma) > 1e4:
            ctx.count("too ill-conditioned to judge")
            return
        e, ek = G.errors(rng, n, np.sqrt(var), rng.choice(["zero", "zero", "somezero", "tiny", "uniform"]))
        rel, small = O.judge_tol(t, e, s2, r, ma)
        if not (rel / small if small else 1) < 1e-3:
            ctx.count("too ill-conditioned to judge")
            return
        y = G.draw(rng, t, e, s2, r, ma)
        k = ctx.call("filter construction", A.filt, t, y, e, s2, r, ma, car1)
        ys = np.abs(y).max() + np.sqrt(var)
        for _ in range(10):
            j = int(rng.integers(0, n))
            if rng.random() < 0.3 and abs(t[j]) > 1e-3 * gap:
                x = float(np.nextafter(t[j], rng.choice([-np.inf, np.inf])))
                size = "ulp"
            else:
                x = float(t[j] + rng.choice([-1, 1]) * gap * 10.0 ** rng.uniform(-14, -2))
                size = "%d" % np.log10(abs(x - t[j]) / gap + 1e-300)
            got = ctx.call("Predict", A.predict, k, [x])[0]
            data = dict(t=t, y=y, e=e, sigsqr=s2, roots=r, ma=ma, time=x, index=j, car1=car1)
            ctx.check(np.isfinite(got).all() and 0 <= got[1] <= var * (1 + 1e-6), "close:finite", "prediction %s at %g gaps from an observation" % (got, (x - t[j]) / gap), **data)
            m, S = O.conditional(t, y, e, s2, r, ma, [x])
            tol = 1e-7 if p == 1 else 1e-2
            ctx.close(got[0], float(m[0]), tol * ys, "close:mean", "predictive mean next to an observation", **data)
            ctx.close(got[1], float(S[0, 0]), (1e-7 if p == 1 else 1e-3) * var, "close:var", "predictive variance next to an observation", **data)
            ctx.distinct("close", tk, ek, p, q, car1, size, j == 0, j == n - 1)
    ctx.each(600, 6000, case)


def unit_deprecated(ctx):
    """the pure-Python filter, inside its documented limits (times after the first observation, p > 1)"""
    from carmcmc import carma_pack as CP
    if not hasattr(CP, "KalmanFilterDeprecated"):
        ctx.skip("no Python filter")
        return

    def case(i, rng):
        n = int(rng.choice([3, 8, 15]))
        p = int(rng.integers(2, 5))
        q = int(rng.integers(0, p))
        t, tk = G.times(rng, n, rng.choice(["irregular", "regular", "mixed", "seasonal"]))
        s2, r, ma, var, rk = G.process(rng, p, q, t)
        e, ek = G.errors(rng, n, np.sqrt(var), rng.choice(["uniform", "hetero", "large", "tiny", "masked"]))
        y = G.draw(rng, t, e, s2, r, ma)
        R0 = float(O.acv(s2, r, ma, 0.0))
        k = CP.KalmanFilterDeprecated(t.copy(), y.copy(), e ** 2, s2, r, ma)
        for name, x in positions(rng, t):
            if not x > t[0] or (t == x).any():
                continue
            got = ctx.call("predict", k.predict, float(x))
            rel, small = O.judge_tol(np.sort(np.append(t, x)), np.insert(e, np.searchsorted(t, x), 0.0), s2, r, ma)
            if rel / small > 1e-3 if small else True:
                ctx.count("too ill-conditioned to judge")
                continue
            m, S = O.conditional(t, y, e, s2, r, ma, [x])
            ys = np.abs(y).max() + np.sqrt(R0)
            ctx.close(got[1], float(S[0, 0]), rel * R0, "deprecated:var", "predictive variance (%s)" % name, t=t, y=y, e=e, sigsqr=s2, roots=r, ma=ma, time=x)
            ctx.close(got[0], float(m[0]), rel * ys / np.sqrt(small), "deprecated:mean", "predictive mean (%s)" % name, t=t, y=y, e=e, sigsqr=s2,
                      roots=r, ma=ma, time=x)
            ctx.distinct(tk, ek, rk, p, q, name)
    ctx.each(120, 1200, case)


UNITS = [dict(name="long", fn=unit_long, shards=1), dict(name="close", fn=unit_close, shards=2, tshards=2), dict(name="predict", fn=unit_predict, shards=6, tshards=8), dict(name="deprecated", fn=unit_deprecated, shards=1, tshards=2)]
