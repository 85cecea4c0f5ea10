import numpy as np
from lib import oracle as O, gen as G, api as A, vx

LEVEL = "exploration"
RULE = ("one case = one random (time grid, errors, process, series) filtered by the real class; distinct by grid kind, error kind, root kind, p, q, "
        "class and constructor; a case counts only if the reference covariance was positive definite and the tolerance stayed below 1e-3")
ASSUMPTIONS = ["reference: dense Gaussian conditioning in 80-bit arithmetic from the residue form of the autocovariance",
               "tolerance grows with the cancellation of the eigenbasis, measured per case from the roots"]


def tol_of(s2, r, ma, extra=1.0):
    """relative accuracy an eigenbasis filter in double precision can be asked for"""
    return max(1e-9, 1000 * 2.3e-16 * O.cancellation(s2, r, ma)) * extra


def compare(ctx, key, got, t, y, e, s2, r, ma):
    data = dict(t=t, y=y, e=e, sigsqr=s2, roots=r, ma=ma)
    m, v = got
    try:
        rm, rv = O.one_step(t, y, e, s2, r, ma)
    except np.linalg.LinAlgError:
        ctx.count("reference not positive definite")
        return False
    rm, rv = rm.astype(float), rv.astype(float)
    R0 = float(O.acv(s2, r, ma, 0.0))
    tol = tol_of(s2, r, ma)
    # sensitivity of the conditional moments to relative perturbations of the covariance
    kap = R0 / rv.min()
    rel = tol * max(1.0, kap)
    if rel > 1e-3:
        ctx.count("too ill-conditioned to judge")
        return False
    ys = np.abs(y).max() + np.sqrt(R0)
    ctx.close(v, rv, rel * R0 * 0.1 + 1e-10 * rv, key + ":var", "one-step variance", **data)
    ctx.close(m, rm, rel * ys * np.sqrt(max(1.0, kap)) * 0.1, key + ":mean", "one-step mean", **data)
    ctx.check(np.all(np.asarray(v) > 0), key + ":positive", "a reported variance is not positive", **data)
    return True


def unit_filter(ctx):
    def case(i, rng):
        n = int(rng.choice([2, 3, 5, 12, 25, 40]))
        car1 = rng.random() < 0.25
        p = 1 if car1 else int(rng.choice([2, 2, 3, 3, 4, 5, 6, 7, 8, 9]))
        q = 0 if car1 else int(rng.integers(0, p))
        t, tk = G.times(rng, n)
        unit = G.unit(rng)
        t = t * unit
        s2, r, ma, var, rk = G.process(rng, p, q, t)
        e, ek = G.errors(rng, n, np.sqrt(var))
        y = G.draw(rng, t, e, s2, r, ma) if rng.random() < 0.8 else rng.normal(0, 5 * np.sqrt(var), n)
        data = dict(t=t, y=y, e=e, sigsqr=s2, roots=r, ma=ma)
        mac = ma if rng.random() < 0.5 else np.concatenate([ma, np.zeros(p - len(ma))])
        k = ctx.call("filter construction", A.filt, t, y, e, s2, r, mac, car1)
        got = ctx.call("Filter", A.run_filter, k)
        if compare(ctx, "filter", got, t, y, e, s2, r, ma):
            ctx.distinct(tk, ek, rk, p, q, "1" if car1 else "p", n, unit)
            ctx.sample(dict(n=n, p=p, q=q, grid=tk, errors=ek, roots=rk, var0=float(got[1][0])))
        # again after other queries, filtering twice in a row gives the same numbers
        got2 = ctx.call("Filter", A.run_filter, k)
        ctx.check(np.array_equal(got[0], got2[0]) and np.array_equal(got[1], got2[1]), "filter:again", "second Filter() differs", **data)
        # p=1 through the general class
        if car1 and rng.random() < 0.5:
            k = ctx.call("filter construction", A.kfp, t, y, e, s2, r, [1.0])
            compare(ctx, "filterp1", ctx.call("Filter (p=1)", A.run_filter, k), t, y, e, s2, r, ma)
    ctx.each(3000, 40000, case)


def unit_arma(ctx):
    """armadillo constructors and the set-afterwards route"""
    def case(i, rng):
        n = int(rng.choice([2, 6, 20]))
        car1 = i % 4 == 0
        p = 1 if car1 else int(rng.choice([2, 3, 4, 5, 7, 8]))
        q = 0 if car1 else int(rng.integers(0, p))
        t, tk = G.times(rng, n)
        s2, r, ma, var, rk = G.process(rng, p, q, t)
        e, ek = G.errors(rng, n, np.sqrt(var))
        y = G.draw(rng, t, e, s2, r, ma)
        how = i % 2 if not car1 else (i // 4) % 2
        got = ctx.call("filter via C++ constructor", vx.kf, t, y, e, s2, -r[0].real if car1 else r, ma, how, car1)
        ctx.check(len(got[0]) == n, "arma:len", "wrong number of filtered values")
        if compare(ctx, "arma", got, t, y, e, s2, r, ma):
            ctx.distinct(tk, ek, rk, p, q, how, n)
    ctx.each(800, 8000, case)


def unit_spread(ctx):
    """roots over several decades and nearly coinciding roots: realistic for red-noise light curves"""
    def case(i, rng):
        n = int(rng.choice([5, 15, 30]))
        t, tk = G.times(rng, n)
        p = int(rng.integers(2, 6))
        q = int(rng.integers(0, p))
        dt = np.median(np.diff(t))
        if i % 2:
            mags = np.sort(np.exp(np.linspace(np.log(1e-3), np.log(1e2), p) + rng.uniform(-0.3, 0.3, p))) / dt
            r = -mags + 0j
            if p >= 2 and rng.random() < 0.5:
                r[:2] = [complex(-mags[0], mags[1]), complex(-mags[0], -mags[1])]
            if rng.random() < 0.5:
                r = r[::-1]
            rk = "decades"
        else:
            base = np.exp(rng.uniform(-1, 1)) / dt
            eps = 10 ** rng.uniform(-3, -1)
            r = -base * (1 + eps * np.arange(p)) + 0j
            if p > 3:
                r = r[:3]
                p, q = 3, min(q, 2)
            rk = "near"
        ma = G.ma_coefs(rng, q, np.exp(np.mean(np.log(np.abs(r)))))
        var = np.exp(rng.uniform(-3, 3))
        s2 = float(var / O.acv(1.0, r, ma, 0.0))
        e, ek = G.errors(rng, n, np.sqrt(var), rng.choice(["uniform", "hetero", "large"]))
        y = G.draw(rng, t, e, s2, r, ma)
        data = dict(t=t, y=y, e=e, sigsqr=s2, roots=r, ma=ma)
        got = ctx.call("Filter", A.run_filter, ctx.call("filter construction", A.kfp, t, y, e, s2, r, ma))
        if compare(ctx, "spread", got, t, y, e, s2, r, ma):
            ctx.distinct(rk, tk, ek, p, q, n)
    ctx.each(1000, 10000, case)


def unit_long(ctx):
    """long series: the recursion stays exact (innovation form against a dense solve)"""
    def case(i, rng):
        n = 300
        p = int(rng.integers(1, 5))
        q = int(rng.integers(0, p))
        t, tk = G.times(rng, n)
        s2, r, ma, var, rk = G.process(rng, p, q, t)
        e, ek = G.errors(rng, n, np.sqrt(var), rng.choice(["uniform", "hetero", "large"]))
        y = G.draw(rng, t, e, s2, r, ma)
        got = ctx.call("Filter", A.run_filter, ctx.call("filter construction", A.filt, t, y, e, s2, r, ma, p == 1))
        if compare(ctx, "long", got, t, y, e, s2, r, ma):
            ctx.distinct(tk, ek, rk, p, q)
    ctx.each(24, 240, case)


def unit_huge(ctx):
    """thousands of values: every index of the output against a dense factorisation in double precision"""
    def case(i, rng):
        n = [600, 1300, 2600, 5000][i % 4]
        p = 1 if i % 8 in (1, 3, 4, 6) else int(rng.integers(2, 5))
        q = int(rng.integers(0, p))
        t = rng.normal() + np.cumsum(rng.exponential(1.0, n) + 0.05)
        r, rk = G.roots(rng, p, np.exp(rng.uniform(-3, 0)))
        ma = G.ma_coefs(rng, q, 1.0)
        s2 = float(1.0 / O.acv(1.0, r, ma, 0.0))
        if O.cancellation(s2, r, ma) > 1e5:
            ctx.count("too ill-conditioned to judge")
            return
        e = rng.uniform(0.2, 1.0, n)
        y = rng.normal(size=n) + np.sin(t / 7)
        got = ctx.call("Filter", A.run_filter, ctx.call("filter construction", A.filt, t, y, e, s2, r, ma, p == 1))
        m, v = O.big_one_step(t, y, e, s2, r, ma)
        data = dict(n=n, p=p, q=q, sigsqr=s2, roots=r, ma=ma)
        ctx.close(got[1], v, 1e-6 * v, "huge:var", "one-step variance of a series of %d" % n, **data)
        ctx.close(got[0], m, 1e-6 * (np.abs(y).max() + 1), "huge:mean", "one-step mean of a series of %d" % n, **data)
        ctx.distinct("huge", n, rk, p, q)
    ctx.each(8, 40, case)


def unit_deprecated(ctx):
    """the pure-Python filter (p > 1)"""
    from carmcmc import carma_pack as CP
    if not hasattr(CP, "KalmanFilterDeprecated"):
        ctx.skip("no Python filter")
        return

    def case(i, rng):
        n = int(rng.choice([3, 8, 15]))
        p = int(rng.integers(2, 6))
        q = int(rng.integers(0, p))
        t, tk = G.times(rng, n, rng.choice(["irregular", "regular", "mixed", "seasonal"]))
        s2, r, ma, var, rk = G.process(rng, p, q, t)
        e, ek = G.errors(rng, n, np.sqrt(var))
        y = G.draw(rng, t, e, s2, r, ma)
        k = CP.KalmanFilterDeprecated(t.copy(), y.copy(), e ** 2, s2, r, ma)
        if compare(ctx, "deprecated", ctx.call("filter", k.filter), t, y, e, s2, r, ma):
            ctx.distinct(tk, ek, rk, p, q, n)
    ctx.each(200, 2000, case)


UNITS = [dict(name="huge", fn=unit_huge, shards=1), dict(name="filter", fn=unit_filter, shards=3, tshards=6), dict(name="arma", fn=unit_arma, shards=1, tshards=2),
         dict(name="spread", fn=unit_spread, shards=1, tshards=3), dict(name="deprecated", fn=unit_deprecated), dict(name="long", fn=unit_long, shards=2, tshards=3)]
