import numpy as np
from lib import gen as G, api as A, vx, stat
from checks import c02, c08

LEVEL = "exploration"
RULE = ("one case = one adaptive chain, the covariance after each update compared with the recursion applied to the covariance before it; distinct by unit, "
        "target, dimension, temperature, target rate, adaptation length")
ASSUMPTIONS = ["step size of iteration k (from 0) is min(1, d / k^gamma), gamma = 2/3 by default",
               "covariances of condition number beyond 1e10 are checked for symmetry and positive diagonal only, as the entries no longer determine the factor"]


def cond(C):
    s = np.sqrt(np.diag(C))
    return np.linalg.cond(C / np.outer(s, s))


def judge_cov(ctx, before, after, unit, alpha, target, k, maxiter, gamma, key, data):
    """one update; False if no more can be said about this chain"""
    d = len(unit)
    ctx.ev()
    if not np.all(np.isfinite(after)):
        ctx.violation(key + ":finite", "the covariance is not finite after update %d (acceptance probability %r)" % (k, alpha), **data)
        return False
    sc = np.sqrt(np.abs(np.diag(after)))
    if not (np.all(np.diag(after) > 0) and np.abs(after - after.T).max() <= 1e-12 * np.max(np.outer(sc, sc))):
        ctx.violation(key + ":spd", "the covariance is not symmetric with a positive diagonal after update %d: %r" % (k, after.tolist()), **data)
        return False
    if k >= maxiter:
        if np.abs(before - after).max() > 1e-13 * np.max(np.outer(sc, sc)):
            ctx.violation(key + ":freeze", "the covariance changed in update %d though the adaptation lasts %d updates" % (k, maxiter), before=before, after=after, **data)
            return False
        ctx.count("frozen updates")
        return True
    cn = cond(before)
    ca = cond(after)
    if not np.isfinite(cn) or max(cn, ca) > 1e10:
        ctx.count("ill-conditioned updates")
        return True
    if np.linalg.eigvalsh(after / np.outer(sc, sc))[0] <= 0:
        ctx.violation(key + ":spd", "the covariance is not positive definite after update %d" % k, **data)
        return False
    S = np.linalg.cholesky(before).T
    eta = 1.0 if k == 0 else min(1.0, d / k ** gamma)
    w = S.T @ unit / np.linalg.norm(unit)
    want = before + eta * (alpha - target) * np.outer(w, w)
    tol = 1e-9 + 1e-13 * max(cn, ca)
    err = np.abs(after - want) / np.outer(sc, sc)
    ctx.maximum("worst relative difference of the covariance / tolerance", err.max() / tol)
    if err.max() > tol:
        ctx.violation(key, "update %d gives a covariance differing from the recursion by %.3g (relative), acceptance probability %.6g, target %.3g, step size %.4g"
                      % (k, err.max(), alpha, target, eta), before=before, after=after, want=want, unit=unit, **data)
        return False
    ctx.count("adapting updates")
    if alpha > target:
        ctx.count("enlarging updates")
    if alpha == 0:
        ctx.count("updates with acceptance probability 0")
    return True


def follow(ctx, r, cov, P, kind, lo, sd, T, target, maxit, g, ks, key, data):
    """updates ks of a trace against the recursion"""
    for k in ks:
        before = cov if k == 0 else r["cov"][k - 1]
        with np.errstate(all="ignore"):
            try:
                prop = r["old"][k] + np.linalg.cholesky(before) @ r["unit"][k]
            except np.linalg.LinAlgError:
                if k == 0 or not np.all(np.isfinite(before)):
                    break
                prop = None
            # the density at the proposal, or that of a query made by the step itself
            if prop is None:
                pl = r["proplog"][k]
            else:
                pl = c08.dens(kind, P, lo, prop)[0]
                near = abs(prop[0] - lo) < 1e-9 * sd if kind in (1, 2, 4) else abs(np.abs(prop).max() - lo) < 1e-9 * sd if kind == 3 else False
                if near:
                    pl = r["proplog"][k]
            a = (pl - r["oldlog"][k]) / T
            alpha = float(np.exp(min(a, 0.0))) if not np.isnan(a) else 0.0
            if np.isposinf(pl):
                # an infinite density: either reading (certain or never) of the probability is a correction by the recursion
                alpha = float(r["ratio"][k]) if r["ratio"][k] in (0.0, 1.0) else 0.0
        if not judge_cov(ctx, before, r["cov"][k], r["unit"][k], alpha, target, k, maxit, g, key, data):
            break


def unit_long(ctx):
    """tens of thousands of updates, the recursion followed in stretches of them, and long after the end of the adaptation"""
    def case(i, rng):
        d = int(rng.choice([1, 1, 2, 4]))
        n = int([36000, 36000, 100000, 20000][[1, 1, 2, 4].index(d)]) if i % 2 == 0 else 12000
        kind = int(rng.choice([0, 0, 3, 5]))
        T = float(rng.choice([1.0, 3.0])) if kind != 5 else 1.0
        P = c08.spd(rng, d, 10 ** rng.uniform(-2, 2))
        sd = 1 / np.sqrt(np.diag(P).mean())
        lo = 2 * sd if kind == 3 else 0.0
        cov = c08.spd(rng, d, sd ** 2 * 10 ** rng.uniform(-1, 1))
        maxit = 10 ** 7 if i % 2 == 0 else int(rng.choice([0, 40, 1000, 3000]))
        target = float(rng.choice([0.25, 0.4]))
        data = dict(cov=cov, P=P, kind=kind, lo=lo, temp=T, maxiter=maxit, target=target, updates=n)
        r = ctx.call("AdaptiveMetro", vx.ram_trace, cov, P, kind, lo, T, target, maxit, n, np.zeros(d), 1, 8.0, 1.0)
        if i % 2 == 0:
            starts = np.unique(np.concatenate([[0, 990, 1995, 2500, 4990, 9990, n - 200], rng.integers(0, n - 100, 12)]))
            ks = np.unique(np.concatenate([np.arange(s, min(s + 60, n)) for s in starts]))
            follow(ctx, r, cov, P, kind, lo, sd, T, target, maxit, 2.0 / 3.0, [int(k) for k in ks], "long", data)
        else:
            C = np.concatenate([cov[None], r["cov"]])[maxit:]
            sc = np.max(np.diagonal(C[0]))
            off = np.abs(C[1:] - C[0]).reshape(len(C) - 1, -1).max(axis=1)
            ctx.ev(len(off))
            bad = np.flatnonzero(~(off <= 1e-12 * sc))
            if len(bad):
                ctx.violation("long:freeze", "the covariance changed in update %d though the adaptation lasts %d updates" % (maxit + bad[0], maxit), before=C[0], after=C[bad[0] + 1], **data)
            ctx.count("frozen updates", len(off))
        ctx.distinct("long", d, kind, T, i % 2, maxit)
    ctx.each(16, 120, case)


def unit_recursion(ctx):
    def case(i, rng):
        d = int(rng.choice([1, 2, 3, 5, 8, 12]))
        kind = int(rng.integers(0, 6))
        T = float(rng.choice([1.0, 1.0, 3.0, 100.0, 0.5]))
        P = c08.spd(rng, d, 10 ** rng.uniform(-4, 4))
        sd = 1 / np.sqrt(np.diag(P).mean())
        lo = float({1: -0.3 * sd, 2: -0.3 * sd, 3: sd * float(rng.choice([2, 1e-3])), 4: 0.5 * sd}.get(kind, 0.0))
        x0 = np.zeros(d) if kind != 1 else np.full(d, 0.1 * sd)
        if kind == 0 and rng.random() < 0.2:
            x0 = np.full(d, 50 * sd)
        cov = c08.spd(rng, d, sd ** 2 * 10 ** rng.uniform(-4, 3))
        pk = int(rng.integers(0, 2))
        target = float(rng.choice([0.25, 0.25, 0.05, 0.44, 0.8, 0.95]))
        maxit = int(rng.choice([0, 1, 7, 60, 150, 1000000]))
        n = int(rng.choice([160, 300]))
        gamma = float(rng.choice([0.0, 0.0, 0.55, 0.9]))      # 0: the default
        data = dict(cov=cov, P=P, kind=kind, lo=lo, temp=T, x0=x0, proposal=pk, maxiter=maxit, target=target, gamma=gamma)
        r = ctx.call("AdaptiveMetro", vx.ram_trace, cov, P, kind, lo, T, target, maxit, n, x0, pk, 1.0 if pk == 0 else 8.0, 1.0, gamma)
        g = gamma if gamma > 0 else 2.0 / 3.0
        ctx.check(np.all(r["ndraw"] == d), "recursion:draws", "%r kernel draws per update for dimension %d" % (set(r["ndraw"].tolist()), d), **data)
        follow(ctx, r, cov, P, kind, lo, sd, T, target, maxit, g, range(n), "recursion", data)
        ctx.check(np.allclose(r["rate"], np.cumsum((r["new"] != r["old"]).any(axis=1)) / (1.0 + np.arange(n)), rtol=1e-12, atol=0), "recursion:rate",
                  "reported acceptance rate is not the fraction of accepted proposals", **data)
        ctx.distinct(d, kind, T, target, maxit, pk, g)
        ctx.sample(dict(dim=d, target=kind, temperature=T, rate=target, adaptation=maxit, final_scale=float(np.sqrt(np.diag(r["cov"][-1]).mean()) / sd)))
    ctx.each(400, 4000, case)


def unit_update(ctx):
    """the rank-one update of a Cholesky factor itself"""
    def case(i, rng):
        d = int(rng.integers(1, 13))
        s = np.exp(rng.uniform(-8, 8, d))
        C = c08.spd(rng, d) * np.outer(s, s)
        R = np.linalg.cholesky(C).T
        u = rng.normal(size=d)
        if rng.random() < 0.2:
            u[rng.integers(d)] = 0.0
        u /= np.linalg.norm(u) or 1
        down = i % 2 == 1
        f = float(rng.uniform(0, 1.0)) if not down else float(rng.choice([rng.uniform(0, 0.95), 0.0, 0.25, 0.999]))
        v = R.T @ u * np.sqrt(f)
        out = ctx.call("CholUpdateR1", vx.cholupdate, R, v, down)
        want = C + (-1 if down else 1) * np.outer(v, v)
        sc = np.sqrt(np.diag(C))
        got = out.T @ out
        err = np.abs(got - want) / np.outer(sc, sc)
        data = dict(R=R, v=v, down=down)
        ctx.check(np.all(np.isfinite(out)) and np.abs(np.tril(out, -1)).max() == 0, "update:form", "the updated factor is not finite and upper triangular", **data)
        ctx.check(err.max() <= 1e-10 * cond(C) + 1e-11, "update", "the updated factor squares to a matrix off by %.3g (relative)" % err.max(), **data)
        ctx.distinct(d, down)
    try:
        vx.cholupdate(np.eye(2), np.array([.1, .1]), 0)
    except (AttributeError, ValueError):
        ctx.skip("no entry point for the factor update")
        return
    ctx.each(1500, 20000, case)


def unit_rate(ctx):
    """with a long adaptation the acceptance rate is the target rate"""
    def case(i, rng):
        d = int(rng.choice([1, 2, 4, 8]))
        kind = int(rng.choice([0, 0, 1, 3, 5]))
        T = float(rng.choice([1.0, 1.0, 5.0])) if kind != 5 else 1.0      # the tempered heavy tail is not a distribution
        P = c08.spd(rng, d, 10 ** rng.uniform(-2, 2))
        sd = np.sqrt(T) / np.sqrt(np.diag(P).mean())
        lo = float({1: -0.3 * sd, 3: 2 * sd}.get(kind, 0.0))
        x0 = np.zeros(d) if kind != 1 else np.full(d, 0.1 * sd)
        cov = np.eye(d) * sd ** 2 * 10 ** rng.uniform(-5, 3)
        target = float(rng.choice([0.25, 0.15, 0.44]))
        pk = int(rng.integers(0, 2))
        n, m = 30000, 20000
        data = dict(cov=cov, P=P, kind=kind, lo=lo, temp=T, target=target, proposal=pk)
        for k in range(2):
            r = ctx.call("AdaptiveMetro", vx.ram_trace, cov, P, kind, lo, T, target, n, n + m, x0, pk, 1.0 if pk == 0 else 8.0, 1.0)
            acc = (r["new"] != r["old"]).any(axis=1)
            early, late = acc[n // 2:n].mean(), acc[n:].mean()
            worst = max(abs(early - target), 0.6 * abs(late - target))
            if worst < 0.05:
                break
            ctx.substream("again")
        ctx.maximum("worst distance of the acceptance rate from its target", worst)
        ctx.check(worst < 0.05, "rate", "acceptance rate %.3f at the end of the adaptation and %.3f after it, target %.2f (two runs)" % (early, late, target), **data)
        ctx.distinct("rate", d, kind, T, target, pk)
    ctx.each(24, 200, case)


def unit_traced(ctx):
    """the covariances of real sampler runs"""
    def case(i, rng):
        p = int(rng.choice([1, 2, 3]))
        q = int(rng.integers(0, p))
        n = int(rng.choice([8, 20]))
        t, y, e, kinds = c02.dataset(rng, n, min(p, 3), 0)
        nw = 1 if p == 1 else int(rng.choice([1, 2, 4]))
        burn = int(rng.choice([0, 1, 20, 80]))
        thin = int(rng.choice([1, 3]))
        ev, S, L, T = ctx.call("sampler run", vx.traced_run, 20, burn, t, y, e, p, q, nw, False, thin)
        o = ctx.call("sampler run", A.run, 1, 0, t, y, e, p, q, 1)
        data = dict(t=t, y=y, e=e, p=p, q=q, nwalkers=nw, burnin=burn, thin=thin)
        cov, num, dead = {}, {}, set()
        seen = 0
        for x in ev:
            if x["kind"] != "metro":
                continue
            seen += 1
            c = x["chain"]
            k = num.get(c, 0)
            num[c] = k + 1
            if c in cov and c not in dead:
                before = cov[c]
                try:
                    Lc = np.linalg.cholesky(before)
                except np.linalg.LinAlgError:
                    ctx.count("covariance not factored")
                    cov[c] = x["cov"]
                    continue
                pl = o.getLogDensity(A.vd(x["old"] + Lc @ x["unit"]))
                a = (pl - x["oldlog"]) / x["temp"]
                alpha = float(np.exp(min(a, 0.0))) if not np.isnan(a) and not np.isposinf(pl) else 0.0
                if not judge_cov(ctx, before, x["cov"], x["unit"], alpha, 0.25, k, burn, 2.0 / 3.0, "traced", data):
                    dead.add(c)
            cov[c] = x["cov"]
        if not seen:
            ctx.skip("no event of the sampler was seen")
            return
        ctx.check(all(v == burn + 20 * thin for v in num.values()), "traced:count", "updates per chain: %r, expected %d" % (num, burn + 20 * thin), **data)
        ctx.distinct("traced", p, q, nw, burn, thin)
    ctx.each(80, 800, case)


UNITS = [dict(name="recursion", fn=unit_recursion, shards=3), dict(name="update", fn=unit_update, shards=1), dict(name="rate", fn=unit_rate, shards=2), dict(name="long", fn=unit_long, shards=2),
         dict(name="traced", fn=unit_traced, shards=2)]
