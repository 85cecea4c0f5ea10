import numpy as np
from lib import gen as G, api as A, vx, stat
from checks import c02

LEVEL = "exploration"
RULE = ("one case = one chain on a synthetic or real target, every update judged against a recomputed acceptance probability; distinct by unit, kernel, target, "
        "dimension, temperature")
ASSUMPTIONS = ["acceptance frequencies are compared with their probabilities by sums over many updates (alarm where a Chernoff bound is below 1e-14)",
               "distribution tests alarm only when three independent samples fail at 1e-7"]


def spd(rng, d, scale=1.0):
    M = rng.normal(size=(d, d))
    return scale * (M @ M.T / d + 0.3 * np.eye(d))


def dens(kind, P, lo, X):
    X = np.atleast_2d(X)
    g = -0.5 * np.einsum("ij,jk,ik->i", X, P, X)
    if kind == 1:
        return np.where(X[:, 0] > lo, g, -np.inf)
    if kind == 2:
        return np.where(X[:, 0] < lo, np.nan, g)
    if kind == 3:
        return np.where(np.abs(X).max(axis=1) <= lo, 0.0, -np.inf)
    if kind == 4:
        return np.where(X[:, 0] > lo, np.inf, g)
    if kind == 5:
        return -0.5 * (X.shape[1] + 5.0) * np.log(1 - 2 * g / 5.0)
    return g


def judge_moves(ctx, B, r, prop, plog, alpha, key, group, data, scale):
    """r: trace with old, oldlog, new, newlog; prop/plog/alpha expected"""
    d = r["old"].shape[1]
    tol = 1e-9 * (np.abs(r["old"]).max(axis=1) + np.abs(prop).max(axis=1)) + 1e-300
    stay = (r["new"] == r["old"]).all(axis=1)
    at = (np.abs(r["new"] - prop).max(axis=1) <= tol)
    moved = ~stay
    ctx.ev(len(stay))
    bad = moved & ~at
    if bad.any():
        i = int(np.flatnonzero(bad)[0])
        ctx.violation(key + ":value", "after update %d the value %r is neither the old %r nor the proposed %r" % (i, r["new"][i].tolist(), r["old"][i].tolist(), prop[i].tolist()), **data)
        return
    nf = ~np.isfinite(plog)
    if (nf & moved).any():
        i = int(np.flatnonzero(nf & moved)[0])
        ctx.violation(key + ":nonfinite", "a proposal with log-density %r was accepted (update %d)" % (plog[i], i), **data)
    lt = 1e-8 * (1 + np.abs(plog))
    with np.errstate(invalid="ignore"):
        badl = moved & ~(np.abs(r["newlog"] - plog) <= lt)
        same = stay & ~((r["newlog"] == r["oldlog"]) | (np.abs(r["newlog"] - r["oldlog"]) <= 1e-12 * np.abs(r["oldlog"])))
    if badl.any():
        i = int(np.flatnonzero(badl)[0])
        ctx.violation(key + ":density", "stored log-density %r after acceptance, that of the proposal is %r" % (r["newlog"][i], plog[i]), **data)
    if same.any():
        i = int(np.flatnonzero(same)[0])
        ctx.violation(key + ":kept", "stored log-density changed from %r to %r although the value was kept" % (r["oldlog"][i], r["newlog"][i]), **data)
    # continuity of the chain
    distinct = np.abs(prop - r["old"]).max(axis=1) > 0
    ok = np.isfinite(plog) & np.isfinite(r["oldlog"]) & distinct
    # probabilities within rounding of one
    a = np.where(alpha > 1 - 1e-9, np.where(alpha >= 1, 1.0, np.nan), alpha)
    with np.errstate(invalid="ignore"):
        near = np.isfinite(a)
    ok &= near
    B.add(a[ok], moved[ok], group, **data)
    ctx.count("updates judged", int(ok.sum()))
    ctx.count("proposals accepted", int(moved.sum()))


def unit_ram(ctx):
    B = stat.Bernoulli(ctx, "ram", "acceptance by the adaptive step")

    def case(i, rng):
        d = int(rng.choice([1, 2, 3, 5, 8]))
        kind = int(rng.integers(0, 6))
        T = float(rng.choice([1.0, 1.0, 2.0, 10.0, 100.0, 0.5, 1e4]))
        P = spd(rng, d, 10 ** rng.uniform(-2, 2))
        sd = 1 / np.sqrt(np.diag(P).mean())
        lo = float({1: -0.3 * sd, 2: -0.3 * sd, 3: 2 * sd, 4: 1.0 * sd}.get(kind, 0.0))
        x0 = np.zeros(d) if kind != 1 else np.full(d, 0.1 * sd)
        cov = spd(rng, d, sd ** 2 * 10 ** rng.uniform(-1, 0.5) * T)
        n = 400
        pk = int(rng.integers(0, 2))
        maxit = int(rng.choice([0, 100, 1000]))
        data = dict(cov=cov, P=P, kind=kind, lo=lo, temp=T, x0=x0, proposal=pk, maxiter=maxit)
        r = ctx.call("AdaptiveMetro", vx.ram_trace, cov, P, kind, lo, T, 0.25, maxit, n, x0, pk, 1.0 if pk == 0 else 8.0, 1.0)
        prev = np.concatenate([cov[None], r["cov"][:-1]])
        ctx.check(np.all(r["ndraw"] == d), "ram:draws", "%r kernel draws per update for dimension %d" % (set(r["ndraw"].tolist()), d), **data)
        try:
            S = np.array([np.linalg.cholesky(C).T for C in prev])
        except np.linalg.LinAlgError:
            ctx.count("covariance not factored")
            return
        prop = r["old"] + np.einsum("nji,nj->ni", S, r["unit"])
        plog = dens(kind, P, lo, prop)
        ctx.check(np.array_equal(r["old"][1:], r["new"][:-1]) and np.array_equal(r["oldlog"][1:], r["newlog"][:-1]), "ram:chain", "state changed between updates", **data)
        with np.errstate(all="ignore"):
            alpha = np.exp(np.minimum((plog - r["oldlog"]) / T, 0.0))
        # points within rounding of the edge of the support are not judged
        if kind in (1, 2, 4):
            edge = np.abs(prop[:, 0] - lo) < 1e-9 * sd
        elif kind == 3:
            edge = np.abs(np.abs(prop).max(axis=1) - lo) < 1e-9 * sd
        else:
            edge = np.zeros(n, dtype=bool)
        keep = ~edge
        judge_moves(ctx, B, {k: r[k][keep] for k in ("old", "oldlog", "new", "newlog")}, prop[keep], plog[keep], alpha[keep], "ram", ("T", T), data, sd)
        ctx.distinct(d, kind, T, pk, maxit)
        ctx.sample(dict(dim=d, target=kind, temperature=T, mean_probability=float(np.nanmean(alpha)), accepted=float((r["new"] != r["old"]).any(axis=1).mean())))
    ctx.each(500, 5000, case)
    B.judge()


def unit_scalar(ctx):
    import scipy.stats as st
    B = stat.Bernoulli(ctx, "scalar", "acceptance by the scalar Metropolis step")

    def case(i, rng):
        pk = i % 3
        kind = 1 if pk == 2 or rng.random() < 0.4 else 0
        a = float(10 ** rng.uniform(-0.5, 0.8)) * (10 ** rng.uniform(-4, 4) if kind == 0 else 1)
        T = float(rng.choice([1.0, 1.0, 2.0, 10.0, 0.5, 100.0, 1e4, 1.03]))
        sc = a if kind == 0 else max(a, 1.0)
        pa = float(rng.uniform(0.3, 3)) if pk == 2 else float(sc * rng.uniform(0.3, 3)) if pk == 0 else 8.0
        pb = float(sc * rng.uniform(0.3, 3))
        x0 = float(sc * rng.uniform(0.3, 1.5))
        n = 600
        r = ctx.call("MetropStep", vx.metrop_scalar, kind, a, T, pk, pa, pb, x0, n)
        data = dict(target=kind, a=a, temp=T, kernel=pk, pa=pa, pb=pb, x0=x0)
        one = (r["nquery"] >= 1)
        ctx.check(one.all(), "scalar:query", "the target was not evaluated in an update", **data)
        prop, old = r["prop"], r["old"]
        with np.errstate(all="ignore"):
            plog = -0.5 * prop ** 2 / a ** 2 if kind == 0 else np.where(prop > 0, (a - 1) * np.log(prop) - prop, -np.inf)
            la = (plog - r["oldlog"]) / T
            if pk == 2:
                la = la + np.log(prop) - np.log(old)
            alpha = np.exp(np.minimum(la, 0.0))
        col = {k: r[k][:, None] if k in ("old", "new") else r[k] for k in ("old", "oldlog", "new", "newlog")}
        judge_moves(ctx, B, col, prop[:, None], plog, alpha, "scalar", ("kernel", pk, "T", T), data, sc)
        # the kernel
        if pk == 0:
            z, cdf = (prop - old) / pa, st.norm.cdf
        elif pk == 1:
            z, cdf = (prop - old) / pb, st.t(pa).cdf
        else:
            z, cdf = np.log(prop / old) / pa, st.norm.cdf
        first = [z]

        def again():
            if first:
                return first.pop()
            q = vx.metrop_scalar(kind, a, T, pk, pa, pb, x0, n)
            return (q["prop"] - q["old"]) / (pa if pk == 0 else pb) if pk < 2 else np.log(q["prop"] / q["old"]) / pa
        stat.ks(ctx, again, cdf, "scalar:kernel", "proposals around the current value", limit=1e-6, **data)
        ctx.distinct("scalar", pk, kind, T, int(np.log10(sc)))
    ctx.each(400, 4000, case)
    B.judge()


def unit_vector(ctx):
    import scipy.stats as st
    B = stat.Bernoulli(ctx, "vector", "acceptance by the vector Metropolis step")

    def case(i, rng):
        d = int(rng.choice([1, 2, 3, 6]))
        kind = int(rng.choice([0, 0, 1, 2, 3, 4, 5]))
        T = float(rng.choice([1.0, 1.0, 2.0, 10.0, 100.0, 1e4, 0.5, 1.03]))
        size = 10.0 ** (0 if rng.random() < 0.6 else rng.uniform(-13, 6))
        P = spd(rng, d, 1 / size ** 2)
        sd = 1 / np.sqrt(np.diag(P).mean())
        lo = float({1: -0.3 * sd, 2: -0.3 * sd, 3: 2 * sd, 4: 1.0 * sd}.get(kind, 0.0))
        pk = i % 2
        cov = spd(rng, d, sd ** 2 * 10 ** rng.uniform(-1, 0.7))
        a = float(rng.choice([2.0, 1.3, 5.0]))
        nw = int(rng.integers(2, 3 + 2 * d)) if pk else 1
        W = 0.5 * sd * rng.normal(size=(nw, d))
        if kind in (1, 2):
            W[:, 0] = np.abs(W[:, 0])
        if kind == 4:
            W[:, 0] = -np.abs(W[:, 0])
        if kind == 3:
            W = np.clip(W, -1.5 * sd, 1.5 * sd)
        n = 500
        mv = bool(pk and rng.random() < 0.5)
        data = dict(P=P, kind=kind, lo=lo, temp=T, kernel="stretch" if pk else "normal", cov=cov, a=a, walkers=W, moveall=mv)
        r = ctx.call("MetropStep", vx.metrop_vec, P, kind, lo, T, pk, cov, a, W, n, mv)
        prop, old = r["prop"], r["old"]
        plog = dens(kind, P, lo, prop)
        la = (plog - r["oldlog"]) / T
        if pk == 0:
            Z = np.linalg.solve(np.linalg.cholesky(cov), (prop - old).T).T
            first = [Z.ravel()]

            def again():
                if first:
                    return first.pop()
                q = vx.metrop_vec(P, kind, lo, T, pk, cov, a, W, n, mv)
                return np.linalg.solve(np.linalg.cholesky(cov), (q["prop"] - q["old"]).T).T.ravel()
            stat.ks(ctx, again, st.norm.cdf, "vector:kernel", "whitened proposals around the current value", limit=1e-6, **data)
            if d > 1:
                C = Z.T @ Z / n - np.eye(d)
                ctx.check(np.abs(C).max() * np.sqrt(n) < 12, "vector:kernelcov", "covariance of the proposals is not the given one (%.2f)" % np.abs(C).max(), **data)
        else:
            # every proposal is on the line through the current value and another walker
            cur = W.copy()
            zs = np.full(n, np.nan)
            for k in range(n):
                w = k % nw if mv else 0
                best = None
                for j in range(nw):
                    if j == w:
                        continue
                    u = old[k] - cur[j]
                    den = u @ u
                    if den == 0:
                        continue
                    z = (prop[k] - cur[j]) @ u / den
                    e = np.abs(prop[k] - cur[j] - z * u).max()
                    if d > 1 or nw == 2:
                        if e <= 1e-9 * (np.abs(prop[k]).max() + np.abs(cur).max()) and 1 / a - 1e-9 <= z <= a + 1e-9:
                            best = z if best is None else np.nan
                    else:
                        best = np.nan
                if best is None and nw > 1:
                    ctx.check(False, "vector:stretch", "proposal %d is not on the line through another walker with a factor in [1/a, a]" % k, old=old[k], proposal=prop[k], others=cur, **data)
                    return
                zs[k] = np.nan if best is None else best
                cur[w] = r["new"][k]
            la = la + (d - 1) * np.log(zs) if d > 1 else la
            g = zs[np.isfinite(zs)]
            if len(g) > 300:
                lo_, hi_ = np.sqrt(1 / a), np.sqrt(a)
                ctx.ev()
                pv = st.kstest(g, lambda z: np.clip((np.sqrt(z) - lo_) / (hi_ - lo_), 0, 1)).pvalue
                if pv < 1e-11:
                    ctx.violation("vector:factor", "stretch factors do not follow 1/sqrt(z) on [1/a, a] (p = %.2g)" % pv, **data)
        with np.errstate(all="ignore"):
            alpha = np.exp(np.minimum(la, 0.0))
        if kind in (1, 2, 4):
            keep = np.abs(prop[:, 0] - lo) > 1e-9 * sd
        elif kind == 3:
            keep = np.abs(np.abs(prop).max(axis=1) - lo) > 1e-9 * sd
        else:
            keep = np.ones(n, dtype=bool)
        judge_moves(ctx, B, {k: r[k][keep] for k in ("old", "oldlog", "new", "newlog")}, prop[keep], plog[keep], alpha[keep], "vector", (pk, "T", T, d > 1), data, sd)
        ctx.distinct("vector", pk, d, kind, T, nw, a, int(np.floor(np.log10(size))))
    ctx.each(400, 4000, case)
    B.judge()


def unit_rare(ctx):
    """long chains whose proposals are mostly poor: small acceptance probabilities"""
    B = {k: stat.Bernoulli(ctx, "rare:" + k, "acceptance of poor proposals, " + k) for k in ("ram", "scalar", "vector", "stretch")}

    def case(i, rng):
        which = ["ram", "scalar", "vector", "stretch"][i % 4]
        T = float(rng.choice([1.0, 1.0, 4.0, 100.0]))
        n = 400000 if which in ("scalar", "ram") else 150000
        d = int(rng.choice([1, 2, 3]))
        P = spd(rng, d)
        # a heavy tail gives many proposals with logarithms of the probability from -5 to -15
        kind = 5 if T == 1.0 else 0
        wide = np.sqrt(T) * (rng.uniform(3, 6) if kind == 0 else 2.2 * np.exp(rng.uniform(0.8, 2.2)))
        data = dict(which=which, temp=T, P=P, wide=wide)
        if which == "scalar":
            wide = np.sqrt(T) * rng.uniform(3, 5)
            r = ctx.call("MetropStep", vx.metrop_scalar, 0, 1.0, T, 0, wide, 1.0, 0.5, n)
            r["old"], r["new"], prop = r["old"][:, None], r["new"][:, None], r["prop"][:, None]
            plog = -0.5 * prop[:, 0] ** 2
        elif which == "ram":
            C = np.eye(d) * wide ** 2
            r = ctx.call("AdaptiveMetro", vx.ram_trace, C, P, kind, 0.0, T, 0.25, 0, n, np.full(d, 0.1), 0, 1.0, 1.0)
            prop = r["old"] + wide * r["unit"]
            plog = dens(kind, P, 0.0, prop)
        elif which == "vector":
            r = ctx.call("MetropStep", vx.metrop_vec, P, kind, 0.0, T, 0, np.eye(d) * wide ** 2, 2.0, np.full((1, d), 0.1), n, False)
            prop = r["prop"]
            plog = dens(kind, P, 0.0, prop)
        else:
            # one walker moves along the line to another, fixed far away in one dimension
            d = 1
            P = np.ones((1, 1))
            r = ctx.call("MetropStep", vx.metrop_vec, P, kind, 0.0, T, 1, np.eye(1), 2.0, np.array([[0.1], [wide * 8.0]]), n, False)
            prop = r["prop"]
            plog = dens(kind, P, 0.0, prop)
        with np.errstate(all="ignore"):
            alpha = np.exp(np.minimum((plog - r["oldlog"]) / T, 0.0))
        judge_moves(ctx, B[which], {k: r[k] for k in ("old", "oldlog", "new", "newlog")}, prop, plog, alpha, "rare:" + which, ("T", T), data, 1.0)
        ctx.count("expected acceptances below 1e-3", float(alpha[alpha < 1e-3].sum()))
        ctx.distinct("rare", which, T, d, round(wide))
    ctx.each(24, 120, case)
    for b in B.values():
        b.judge()


def unit_invariance(ctx):
    """chains started from exact draws of the target still follow it after many updates"""
    import scipy.stats as st

    def case(i, rng):
        which = ["normal", "student", "lognormal", "mvn", "stretch", "ram"][i % 6]
        T = float(rng.choice([1.0, 1.0, 4.0]))
        m, steps = 600, 30
        if which in ("normal", "student", "lognormal"):
            pk = dict(normal=0, student=1, lognormal=2)[which]
            a = float(rng.uniform(1.5, 4))
            # tempered gamma: x^((a-1)/T) exp(-x/T)
            sh, sc = (a - 1) / T + 1, T
            pa, pb = (float(rng.uniform(0.5, 3)), 0.0) if pk != 1 else (8.0, float(rng.uniform(0.5, 3)))

            def draw():
                x0 = ctx.rng.gamma(sh, sc, m) if not hasattr(draw, "g") else draw.g.gamma(sh, sc, m)
                draw.g = np.random.default_rng(int(ctx.rng.integers(1 << 60)))
                return np.array([vx.metrop_scalar(1, a, T, pk, pa, pb, x, steps)["new"][-1] for x in x0])
            cdf = st.gamma(sh, scale=sc).cdf
            data = dict(kernel=which, a=a, temp=T, pa=pa, pb=pb)
        else:
            d = int(rng.choice([2, 3]))
            P = spd(rng, d, 10 ** rng.uniform(-1, 1))
            C = np.linalg.inv(P) * T
            L = np.linalg.cholesky(C)
            cov = spd(rng, d, np.diag(C).mean())
            u = rng.normal(size=d)
            su = np.sqrt(u @ C @ u)
            nw = 5

            def draw():
                g = np.random.default_rng(int(ctx.rng.integers(1 << 60)))
                out = []
                for _ in range(m):
                    W = (L @ g.normal(size=(d, nw))).T
                    if which == "mvn":
                        q = vx.metrop_vec(P, 0, 0.0, T, 0, cov, 2.0, W[:1], steps, False)
                    elif which == "stretch":
                        q = vx.metrop_vec(P, 0, 0.0, T, 1, cov, 2.0, W, 3 * nw, True)
                    else:
                        q = vx.ram_trace(cov, P, 0, 0.0, T, 0.25, 0, steps, W[0])
                    out.append(q["new"][-1] @ u / su)
                return np.array(out)
            cdf = st.norm.cdf
            data = dict(kernel=which, P=P, temp=T, cov=cov)
        stat.ks(ctx, draw, cdf, "invariance:" + which, "distribution of chains started in equilibrium with the %s kernel" % which, **data)
        ctx.distinct("invariance", which, T)
        ctx.count("chains", m)
    ctx.each(36, 240, case)


def unit_traced(ctx):
    """updates of real sampler runs"""
    B = stat.Bernoulli(ctx, "traced", "acceptance in sampler runs")

    def case(i, rng):
        p = int(rng.choice([1, 2, 3]))
        q = int(rng.integers(0, p))
        n = int(rng.choice([8, 20]))
        t, y, e, kinds = c02.dataset(rng, n, min(p, 3), 0)
        nw = 1 if p == 1 else int(rng.choice([1, 2, 4]))
        ev, S, L, T = ctx.call("sampler run", vx.traced_run, 40, 60, t, y, e, p, q, nw, False, 1)
        o = ctx.call("sampler run", A.run, 1, 0, t, y, e, p, q, 1)
        cov = {}
        per = {}
        for x in ev:
            if x["kind"] != "metro":
                continue
            c = x["chain"]
            if c in cov and len(x["unit"]) == len(x["old"]):
                try:
                    St = np.linalg.cholesky(cov[c])
                except np.linalg.LinAlgError:
                    cov[c] = x["cov"]
                    continue
                per.setdefault(x["temp"], []).append((x["old"], x["oldlog"], x["new"], x["newlog"], x["old"] + St @ x["unit"]))
            cov[c] = x["cov"]
        data = dict(t=t, y=y, e=e, p=p, q=q, nwalkers=nw)
        if not per:
            ctx.skip("no event of the sampler was seen")
            return
        for T_, rows in per.items():
            r = dict(old=np.array([a[0] for a in rows]), oldlog=np.array([a[1] for a in rows]), new=np.array([a[2] for a in rows]), newlog=np.array([a[3] for a in rows]))
            prop = np.array([a[4] for a in rows])
            plog = np.array([o.getLogDensity(A.vd(x)) for x in prop])
            with np.errstate(all="ignore"):
                alpha = np.exp(np.minimum((plog - r["oldlog"]) / T_, 0.0))
            # rounding of the rebuilt proposal matters only where the density is sensitive to it
            judge_moves(ctx, B, r, prop, plog, alpha, "traced", ("T", round(T_, 3)), data, 1.0)
        ctx.distinct("traced", p, q, nw, n)
    ctx.each(60, 600, case)
    B.judge()


UNITS = [dict(name="ram", fn=unit_ram, shards=2), dict(name="scalar", fn=unit_scalar, shards=2), dict(name="vector", fn=unit_vector, shards=2),
         dict(name="rare", fn=unit_rare, shards=2), dict(name="invariance", fn=unit_invariance, shards=3, tshards=4, weight=5), dict(name="traced", fn=unit_traced, shards=2, weight=3)]
