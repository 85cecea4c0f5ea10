import numpy as np
from math import comb
from lib import oracle as O, gen as G, api as A, vx

LEVEL = "exploration"
RULE = ("one case = one data set, model class and order; several in-support vectors each; distinct by class, orders, grid, error kind, root kind and "
        "data location; vectors whose reference covariance is too ill-conditioned are counted but not judged")
ASSUMPTIONS = ["reference: dense multivariate normal in 80-bit arithmetic of the process decoded independently from the vector",
               "ZCAR fixes kappa to 1/min(dt), ZCARMA maps logit(kappa) linearly to its [low, high] range"]


def encode(kind, th, t, p, q, kap=None):
    """process of a vector, independent of the code: ysigma, scale, mu, roots, ma, logprior"""
    ys, sc, mu, r, ma = O.decode(th[:3 + p + (q if kind == "CARMA" else 0)], p, q if kind == "CARMA" else 0)
    lp = O.logprior_scale(sc)
    dt = np.diff(np.sort(t))
    if kind in ("ZCAR", "ZCARMA"):
        if kind == "ZCAR":
            kappa = 1.0 / dt.min()
        else:
            lo, hi = kap if kap else (max(1.0 / (t.max() - t.min()), 1.0 / (10 * np.median(dt))), 1.0 / dt.min())
            x = th[3 + p]
            u = 1 / (1 + np.exp(-x)) if x > -700 else 0.0
            kappa = lo + (hi - lo) * u
            # density of a logistic variate
            lp += -abs(x) - 2 * np.log1p(np.exp(-abs(x)))
        ma = np.array([comb(p - 1, i) / kappa ** i for i in range(p)])
    return ys, sc, mu, r, ma, lp


def judge(ctx, kind, th, got, gotprior, t, y, e, p, q, data, kap=None, key=""):
    ys, sc, mu, r, ma, lp = encode(kind, th, t, p, q, kap)
    s2 = float(O.sigsqr_of(ys, r, ma))
    if not (np.isfinite(s2) and s2 > 0):
        ctx.count("degenerate")
        return
    es = np.sqrt(sc) * e
    rel, small = O.judge_tol(t, es, s2, r, ma)
    # every term of the sum: relative variance error plus error of the squared standardised residual
    R0 = float(O.acv(s2, r, ma, 0.0))
    zz = (np.abs(y - mu).max() + np.sqrt(R0)) / np.sqrt(R0 * small) if small else np.inf
    if not np.isfinite(rel) or rel > 1e-4:
        ctx.count("too ill-conditioned to judge")
        return
    want = float(O.loglik(t, y, es, s2, r, ma, mu)) + lp
    tol = len(t) * rel * (1 + min(zz, 1e8) ** 2 * 0.2) + 1e-9 * abs(want)
    if tol > 0.1:
        ctx.count("too ill-conditioned to judge")
        return
    ctx.close(got, want, tol, key + "logdens:" + kind, "log-density of %s(%d,%d)" % (kind, p, q), theta=th, **data)
    if gotprior is not None:
        ctx.close(gotprior, lp, 1e-9 * (1 + abs(lp)), key + "logprior:" + kind, "log-prior of %s" % kind, theta=th, **data)
    return True


def dataset(rng, n, p, q):
    t, tk = G.times(rng, n)
    # the unit of time must not matter
    unit = G.unit(rng)
    t = t * unit
    s2, r, ma, var, rk = G.process(rng, p, q, t)
    e, ek = G.errors(rng, n, np.sqrt(var), rng.choice(["uniform", "hetero", "tiny", "large", "somezero", "zero", "masked"]))
    y = G.draw(rng, t, e, s2, r, ma)
    mk = str(rng.choice(["zero", "near", "far"]))
    y = y + dict(zero=0.0, near=rng.normal(), far=30.0 * rng.choice([-1, 1]))[mk] * np.sqrt(var)
    return t, y, e, (tk, ek, mk, unit)


def root_kind(th, p):
    r = O.decode(th[:3 + p], p, 0)[3]
    c = int((np.abs(r.imag) > 0).sum())
    return "complex" if c == p else "real" if c == 0 else "mixed"


def unit_python(ctx):
    def case(i, rng):
        kind = ["CAR1", "CARp", "CARMA", "CARMA"][i % 4]
        p = 1 if kind == "CAR1" else int(rng.choice([2, 2, 3, 4, 5, 6, 7, 8, 9]))
        q = int(rng.integers(1, p)) if kind == "CARMA" else 0
        n = int(rng.choice([3, 8, 20, 40]))
        t, y, e, kk = dataset(rng, n, p, q)
        temp = float(rng.choice([1.0, 1.0, 3.7, 50.0]))
        m = ctx.call("model construction", A.model, kind, t, y, e, p, q, temp)
        data = dict(t=t, y=y, e=e, p=p, q=q, temp=temp)
        for j in range(4):
            th = G.support_theta(rng, t, y, p, q)
            if th is None:
                continue
            got = ctx.call("getLogDensity", m.getLogDensity, A.vd(th))
            pri = ctx.call("getLogPrior", m.getLogPrior, A.vd(th))
            if judge(ctx, kind, th, got, pri, t, y, e, p, q, data):
                ctx.distinct(kind, p, q, *kk, root_kind(th, p))
                ctx.sample(dict(kind=kind, p=p, q=q, n=n, theta=th, logdens=got, logprior=pri))
    ctx.each(600, 6000, case)


def unit_cxx(ctx):
    """all five classes, and the z-transformed ones in particular"""
    vx.lib("models")

    def case(i, rng):
        kind = ["ZCAR", "ZCARMA", "CARMA", "ZCARMA", "CAR1", "CARp"][i % 6]
        p = 1 if kind == "CAR1" else int(rng.choice([2, 2, 3, 4, 5, 7, 8]))
        q = int(rng.integers(1, p)) if kind == "CARMA" else 0
        n = int(rng.choice([3, 8, 20, 40]))
        t, y, e, kk = dataset(rng, n, p, q)
        m = ctx.call("model construction", vx.Model, kind, t, y, e, p, q)
        data = dict(t=t, y=y, e=e, p=p, q=q)
        kap = None
        if kind == "ZCARMA" and rng.random() < 0.4:
            lo = np.exp(rng.uniform(-3, 1))
            kap = (float(lo), float(lo * np.exp(rng.uniform(0.1, 4))))
            m.setkappa(*kap)
        for j in range(4):
            th = G.support_theta(rng, t, y, p, q)
            if th is None:
                continue
            if kind == "ZCARMA":
                th = np.append(th, rng.normal() * rng.choice([0.5, 3, 12, 800]))
            got = ctx.call("LogDensity", m.logdens, th)
            pri = ctx.call("LogPrior", m.logprior, th)
            if judge(ctx, kind, th, got, pri, t, y, e, p, q, data, kap, "cxx:"):
                ctx.distinct("cxx", kind, p, q, *kk, root_kind(th, p), kap is None)
                ctx.sample(dict(kind=kind, p=p, q=q, n=n, theta=th, logdens=got, logprior=pri))
        m.close()
    ctx.each(600, 6000, case)


def unit_sampled(ctx):
    """vectors visited by a chain rather than generated, including the z-transformed sampler"""
    def case(i, rng):
        z = i % 3 == 2
        p = [1, 2, 3, 4][i % 4] if not z else int(rng.integers(2, 5))
        q = 0 if z or p == 1 else int(rng.integers(0, p))
        d = G.series(rng, int(rng.choice([20, 50])), ekind=rng.choice(["uniform", "large"]), p=max(p, 1), q=q)
        t, y, e = d["t"], d["y"], d["e"]
        o = ctx.call("sampler run", A.run, 6, int(rng.choice([0, 30, 200])), t, y, e, p, q, int(rng.integers(2, 4)), z, 3)
        kind = "ZCAR" if z else "CAR1" if p == 1 else "CARp" if q == 0 else "CARMA"
        for th, lp in zip(A.samples(o), A.loglikes(o)):
            if judge(ctx, kind, th, lp, o.getLogPrior(A.vd(th)), t, y, e, p, q, dict(t=t, y=y, e=e, p=p, q=q), None, "sampled:"):
                ctx.distinct("sampled", kind, p, q, *d["kinds"])
    ctx.each(60, 600, case)


def unit_long(ctx):
    def case(i, rng):
        n = [150, 300][i % 2]
        p = int(rng.integers(1, 4))
        q = int(rng.integers(0, p))
        kind = "CAR1" if p == 1 else "CARp" if q == 0 else "CARMA"
        t, y, e, kk = dataset(rng, n, p, q)
        m = ctx.call("model construction", A.model, kind, t, y, e, p, q)
        th = G.support_theta(rng, t, y, p, q)
        if th is not None:
            got = ctx.call("getLogDensity", m.getLogDensity, A.vd(th))
            if judge(ctx, kind, th, got, None, t, y, e, p, q, dict(t=t, y=y, e=e, p=p, q=q), None, "long:"):
                ctx.distinct("long", kind, p, q, *kk)
    ctx.each(16, 120, case)


def unit_huge(ctx):
    """thousands of values, well-conditioned, against a dense factorisation in double precision"""
    def case(i, rng):
        n = [700, 1400, 2600, 5000][i % 4]
        p = [1, 2, 2, 1, 2, 1, 1, 3][i % 8]
        q = int(rng.integers(0, p))
        kind = "CAR1" if p == 1 else "CARp" if q == 0 else "CARMA"
        t = np.cumsum(rng.exponential(1.0, n) + 0.05)
        e = rng.uniform(0.5, 1.0, n)
        y = np.sin(t / 7) + e * rng.normal(size=n)
        m = ctx.call("model construction", A.model, kind, t, y, e, p, q)
        for _ in range(20):
            th = G.support_theta(rng, t, y, p, q)
            if th is None:
                continue
            ys, sc, mu, r, ma, lp = encode(kind, th, t, p, q)
            s2 = float(O.sigsqr_of(ys, r, ma))
            if np.isfinite(s2) and s2 > 0 and O.cancellation(s2, r, ma) < 1e5:
                break
        else:
            ctx.count("too ill-conditioned to judge")
            return
        got = ctx.call("getLogDensity", m.getLogDensity, A.vd(th))
        om, ov = O.big_one_step(t, y - mu, np.sqrt(sc) * e, s2, r, ma)
        terms = 0.5 * np.log(ov) + 0.5 * (y - mu - om) ** 2 / ov
        ctx.close(got, lp - terms.sum(), 1e-6 * np.abs(terms).sum(), "huge:" + kind, "log-density of a series of %d" % n, n=n, p=p, q=q, theta=th)
        ctx.distinct("huge", kind, p, q, n)
    ctx.each(8, 40, case)


UNITS = [dict(name="huge", fn=unit_huge, shards=1), dict(name="python", fn=unit_python, shards=3, tshards=6), dict(name="cxx", fn=unit_cxx, shards=3, tshards=6),
         dict(name="sampled", fn=unit_sampled, shards=1), dict(name="long", fn=unit_long, shards=1, tshards=2)]
