import numpy as np
from lib import oracle as O, gen as G, api as A, fake as F
from checks import c02

LEVEL = "exploration"
RULE = ("one case = one sample object (5-20 draws, from chosen vectors or from a real run) or one estimate dictionary, every derived quantity compared; "
        "distinct by source, orders, kinds of roots, magnitude of the parameters; ill-conditioned quantities are counted, not judged")
ASSUMPTIONS = ["reference decoding and likelihood are independent of the code (80-bit arithmetic)", "log-likelihood up to the constant -n/2 log(2 pi) the package omits"]


def cond(th, p, q):
    """process of a vector and how far roots/noise amplitude can be judged"""
    ys, sc, mu, r, ma = O.decode(th, p, q)
    gap = 1.0
    if p > 1:
        d = np.abs(r[:, None] - r[None, :]) / np.abs(r)[:, None] + 9 * np.eye(p)
        gap = d.min()
    s2 = float(O.sigsqr_of(ys, r, ma))
    return ys, sc, mu, r, ma, s2, gap


def same_roots(ctx, got, r, gap, key, msg, **data):
    """as a set"""
    got = np.asarray(got, dtype=complex)
    ctx.ev()
    if got.shape != r.shape:
        return ctx.violation(key + ":shape", "%s: shape %s" % (msg, got.shape), **data)
    left = list(r)
    for x in got:
        k = int(np.argmin([abs(x - y) / abs(y) for y in left]))
        e = abs(x - left[k]) / abs(left[k])
        ctx.maximum("err/tol " + key, e / (1e-11 / gap))
        if not e <= 1e-11 / gap:
            return ctx.violation(key, "%s: %r where %r is expected" % (msg, complex(x), complex(left[k])), roots=r, reported=got, **data)
        left.pop(k)


def vector_checks(ctx, key, g, th, p, q, t, y, e, data, mle=False):
    """g: name -> value for this vector"""
    ys, sc, mu, r, ma, s2, gap = cond(th, p, q)
    data = dict(data, theta=th)
    rel = lambda name, got, want, tol=1e-11: ctx.close(np.asarray(got, dtype=float).ravel(), np.ravel(want), tol * np.abs(np.ravel(want)), key + name, name, **data)
    rel("var", g("var"), ys * ys)
    rel("measerr_scale", g("measerr_scale"), sc, 0)
    rel("mu", g("mu"), mu, 0)
    if p == 1 and not mle:
        ctx.close(np.ravel(g("log_omega")), [th[3]], 0, key + "log_omega", "log_omega", **data)
        rel("sigma", g("sigma"), np.sqrt(2 * ys * ys * np.exp(th[3])))
    else:
        if not mle:
            rel("quad_coefs", g("quad_coefs"), np.exp(th[3:3 + p]))
        cent = np.ravel(g("psd_cent" if mle else "psd_centroid"))
        width = np.ravel(g("psd_width"))
        roots = np.ravel(g("ar_roots"))
        if gap > 1e-6:
            same_roots(ctx, roots, r, gap, key + "ar_roots", "roots of the AR polynomial", **data)
            ctx.close(cent, np.abs(roots.imag) / (2 * np.pi), 1e-12 * np.abs(roots), key + "centroid", "centroids against the roots", **data)
            ctx.close(width, -roots.real / (2 * np.pi), 1e-12 * np.abs(roots), key + "width", "widths against the roots", **data)
        else:
            ctx.count("roots not judged")
        want = np.array(O.quad_poly(th[3:3 + p]), dtype=float)
        size = np.array(np.abs(np.poly(-np.abs(r))), dtype=float)
        ctx.close(np.ravel(g("ar_coefs")), want, 1e-10 * size / min(gap, 1.0) ** 0.5, key + "ar_coefs", "AR coefficients", **data)
        mac = np.ravel(g("ma_coefs"))
        ctx.close(mac, ma, 1e-9 * np.abs(ma), key + "ma_coefs", "MA coefficients", **data)
        canc = O.cancellation(s2, r, ma)
        if np.isfinite(s2) and s2 > 0 and canc < 1e8:
            rel("sigma", g("sigma"), np.sqrt(s2), 1e-11 * canc / gap + 1e-10)
            # what was reported reproduces the reported variance
            v = float(O.acv(float(np.ravel(g("sigma"))[0]) ** 2, roots, mac, 0.0))
            ctx.close(v, float(np.ravel(g("var"))[0]), abs(ys * ys) * (1e-11 * canc / gap + 1e-9), key + "consistent", "variance of the reported process", **data)
        else:
            ctx.count("noise amplitude not judged")
    del data["theta"]
    c02.judge(Lik(ctx, key), "CAR1" if p == 1 else "CARMA", th, float(np.ravel(g("loglik"))[0]) + O.logprior_scale(sc), None, t, y, e, p, q, data)


class Lik:
    """passes through, with the name of the quantity put right"""

    def __init__(self, ctx, key):
        self.c, self.key = ctx, key

    def __getattr__(self, k):
        return getattr(self.c, k)

    def close(self, got, want, tol, key, msg, **data):
        return self.c.close(got, want, tol, self.key + "loglik", "log-likelihood (plus the prior of the error scale)", **data)


def vectors(rng, t, y, p, q, n):
    th = []
    while len(th) < n:
        x = G.support_theta(rng, t, y, p, q)
        if x is not None:
            if rng.random() < 0.1 and p > 1:
                x[3:3 + p] += rng.normal(0, 1.0, p)     # arbitrary factors: real roots far apart, narrow resonances
            elif rng.random() < 0.15 and p > 1:
                # one factor with real roots as far apart as the prior lets them be
                w = 2 * np.pi * np.array([rng.uniform(0.3, 0.99) / np.diff(t).min(), rng.uniform(1.01, 3) / (t[-1] - t[0])])
                k = 3 + 2 * int(rng.integers(0, p // 2))
                x[k:k + 2] = np.log(w[0] * w[1]), np.log(w[0] + w[1])
            th.append(x)
    return np.array(th)


NAMES1 = ["var", "measerr_scale", "mu", "log_omega", "sigma", "logpost", "loglik"]
NAMES = ["var", "measerr_scale", "mu", "quad_coefs", "ar_roots", "psd_centroid", "psd_width", "ar_coefs", "ma_coefs", "sigma", "logpost", "loglik"]


def check_sample(ctx, s, th, lp, p, q, t, y, e, data, key):
    n = len(th)
    got = {k: np.asarray(s.get_samples(k)) for k in (NAMES1 if p == 1 else NAMES)}
    for k, v in got.items():
        ctx.check(v.shape[0] == n and v.ndim == 2, key + "shape", "%s has shape %s for %d draws" % (k, v.shape, n), **data)
    ctx.close(got["logpost"].ravel(), lp, 0, key + "logpost", "log-posteriors", **data)
    for i in range(n):
        vector_checks(ctx, key, lambda k: got[k][i], th[i], p, q, t, y, e, data)


def unit_chosen(ctx):
    def case(i, rng):
        p = int(rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7]))
        q = int(rng.integers(0, p))
        n = int(rng.choice([4, 12, 30]))
        t, y, e, kinds = c02.dataset(rng, n, min(p, 3), 0)
        th = vectors(rng, t, y, p, q, int(rng.integers(1, 13)) if i % 40 else 620)
        s, m = ctx.call("sample object", F.sample, t, y, e, p, q, th)
        lp = [m.getLogDensity(A.vd(x)) for x in th]
        keep = np.isfinite(lp)
        data = dict(t=t, y=y, e=e, p=p, q=q)
        if not keep.all():
            th = th[keep]
            lp = np.array(lp)[keep]
            if not len(th):
                return
            s, m = ctx.call("sample object", F.sample, t, y, e, p, q, th)
        check_sample(ctx, s, th, lp, p, q, t, y, e, data, "")
        ctx.distinct("chosen", p, q, kinds, n, c02.root_kind(th[0], p))
        ctx.sample(dict(p=p, q=q, draws=len(th), sigma=s.get_samples("sigma")[0], loglik=s.get_samples("loglik")[0]))
    ctx.each(500, 5000, case)


def unit_run(ctx):
    """objects as CarmaModel.run_mcmc makes them"""
    cm, L = A.cm(), A.ext()

    def case(i, rng):
        p = int(rng.choice([1, 2, 3, 4]))
        q = int(rng.integers(0, p))
        n = int(rng.choice([10, 30]))
        t, y, e, kinds = c02.dataset(rng, n, min(p, 3), 0)
        caught = []
        old = {k: getattr(L, k) for k in ("run_mcmc_car1", "run_mcmc_carma")}

        def wrap(f):
            def g(*a, **k):
                r = f(*a, **k)
                caught.append(r)
                return r
            return g
        for k in old:
            setattr(L, k, wrap(old[k]))
        try:
            m = ctx.call("CarmaModel", cm.CarmaModel, t, y, e, p=p, q=q)
            kw = dict(ntemperatures=int(rng.integers(1, 4))) if rng.random() < 0.7 else {}
            s = ctx.call("run_mcmc", m.run_mcmc, 10, nburnin=int(rng.integers(0, 200)), **kw)
        finally:
            for k in old:
                setattr(L, k, old[k])
        if not caught:
            ctx.count("sampler call not seen")
            return
        th, lp = A.samples(caught[0]), A.loglikes(caught[0])
        data = dict(t=t, y=y, e=e, p=p, q=q)
        ctx.check(m.mcmc_sample is s, "run:kept", "mcmc_sample is not the returned object")
        check_sample(ctx, s, th, lp, p, q, t, y, e, data, "run ")
        ctx.distinct("run", p, q, n)
    ctx.each(60, 400, case)


class Est:
    def __init__(self, x, fun):
        self.x, self.fun, self.message, self.success = np.array(x), fun, "", True


def unit_mle(ctx):
    cm = A.cm()
    from types import SimpleNamespace  # noqa: F401

    def case(i, rng):
        p = int(rng.choice([1, 2, 2, 3, 4, 5, 6, 7]))
        q = int(rng.integers(0, p)) if p < 7 else 6
        n = int(rng.choice([5, 15, 30]))
        t, y, e, kinds = c02.dataset(rng, n, min(p, 3), 0)
        th = vectors(rng, t, y, p, q, 3)
        s, m = ctx.call("sample object", F.sample, t, y, e, p, q, th[:2])
        x = th[2].copy()
        x[1] = rng.uniform(0.9, 1.1)
        if p > 1:
            m.SetMLE(True)
        fun = -m.getLogDensity(A.vd(x))
        if p > 1:
            m.SetMLE(False)
        if not np.isfinite(fun):
            return
        est = Est(x, fun)
        if p > 1 and rng.random() < 0.3:
            s = ctx.call("CarmaSample(MLE=)", cm.CarmaSample, t, y, e, F.FakeSampler(m, th[:2], [-1.0, -2.0]), q=q, MLE=est)
        else:
            ctx.call("add_mle", s.add_mle, est)
        ctx.check(np.array_equal(est.x, x) and est.fun == fun, "mle:modified", "the estimate was modified")
        d = s.mle
        data = dict(t=t, y=y, e=e, p=p, q=q)
        vector_checks(ctx, "mle ", lambda k: d[k], x, p, q, t, y, e, data, mle=True)
        ctx.distinct("mle", p, q, n, c02.root_kind(x, p))
        ctx.sample(dict(p=p, q=q, mle={k: v for k, v in d.items()}))
    ctx.each(500, 5000, case)


UNITS = [dict(name="chosen", fn=unit_chosen, shards=4, tshards=6, weight=3), dict(name="mle", fn=unit_mle, shards=2, tshards=3), dict(name="run", fn=unit_run, shards=2, tshards=3, weight=4)]
