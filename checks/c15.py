import numpy as np
from lib import oracle as O, gen as G, api as A

LEVEL = "exploration"
RULE = ("one case = one process and time vector; the linear map from the normal variates to the values is recovered exactly by replaying chosen variates, "
        "and its product with its transpose compared with the model's covariance; distinct by function, orders, grid, time type, MA kind")
ASSUMPTIONS = ["the functions draw their normal variates through numpy.random; where replaying is not possible the covariance is estimated from draws instead",
               "statistical alarms are confirmed on two fresh streams with a much smaller error probability"]


class Feed:
    """Stands in for numpy.random: standard normals come from a given list, everything else is refused."""

    def __init__(self, z):
        self.z, self.k = list(z), 0

    def next(self):
        v = self.z[self.k] if self.k < len(self.z) else 0.0
        self.k += 1
        return v

    def standard_normal(self, size=None):
        return self._many(size)

    def randn(self, *size):
        return self._many(size or None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            return loc + scale * self.next()
        return loc + scale * self._many(size)

    def _many(self, size):
        if size is None:
            return self.next()
        n = int(np.prod(size))
        return np.array([self.next() for _ in range(n)]).reshape(size)


def linear_map(fn, n):
    """matrix B with values = B z, or None if the function does not draw from numpy.random's normals like that"""
    old = {k: getattr(np.random, k) for k in ("standard_normal", "randn", "normal")}
    feed = [None]
    try:
        for k in old:
            setattr(np.random, k, (lambda k: lambda *a, **kw: getattr(feed[0], k)(*a, **kw))(k))
        feed[0] = Feed([])
        base = np.array(fn(), dtype=float)
        nz = feed[0].k
        if nz != n or not np.allclose(base, 0, atol=0):
            return None
        B = np.empty((n, n))
        for j in range(n):
            z = np.zeros(n)
            z[j] = 1.0
            feed[0] = Feed(z)
            B[:, j] = fn()
        # and it is linear
        z = np.linspace(-1.3, 1.7, n) ** 3
        feed[0] = Feed(z)
        if not np.allclose(fn(), B @ z, rtol=1e-6, atol=1e-9 * np.abs(B).sum()):
            return None
        return B
    finally:
        for k, v in old.items():
            setattr(np.random, k, v)


def stat_check(ctx, fn, K, key, msg, rounds=3, m=4000, **data):
    """covariance from draws; alarm only if it repeats on fresh streams"""
    import scipy.stats as st
    n = len(K)
    L = np.linalg.cholesky(K + 1e-12 * np.trace(K) / n * np.eye(n))
    bad = 0
    for k in range(rounds):
        if k:
            ctx.substream("again%d" % k)
        Y = np.array([fn() for _ in range(m)])
        Z = np.linalg.solve(L, Y.T)
        C = Z @ Z.T
        # every entry of the whitened second moment
        p = min(st.chi2.cdf(C[j, j], m) for j in range(n))
        p = min(p, min(st.chi2.sf(C[j, j], m) for j in range(n)))
        off = np.abs(C[np.triu_indices(n, 1)]).max() / np.sqrt(m) if n > 1 else 0
        p = min(p, st.norm.sf(off), st.norm.sf(np.abs(Z.mean(axis=1)).max() * np.sqrt(m)))
        if p < 1e-7 / n ** 2:
            bad += 1
        else:
            break
    ctx.check(bad < rounds, key, msg, **data)


def unit_carma(ctx):
    cm = A.cm()

    def case(i, rng):
        n = int(rng.choice([1, 2, 3, 6, 12])) if i % 25 else int(rng.choice([45, 70, 120]))
        p = int(rng.choice([1, 2, 2, 3, 4, 5]))
        q = int(rng.integers(0, p))
        tt = str(rng.choice(["float", "int", "list", "float32", "view", "float"]))
        if n == 1:
            t, tk = np.array([rng.uniform(-5, 5)]), "single"
        elif tt in ("int", "float32"):
            t, tk = np.cumsum(rng.integers(1, 6, n)) + int(rng.choice([0, -20, 53000])), "integer"
            t = t.astype(np.int64 if tt == "int" else np.float32)
        else:
            t, tk = G.times(rng, n)
        if n > 12 and tt not in ("int", "float32"):
            t = t * float(rng.choice([1.0, 1e-5]))
        g = np.asarray(t, dtype=float)
        s2, r, ma, var, rk = G.process(rng, p, q, g if n > 1 else np.array([0.0, 1.0]))
        if tt == "view":
            big = np.zeros(2 * n)
            big[::2] = t
            t = big[::2]
        arg_t = list(map(float, t)) if tt == "list" else t
        mk = str(rng.choice(["array", "list", "padded", "default"]))
        arg_ma = list(map(float, ma)) if mk == "list" else np.concatenate([ma, np.zeros(p - len(ma))]) if mk == "padded" else ma.copy()
        if p == 1:
            arg_r = np.array([r[0].real]) if rng.random() < 0.5 else np.array([complex(r[0].real, 0)])
        else:
            arg_r = r.copy()
        keep = (np.array(arg_t), arg_r.copy(), np.array(arg_ma))
        if mk == "default" and q == 0:
            fn = lambda: cm.carma_process(arg_t, s2, arg_r)
        else:
            fn = lambda: cm.carma_process(arg_t, s2, arg_r, arg_ma)
        data = dict(t=g, times=tt, sigsqr=s2, roots=r, ma=ma, ma_kind=mk, root_type=str(arg_r.dtype))
        out = ctx.call("carma_process", fn)
        out = np.asarray(out)
        ctx.check(out.shape == (n,) and out.dtype.kind == "f" and np.all(np.isfinite(out)), "carma:shape", "output %r of dtype %s" % (out.shape, out.dtype), **data)
        ctx.check(np.array_equal(np.array(arg_t), keep[0]) and np.array_equal(arg_r, keep[1]) and np.array_equal(np.array(arg_ma), keep[2]), "carma:modified",
                  "inputs modified", **data)
        K = np.array(O.cov_matrix(g, s2, r, ma), dtype=float)
        B = linear_map(fn, n)
        canc = O.cancellation(s2, r, ma)
        if B is not None:
            rel, small = O.judge_tol(g, np.zeros(n), s2, r, ma)
            if not rel < 1e-3:
                ctx.count("too ill-conditioned to judge")
            else:
                ctx.close(B @ B.T, K, max(rel, 1e-8) * K[0, 0], "carma:cov", "covariance of the generated process", **data)
                ctx.distinct("carma", p, q, tk, tt, mk, rk, n)
        elif (i % 10 == 0 or n > 20) and canc < 1e6:
            ctx.count("statistical cases")
            stat_check(ctx, fn, K, "carma:stat", "covariance of the generated process (from draws)", m=4000 if n < 20 else 400, **data)
            ctx.distinct("carma-stat", p, q, tk, tt, mk, rk, n)
        ctx.sample(dict(p=p, q=q, n=n, times=tt, variance=float(K[0, 0]), value=out))
    ctx.each(600, 6000, case)


def unit_car1(ctx):
    cm = A.cm()
    f = cm.carma_pack.car1_process if hasattr(cm, "carma_pack") else cm.car1_process

    def case(i, rng):
        n = int(rng.choice([1, 2, 5, 20])) if i % 12 else int(rng.choice([60, 130, 250]))
        tt = str(rng.choice(["float", "int", "list", "view"]))
        if i % 48 == 0:
            n, tt = 250, "int"
        if n == 1:
            t = np.array([3.0])
        elif tt == "int":
            t = np.cumsum(rng.integers(1, 6, n))
        else:
            t, _ = G.times(rng, n)
        g = np.asarray(t, dtype=float)
        tau = float(np.exp(rng.uniform(-2, 3)) * (np.median(np.diff(g)) if n > 1 else 1))
        s2 = float(10 ** rng.uniform(-4, 4))
        if tt == "view":
            t = np.repeat(g, 2)[::2]
        a = list(t) if tt == "list" else t
        keep = np.array(a)
        fn = lambda: f(a, s2, tau)
        out = np.asarray(ctx.call("car1_process", fn))
        ctx.check(out.shape == (n,) and out.dtype.kind == "f", "car1:shape", "output of shape %r" % (out.shape,))
        ctx.check(np.array_equal(np.array(a), keep), "car1:modified", "input modified")
        K = 0.5 * s2 * tau * np.exp(-np.abs(g[:, None] - g[None, :]) / tau)
        data = dict(t=g, times=tt, sigsqr=s2, tau=tau)
        B = linear_map(fn, n)
        if B is not None:
            ctx.close(B @ B.T, K, 1e-9 * K[0, 0], "car1:cov", "covariance of the generated CAR(1) process", **data)
        elif i % 10 == 0 or n > 20:
            stat_check(ctx, fn, K, "car1:stat", "covariance of the generated CAR(1) process (from draws)", m=4000 if n < 20 else 600, **data)
        ctx.distinct("car1", n, tt, int(np.log10(tau)))
    ctx.each(200, 2000, case)


def unit_draws(ctx):
    """the variates themselves: independent draws with the right covariance, no replaying"""
    cm = A.cm()

    def case(i, rng):
        n = int(rng.integers(2, 6))
        p = 1 + i % 4
        q = int(rng.integers(0, p))
        t, tk = G.times(rng, n, rng.choice(["irregular", "regular", "mixed"]))
        s2, r, ma, var, rk = G.process(rng, p, q, t)
        K = np.array(O.cov_matrix(t, s2, r, ma), dtype=float)
        if np.linalg.cond(K) > 1e8:
            return
        arg = np.array([r[0].real]) if p == 1 else r
        # exactly linear generators of white noise leave no other freedom, so a moderate number of draws is enough
        stat_check(ctx, lambda: cm.carma_process(t, s2, arg, ma), K, "draws", "draws of carma_process", m=1500, t=t, sigsqr=s2, roots=r, ma=ma)
        a, b = cm.carma_process(t, s2, arg, ma), cm.carma_process(t, s2, arg, ma)
        ctx.check(not np.array_equal(a, b), "draws:same", "two calls returned the same values")
        ctx.distinct("draws", p, q, tk, n)
    ctx.each(32, 300, case)


UNITS = [dict(name="carma", fn=unit_carma, shards=3, tshards=4), dict(name="car1", fn=unit_car1, shards=1), dict(name="draws", fn=unit_draws, shards=2, tshards=3)]
