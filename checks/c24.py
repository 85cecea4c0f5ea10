import numpy as np
from lib import dens as D, oracle as O, gen as G, api as A, vx
from checks import c02

LEVEL = "exploration"
RULE = ("one case = one data set and model: long runs of several settings and starts against importance sampling of the log-density (long), many short runs started from "
        "exact posterior draws (stationary), or one-step runs started inside a box (reversible); distinct by unit, class, orders, temperatures, grid and errors")
ASSUMPTIONS = ["the posterior of models with free moving average terms is improper (the prior on them is flat and unbounded), so there only the balance of single updates is judged",
               "an alarm needs two further independent sets of longer runs with the same deviation; deviations below 0.03 posterior standard deviations are not reported",
               "more than three roots give several equivalent modes, between which runs do not move; these orders are judged from exact posterior draws only",
               "the reference density and prior support are computed from the documentation alone, in double precision, and compared with the 80-bit density at some draws"]


def data(rng, p):
    n = int(rng.choice([5, 6, 8, 12]))
    t, tk = G.times(rng, n, str(rng.choice(["irregular", "regular", "mixed", "offset", "seasonal"])))
    s2, r, ma, var, rk = G.process(rng, min(p, 2), 0, t)
    sd = np.exp(rng.uniform(-1, 1))
    s2 *= sd * sd / var
    e, ek = G.errors(rng, n, sd, str(rng.choice(["uniform", "hetero", "large"])))
    e = np.maximum(e, 0.05 * sd)
    y = G.draw(rng, t, e, s2, r, ma) + sd * rng.choice([0, 1, 10]) * rng.normal()
    return t, y, e, (tk, ek)


class Reference:
    """importance sample of the density, drawn from a broad component over the prior box and a Student t component fitted to given draws"""

    def __init__(self, rng, t, y, e, p, z, draws, N):
        self.dens = lambda X: D.logdens(X, t, y, e, p, 0, z, 10 * np.std(y))
        d = draws.shape[1]
        ms = 10 * np.std(y)
        maxf, minf = 1 / np.diff(t).min(), 1 / (t[-1] - t[0])
        lo, hi = [0.0, 0.5, None], [ms, 2.0, None]
        tp = 2 * np.pi
        if p == 1:
            lo.append(np.log(minf))
            hi.append(np.log(maxf))
        else:
            for _ in range(p // 2):
                lo += [2 * np.log(tp * minf), np.log(2 * tp * minf)]
                hi += [np.log(2.0) + 2 * np.log(tp * maxf), np.log(2 * tp * maxf)]
            if p % 2:
                lo.append(np.log(tp * minf))
                hi.append(np.log(tp * maxf))
        assert len(lo) == d
        m0, s0 = np.mean(y), 2 * np.std(y)
        keep = [j for j in range(d) if j != 2]
        L, H = np.array([lo[j] for j in keep], float), np.array([hi[j] for j in keep], float)
        from scipy.stats import t as tdist, multivariate_t
        fb = 0.3
        nb = int(N * fb)
        B = np.empty((nb, d))
        B[:, keep] = L + (H - L) * rng.random((nb, d - 1))
        B[:, 2] = m0 + s0 * rng.standard_t(3, nb)
        c = np.cov(draws.T) * 1.3 + 1e-12 * np.diag(np.var(draws, axis=0) + 1e-300)
        mt = multivariate_t(loc=draws.mean(axis=0), shape=c, df=5, seed=np.random.default_rng(int(rng.integers(1, 2 ** 40))))
        X = np.concatenate([B, mt.rvs(N - nb)])
        inb = ((X[:, keep] >= L) & (X[:, keep] <= H)).all(axis=1)
        lq = np.logaddexp(np.log(fb) + np.where(inb, -np.log(H - L).sum(), -np.inf) + tdist.logpdf(X[:, 2], 3, m0, s0), np.log(1 - fb) + mt.logpdf(X))
        f = self.dens(X)
        f[np.isnan(f)] = -np.inf
        w = np.where(np.isfinite(f), f - lq, -np.inf)
        w = np.exp(w - w.max())
        self.X, self.w = X, w / w.sum()
        self.ess = 1 / np.sum(self.w ** 2)
        self.mean = self.w @ X
        self.sd = np.sqrt(self.w @ (X - self.mean) ** 2)
        # the log-density itself is what wrong acceptance changes most
        self.lmean = self.w @ np.where(self.w > 0, f, 0)
        self.lsd = np.sqrt(self.w @ np.where(self.w > 0, (f - self.lmean) ** 2, 0))
        o = np.argsort(f)
        self.lq = f[o][np.minimum(np.searchsorted(np.cumsum(self.w[o]), [0.05, 0.25, 0.5, 0.75, 0.95]), len(o) - 1)]
        self.q = []
        for j in range(d):
            o = np.argsort(X[:, j])
            cw = np.cumsum(self.w[o])
            self.q.append([X[o[min(np.searchsorted(cw, a), len(o) - 1)], j] for a in (0.05, 0.25, 0.5, 0.75, 0.95)])
        self.names = ["mean %d" % j for j in range(d)] + ["square %d" % j for j in range(d)]
        self.names += ["below %d quantile %g" % (j, a) for j in range(d) for a in (0.05, 0.25, 0.5, 0.75, 0.95)]
        self.names += ["product %d %d" % (i, j) for i in range(d) for j in range(i)]
        self.names += ["mean of the log-density", "square of the log-density"] + ["below log-density quantile %g" % a for a in (0.05, 0.25, 0.5, 0.75, 0.95)]
        F = self.functions(X, f)
        self.ref = self.w @ F
        self.se = np.sqrt((self.w ** 2) @ (F - self.ref) ** 2)
        self.fsd = np.sqrt(self.w @ (F - self.ref) ** 2)

    def functions(self, X, f=None):
        f = self.dens(X) if f is None else f
        zl = np.clip((f - self.lmean) / self.lsd, -8, 8)[:, None]
        Z = np.clip((X - self.mean) / self.sd, -6, 6)
        d = Z.shape[1]
        return np.concatenate([Z, Z ** 2] + [(X[:, [j]] < np.array(self.q[j])[None, :]) for j in range(d)]
                              + [(Z[:, i] * Z[:, j])[:, None] for i in range(d) for j in range(i)]
                              + [zl, zl ** 2, f[:, None] < self.lq[None, :]], axis=1).astype(float)


def settings(rng, p, t, y, k, X, w, length, many=False):
    """one run's settings: draws, burn-in, temperatures, thinning, start"""
    thin = int(rng.choice([2, 5, 10]))
    nw = 1 if p == 1 else int(rng.choice([1, 1, 2, 3, 4]))
    nb = int(rng.choice([5000, 20000])) if p == 1 else int(rng.choice([20000, 40000]))
    if many:
        nw, nb = int(rng.choice([5, 8, 10, 12])), 10000
    init = None
    if k % 2:
        ok = np.flatnonzero(w > 1e-12)
        init = X[ok[int(rng.integers(0, len(ok)))]]       # anywhere in the support, not posterior-typical
    return length // thin, nb, nw, thin, init


def compare(ctx, rng, R, t, y, e, p, z, length, runs, many=False):
    """differences of the function averages from the reference and their standard errors"""
    means, batches, used = [], [], []
    for k in range(runs):
        ns, nb, nw, thin, init = settings(rng, p, t, y, k, R.X, R.w, length, many)
        o = ctx.call("sampler run", A.run, ns, nb, t, y, e, p, 0, nw, z, thin, init)
        F = R.functions(A.samples(o))
        nbat = 20
        L = len(F) // nbat
        b = F[:nbat * L].reshape(nbat, L, -1).mean(axis=1)
        means.append(b.mean(axis=0))
        batches.append(b.var(axis=0, ddof=1) / nbat)
        used.append((ns, nb, nw, thin, init is not None))
    means = np.array(means)
    se2 = np.maximum(np.mean(batches, axis=0), means.var(axis=0, ddof=1)) / runs + R.se ** 2
    return means.mean(axis=0) - R.ref, np.sqrt(se2 + (2e-4 * R.fsd) ** 2), used


def unit_tempered(ctx):
    """many temperatures, where the recorded chain depends on the exchanges most"""
    unit_long(ctx, True)


def unit_long(ctx, many=False):
    pool = {}

    def case(i, rng):
        p = [2, 2, 2, 3][i % 4] if many else [1, 2, 1, 2, 1, 3][i % 6]
        z = p > 1 and (i % 4 == 1 if many else i % 12 in (3, 5))
        t, y, e, kk = data(rng, p)
        kind = "CAR1" if p == 1 else "ZCAR" if z else "CARp"
        pilot = [ctx.call("sampler run", A.run, 2000, 10000, t, y, e, p, 0, 1 if p == 1 else 3, z, 10) for _ in range(2)]
        o = pilot[0]
        draws = np.concatenate([A.samples(x) for x in pilot])
        if len(np.unique(draws[:, 0])) < 50:
            ctx.check(False, "long:stuck", "a run of 20000 iterations visited %d points" % len(np.unique(draws[:, 0])), t=t, y=y, e=e, p=p)
            return
        info = dict(t=t, y=y, e=e, p=p, zcar=z)
        for th in draws[rng.integers(0, len(draws), 6)]:
            c02.judge(ctx, kind, th, o.getLogDensity(A.vd(th)), o.getLogPrior(A.vd(th)), t, y, e, p, 0, info, None, "long:")
        R = Reference(rng, t, y, e, p, z, draws, 40000)
        ctx.maximum("smallest size of the reference, as 1/ESS", 1 / R.ess)
        if R.ess < 2000:
            ctx.count("reference too small")
            return
        length, runs = (60000, 6) if p == 1 else (40000, 3) if many else (120000, 4)
        diff, se, used = compare(ctx, rng, R, t, y, e, p, z, length, runs, many)
        zs = diff / se
        ctx.ev(len(zs))
        ctx.maximum("largest |z| of one data set", float(np.abs(zs).max()))
        for nm, dd, ss in zip(R.names, diff, se):
            if not nm.startswith("product"):
                a = pool.setdefault((p, z, nm), [0.0, 0.0, 0])
                a[0] += dd
                a[1] += ss * ss
                a[2] += 1
        bad = np.flatnonzero((np.abs(zs) > 6) & (np.abs(diff) > 0.03 * R.fsd))
        for again in range(2):
            if not bad.size:
                break
            ctx.count("compared again")
            r2 = ctx.substream("again%d" % again)
            r2 = r2 if r2 is not None else rng
            d2, s2, used = compare(ctx, rng, R, t, y, e, p, z, 3 * length, runs, many)
            bad = bad[(np.abs(d2[bad] / s2[bad]) > 5) & (np.sign(d2[bad]) == np.sign(diff[bad])) & (np.abs(d2[bad]) > 0.03 * R.fsd[bad])]
        if bad.size:
            j = bad[np.argmax(np.abs(d2[bad] / s2[bad]))]
            ctx.violation("long:" + kind, "draws of %s: %s is %.4f, the density gives %.4f (%.1f standard errors; confirmed by independent runs)"
                          % (kind, R.names[j], R.ref[j] + d2[j], R.ref[j], d2[j] / s2[j]), settings=[list(map(int, u)) for u in used], **info)
        ctx.distinct("long", kind, p, *kk)
        for u in used:
            ctx.distinct("long", kind, p, "settings", u[2], u[3], u[4])
        ctx.sample(dict(kind=kind, p=p, n=len(t), ess=R.ess, largest_z=float(np.abs(zs).max()), mean=R.mean, sd=R.sd, runs=[list(map(int, u)) for u in used]))
    ctx.each(*((16, 80) if many else (36, 150)), case)
    for (p, z, nm), (s, v, c) in pool.items():
        if c >= 3:
            zz = s / np.sqrt(v)
            ctx.ev()
            ctx.maximum("largest |z| over all data sets", abs(zz))
            if abs(zz) > 8 and abs(s / c) > 0.01:
                ctx.violation("long:all", "runs of order %d%s: %s differs by %.4f on average over %d data sets (%.1f standard errors)" % (p, " (ZCAR)" if z else "", nm, s / c, c, zz))


def unit_stationary(ctx):
    """runs without burn-in, started from posterior draws, stay in the posterior"""
    pool = {}

    def case(i, rng):
        p = [1, 2, 3, 1, 2, 4][i % 6]
        z = p > 1 and i % 4 == 1
        t, y, e, kk = data(rng, p)
        kind = "CAR1" if p == 1 else "ZCAR" if z else "CARp"
        o = ctx.call("sampler run", A.run, 2000, 10000, t, y, e, p, 0, 1 if p == 1 else 3, z, 10)
        draws = A.samples(o)
        R = Reference(rng, t, y, e, p, z, draws, 40000)
        if R.ess < 2000:
            ctx.count("reference too small")
            return
        info = dict(t=t, y=y, e=e, p=p, zcar=z)
        ns, thin = int(rng.choice([1, 2, 10, 40])), int(rng.choice([1, 2, 5]))

        def once(M):
            idx = rng.choice(len(R.X), M, p=R.w)
            a = R.X[idx]
            b = np.empty_like(a)
            for k in range(M):
                s = ctx.call("sampler run", A.run, ns, 0, t, y, e, p, 0, 1, z, thin, a[k])
                b[k] = list(s.getSamples()[ns - 1])
            d = R.functions(b) - R.functions(a)
            moved.append(float((a != b).any(axis=1).mean()))
            n_eff = np.maximum((d != 0).sum(axis=0), 1)
            sd = d.std(axis=0, ddof=1)
            # few moves make the normal approximation poor
            zs = np.where((n_eff >= 100) & (sd > 0), d.mean(axis=0) / np.maximum(sd, 1e-300) * np.sqrt(M), 0.0)
            return zs, d.mean(axis=0), sd / np.sqrt(M), n_eff
        moved = []
        zs, m, s, n_eff = once(1500)
        ctx.ev(len(zs))
        ctx.maximum("largest |z| of one data set", float(np.abs(zs).max()))
        for j, nm in enumerate(R.names):
            if n_eff[j] >= 100:
                a = pool.setdefault((min(p, 2), nm.split(" quantile")[0] if nm.startswith("mean") or nm.startswith("square") else nm), [0.0, 0.0, 0])
                a[0] += m[j] / R.fsd[j]
                a[1] += (s[j] / R.fsd[j]) ** 2
                a[2] += 1
        bad = np.flatnonzero(np.abs(zs) > 5.5)
        for again in range(2):
            if not bad.size:
                break
            ctx.count("compared again")
            ctx.substream("again%d" % again)
            z2, m2, s2, _ = once(3000)
            bad = bad[(np.abs(z2[bad]) > 5) & (np.sign(z2[bad]) == np.sign(zs[bad]))]
        if bad.size:
            j = bad[np.argmax(np.abs(z2[bad]))]
            ctx.violation("stationary:" + kind, "%s: %d iterations from exact posterior draws change %s by %.4f (%.1f standard errors; confirmed by independent runs)"
                          % (kind, ns * thin, R.names[j], m2[j], z2[j]), draws=ns, thin=thin, **info)
        ctx.distinct("stationary", kind, p, ns, thin)
        ctx.sample(dict(kind=kind, p=p, n=len(t), iterations=ns * thin, moved=moved[0], largest_z=float(np.abs(zs).max())))
        ctx.maximum("largest share of chains that moved", moved[0])
    ctx.each(36, 240, case)
    for key, (s, v, c) in pool.items():
        if c >= 3:
            ctx.ev()
            ctx.maximum("largest |z| over all data sets", abs(s / np.sqrt(v)))
            if abs(s / np.sqrt(v)) > 8:
                ctx.violation("stationary:all", "%s changes by %.4f standard deviations on average over %d data sets (%.1f standard errors)" % (key, s / c, c, s / np.sqrt(v)))


def unit_reversible(ctx):
    """single updates between points of a box, also for models whose posterior is improper"""
    def case(i, rng):
        p = int(rng.choice([1, 2, 2, 3, 4]))
        q = 0 if p == 1 else int(rng.integers(1, p)) if rng.random() < 0.8 else 0
        t, y, e, kk = data(rng, p)
        n = len(t)
        kind = "CAR1" if p == 1 else "CARp" if q == 0 else "CARMA"
        o = ctx.call("sampler run", A.run, 1, 2000, t, y, e, p, q, 1 if p == 1 else 2, False, 1)
        c = A.samples(o)[-1]
        var = np.var(y)
        s = np.full(3 + p + q, 0.01)
        s[0], s[2] = np.sqrt(2.0 / n) * var, np.sqrt(var / n)
        h = s * np.array([1.5, 2, 1.5] + [2.0] * (p + q))
        h[0] = min(h[0], 0.9 * c[0])
        lo, hi = c - h, c + h
        dens = lambda X: D.logdens(X, t, y, e, p, q, False, 10 * np.std(y))
        info = dict(t=t, y=y, e=e, p=p, q=q, centre=c, half=h)

        def once(M):
            a = lo + (hi - lo) * rng.random((M, len(c)))
            w = dens(a)
            w[np.isnan(w)] = -np.inf
            w = np.exp(w - w.max())
            # start where the density is, by acceptance
            keep = rng.random(M) < w
            a = a[keep]
            b = np.empty_like(a)
            for k in range(len(a)):
                b[k] = list(ctx.call("sampler run", A.run, 1, 0, t, y, e, p, q, 1, False, 1, a[k]).getSamples()[0])
            inn = ((b >= lo) & (b <= hi)).all(axis=1)
            u, v = (a - c) / h, (b - c) / h
            g = [v - u, v ** 2 - u ** 2] + [(v[:, i] * v[:, j] - u[:, i] * u[:, j])[:, None] for i in range(len(c)) for j in range(i)]
            d = np.concatenate(g, axis=1) * inn[:, None]
            k = (d != 0).sum(axis=0)
            sd = np.sqrt((d ** 2).sum(axis=0))
            return np.where((k >= 50) & (sd > 0), d.sum(axis=0) / np.maximum(sd, 1e-300), 0.0), k
        zs, k = once(8000)
        ctx.ev(len(zs))
        ctx.count("updates inside the box", int(k.max()))
        if k.max() < 50:
            ctx.count("too few updates to judge")
            return
        ctx.maximum("largest |z| of one box", float(np.abs(zs).max()))
        bad = np.flatnonzero(np.abs(zs) > 5.5)
        for again in range(2):
            if not bad.size:
                break
            ctx.count("compared again")
            ctx.substream("again%d" % again)
            z2, _ = once(16000)
            bad = bad[(np.abs(z2[bad]) > 5) & (np.sign(z2[bad]) == np.sign(zs[bad]))]
        if bad.size:
            ctx.violation("reversible:" + kind, "%s(%d,%d): single updates inside a box are not balanced, %.1f standard errors (function %d; confirmed by independent runs)"
                          % (kind, p, q, z2[bad[0]], bad[0]), **info)
        ctx.distinct("reversible", kind, p, q, *kk)
        ctx.sample(dict(kind=kind, p=p, q=q, n=n, updates=int(k.max()), largest_z=float(np.abs(zs).max())))
    ctx.each(36, 240, case)


UNITS = [
    dict(name="long", fn=unit_long, shards=3, tshards=3),
    dict(name="tempered", fn=unit_tempered, shards=4, tshards=4),
    dict(name="stationary", fn=unit_stationary, shards=1, tshards=2),
    dict(name="reversible", fn=unit_reversible, shards=1, tshards=1),
]
