import os
import tempfile
import numpy as np
from lib import vx, stat

LEVEL = "exploration"
RULE = ("one case = one distribution with one parameter set (alone or interleaved with others), or one history of draws with seed setting, saving and recovering; "
        "distinct by unit, distribution, parameter decade")
ASSUMPTIONS = ["distribution tests alarm only when three independent samples fail at 1e-7",
               "mtdist, beta and weibull are documented as not implemented and are not judged; scaled_inverse_chisqr means the standard density (its comment has a typing error)"]

NAMES = ["exp", "normal", "lognormal", "uniform", "uniformint", "powerlaw", "tdist", "chisqr", "sichisqr", "gamma", "invgamma"]


def cdf_of(k, par):
    """transformation of a variate to a uniform one; NaN outside of the support"""
    import scipy.stats as st
    if k == "exp":
        return lambda x: -np.expm1(-par[0] * x)
    if k == "normal":
        return lambda x: st.norm.cdf((x - par[0]) / par[1])
    if k == "lognormal":
        return lambda x: st.norm.cdf((np.log(x) - par[0]) / par[1])
    if k == "uniform":
        lo, hi = par
        return lambda x: np.where((x < lo) | (x > hi), np.nan, (x - lo) / (hi - lo))
    if k == "powerlaw":
        lo, hi, s = par

        def cdf(x):
            a = s + 1
            with np.errstate(all="ignore"):
                if a == 0:
                    u = np.log(x / lo) / np.log(hi / lo)
                elif a > 0:
                    u = ((x / hi) ** a - (lo / hi) ** a) / (1 - (lo / hi) ** a)
                else:
                    u = ((x / lo) ** a - 1) / ((hi / lo) ** a - 1)
            ok = (x >= lo * (1 - 1e-9)) & (x <= hi * (1 + 1e-9))
            return np.where(ok, np.clip(u, 0, 1), np.nan)
        return cdf
    if k == "tdist":
        return lambda x: st.t.cdf((x - par[1]) / par[2], par[0])
    if k == "chisqr":
        return lambda x: st.chi2.cdf(x, par[0])
    if k == "sichisqr":
        return lambda x: st.chi2.sf(par[0] * par[1] / x, par[0])
    if k == "gamma":
        return lambda x: st.gamma.cdf(x / par[1], par[0])
    if k == "invgamma":
        return lambda x: st.gamma.sf(par[1] / x, par[0])
    return None


def pars(rng, k):
    sc = float(10 ** rng.uniform(-8, 8)) if rng.random() < 0.3 else float(np.exp(rng.uniform(-2, 2)))
    loc = float(rng.normal() * sc * 3)
    if k == "exp":
        return (sc,)
    if k == "normal":
        return (loc, sc)
    if k == "lognormal":
        return float(rng.normal() * 3), float(np.exp(rng.uniform(-3, 1)))
    if k == "uniform":
        return (loc, loc + sc)
    if k == "uniformint":
        a = int(rng.integers(-50, 50)) if rng.random() < 0.7 else int(rng.integers(-10 ** 6, 10 ** 6))
        return (a, a + int(rng.choice([0, 1, 2, 5, 9, 30, 80, 300, 1500, 100000, 10 ** 9])))
    if k == "powerlaw":
        lo = sc
        hi = lo * float(np.exp(rng.uniform(0.05, 8)))
        s = float(rng.choice([-0.5, -1.0, 0.0, 1.0, -2.0, -0.999, -1.0001, 3.0, -4.0, 30.0, -40.0, round(rng.uniform(-5, 5), 2)]))
        if s > -0.9 and rng.random() < 0.1:
            lo = 0.0
        return (lo, hi, s)
    if k == "tdist":
        nu = float(rng.choice([1.0, 2.0, 3.5, 8.0, 30.0, round(float(np.exp(rng.uniform(-0.5, 4))), 3)]))
        return (nu, loc, sc)
    d = int(rng.integers(1, 60)) if rng.random() < 0.7 else int(np.exp(rng.uniform(np.log(60), np.log(2000))))
    if k == "chisqr":
        return (d,)
    if k == "sichisqr":
        return (d, sc)
    return float(np.exp(rng.uniform(-3.5, 5))), sc


def params(rng, k):
    """parameters and a transformation to a uniform variate"""
    par = pars(rng, k)
    return par, cdf_of(k, par)


def varied(rng, k, par):
    """the same distribution with one parameter changed"""
    for _ in range(50):
        other = pars(rng, k)
        new = list(par)
        j = int(rng.integers(0, len(par)))
        new[j] = other[j]
        if k in ("uniform", "powerlaw") and not new[0] < new[1] * (1 - 1e-6 * np.sign(new[1])):
            continue
        if k == "powerlaw" and (new[0] == 0 and new[2] <= -0.9 or new[0] and new[1] / new[0] > 1e6):
            continue
        if k in ("normal", "tdist") and new[-1] < 1e-6 * abs(new[-2]):
            continue        # the spacing of the floating point numbers would show
        return tuple(new)
    return pars(rng, k)


def uniformity(ctx, draw, key, msg, n, **data):
    """draw() gives variates that should be uniform on [0,1]; shape by KS and by a finer test of both tails"""
    import scipy.stats as st
    last = None
    for k in range(3):
        if k:
            ctx.substream("u%d" % k)
        u = np.asarray(draw(), dtype=float)
        ctx.ev()
        if not np.all(np.isfinite(u)):
            ctx.violation(key + ":support", "%s: %d of %d values are outside the support or not finite" % (msg, int((~np.isfinite(u)).sum()), len(u)), **data)
            return
        ps = [st.kstest(u, "uniform").pvalue]
        tail = [x for x in (1e-5, 3e-5, 1e-4, 3e-4, 1e-3, 3e-3, 1e-2) if x * len(u) >= 8]
        bins = np.concatenate([[0], tail, np.linspace(0.05, 0.95, 19), 1 - np.array(tail[::-1]), [1.0]])
        h, w = np.histogram(u, bins=bins)[0], np.diff(bins)
        ps.append(st.chisquare(h, w * len(u)).pvalue)
        # no value comes back again and again
        v, c = np.unique(u, return_counts=True)
        inner = (v > 1e-12) & (v < 1 - 1e-9)
        if inner.any() and c[inner].max() > 12:
            ps.append(0.0)
        # dependence between neighbours in the stream
        r = np.corrcoef(u[:-1], u[1:])[0, 1] * np.sqrt(len(u))
        ps.append(2 * st.norm.sf(abs(r)))
        ctx.maximum("most extreme -log10 p, " + key, -np.log10(max(min(ps), 1e-300)))
        if min(ps) > 1e-7:
            return
        last = ps
    ctx.violation(key, "%s: p-values (shape, histogram, lag-one correlation) %s on the last of three independent samples of %d" % (msg, ["%.2g" % p for p in last], n), **data)


def unit_alone(ctx):
    def case(i, rng):
        k = NAMES[i % len(NAMES)]
        par, cdf = params(rng, k)
        n = 10000
        data = dict(distribution=k, parameters=par)
        if k == "uniformint":
            a, b = par
            x = ctx.call(k, vx.rng, k, n, *par)
            ctx.check(np.all((x >= a) & (x <= b) & (x == np.round(x))), "alone:uniformint:support", "integer outside [%d, %d]" % (a, b), **data)
            if b - a > 200:
                x = np.concatenate([x, ctx.call(k, vx.rng, k, 190000, *par)])
            m = len(x)
            if b - a <= 3000:
                c = np.bincount((x - a).astype(int), minlength=b - a + 1)
            else:
                c = np.bincount(((x - a) * 1000 / (b - a + 1.0)).astype(int), minlength=1000)
            e = m / float(len(c)) * np.ones(len(c))
            if b - a > 3000:
                w = np.diff(np.ceil(np.arange(1001) * (b - a + 1.0) / 1000))
                e = m * w / (b - a + 1.0)
            if b - a > 200:
                h = int((x.astype(np.int64) % 2).sum())
                lo = m * 0.5 * (1 - 1.0 / (b - a))
                ctx.check(min(stat.chernoff(h, lo), stat.chernoff(m - h, lo)) > np.log(1e-15), "alone:uniformint", "%d of %d integers from %d to %d are odd" % (h, m, a, b), **data)
            worst = min(stat.chernoff(h, v) for h, v in zip(c, e)) if b > a else 0.0
            j = int(np.argmin([stat.chernoff(h, v) for h, v in zip(c, e)]))
            ctx.ev(len(c))
            ctx.check(worst > np.log(1e-15), "alone:uniformint", "cell %d of %d of the integers %d to %d has %d of %d draws, %.1f expected" % (j, len(c), a, b, c[j], m, e[j]), **data)
        else:
            def draw():
                return cdf(ctx.call(k, vx.rng, k, n, *par))
            uniformity(ctx, draw, "alone:" + k, "%s%r" % (k, par), n, **data)
        ctx.count("variates", n)
        ctx.distinct("alone", k, *[int(np.floor(np.log10(abs(p)))) if p else 0 for p in par])
        ctx.sample(data)
    ctx.each(660, 8000, case)


def unit_interleaved(ctx):
    """several distributions in random order, the parameters changing too"""
    def case(i, rng):
        kinds = [str(k) for k in rng.choice([k for k in NAMES if k != "uniformint"], 4)]
        sets = [(k,) + params(rng, k) for k in kinds]
        if i % 2:
            # one distribution with parameters that differ in one place
            k, par = sets[0][0], sets[0][1]
            sets[1] = (k,) + (lambda v: (v, cdf_of(k, v)))(varied(rng, k, par))
            if i % 4 == 1:
                sets[2] = (k,) + (lambda v: (v, cdf_of(k, v)))(varied(rng, k, sets[1][1]))
            kinds = [s[0] for s in sets]
        n = 6000

        def stream():
            g = np.random.default_rng(int(ctx.rng.integers(1 << 60)))
            out = [[] for _ in sets]
            prev = []
            for j in g.integers(0, 4, n):
                k, par, cdf = sets[j]
                m = int(g.integers(1, 4))
                if g.random() < 0.1:
                    vx.mvn(np.array([[2.0, 0.3], [0.3, 1.0]]), 1)
                out[j] += vx.rng(k, m, *par).tolist()
            return [np.asarray(s[2](np.array(o))) for s, o in zip(sets, out)]
        cache = {}

        for j, (k, par, cdf) in enumerate(sets):
            def draw(j=j):
                if "first" not in cache:
                    cache["first"] = stream()
                    return cache["first"][j]
                if j in cache.setdefault("used", set()):
                    return stream()[j]
                cache["used"].add(j)
                return cache["first"][j]
            if j == 0:
                cache.setdefault("used", set()).add(0)
            uniformity(ctx, draw, "interleaved:" + k, "%s%r drawn among %s" % (k, par, kinds), n, distribution=k, parameters=par, among=[(s[0], s[1]) for s in sets])
        ctx.distinct("interleaved", *sorted(kinds))
    ctx.each(60, 800, case)


def unit_precise(ctx):
    """large samples: small departures, and parameters far from the usual ones"""
    def case(i, rng):
        k, par = [("tdist", (35.0, 0.0, 1.0)), ("tdist", (100.0, 2.0, 3.0)), ("tdist", (2.5, 0.0, 1.0)), ("normal", (1.0, 2.0)), ("lognormal", (0.3, 0.8)), ("gamma", (0.6, 2.0)),
                  ("gamma", (40.0, 0.5)), ("chisqr", (3,)), ("chisqr", (150,)), ("chisqr", (600,)), ("chisqr", (1500,)), ("gamma", (300.0, 0.2)), ("gamma", (0.06, 1.0)), ("sichisqr", (50, 1.0)), ("sichisqr", (300, 2.0)), ("invgamma", (3.0, 1.5)), ("exp", (0.7,)),
                  ("uniform", (-2.0, 5.0)), ("powerlaw", (1.0, 50.0, -1.7)), ("powerlaw", (0.5, 9.0, -1.0)),
                  ("powerlaw", (1.0, 1e6, -0.992)), ("powerlaw", (0.1, 3e4, -1.006))][i % 22]
        if i >= 22:
            par = pars(rng, k)
        n = 400000
        cdf = cdf_of(k, par)
        uniformity(ctx, lambda: cdf(ctx.call(k, vx.rng, k, n, *par)), "precise:" + k, "%s%r" % (k, par), n, distribution=k, parameters=par)
        ctx.distinct("precise", k, *par)
    ctx.each(22, 160, case)


def unit_degenerate(ctx):
    """zero widths and single points"""
    def case(i, rng):
        m = float(rng.normal() * 10 ** rng.uniform(-3, 3))
        play(mix(rng, int(rng.integers(0, 6))))
        j = int(rng.integers(-1000, 1000))
        for k, par, want in (("normal", (m, 0.0), m), ("lognormal", (np.clip(m, -50, 50), 0.0), np.exp(np.clip(m, -50, 50))), ("uniformint", (j, j), j)):
            x = ctx.call(k, vx.rng, k, 5, *par)
            ctx.close(x, np.full(5, want), 1e-12 * abs(want), "degenerate:" + k, "%s%r" % (k, par), distribution=k, parameters=par)
            ctx.distinct("degenerate", k, i % 20)
            play(mix(rng, 1))
    ctx.each(100, 1000, case)


def unit_mvn(ctx):
    def case(i, rng):
        d = int(rng.integers(1, 8))
        M = rng.normal(size=(d, d))
        s = np.exp(rng.uniform(-5, 5, d))
        C = (M @ M.T / d + 0.1 * np.eye(d)) * np.outer(s, s)
        via = i % 2
        start = rng.normal(size=d) * s
        n = 4000

        def draw():
            if via:
                return ctx.call("MultiNormalProposal", vx.prop_mvn, C, start, n) - start
            return ctx.call("normal(covar)", vx.mvn, C, n)
        stat.moments(ctx, draw, np.zeros(d), C, "mvn", "multivariate normal draws", covar=C, start=start, proposal=bool(via))
        import scipy.stats as st
        L = np.linalg.cholesky(C)
        stat.ks(ctx, lambda: np.linalg.solve(L, draw().T).ravel(), st.norm.cdf, "mvn:shape", "whitened multivariate normal draws", cov=C)
        ctx.distinct("mvn", d, via, i % 40)
    ctx.each(120, 1500, case)


def unit_kernels(ctx):
    import scipy.stats as st

    def case(i, rng):
        k = i % 3
        a = float(np.exp(rng.uniform(-2, 2))) if k != 1 else float(rng.choice([1.0, 3.0, 8.0, 20.0]))
        b = float(np.exp(rng.uniform(-3, 3)))
        s = float(rng.normal() * 3) if k < 2 else float(np.exp(rng.normal()))
        f = [lambda x: st.norm.cdf((x - s) / a), lambda x: st.t.cdf((x - s) / b, a), lambda x: st.norm.cdf(np.log(x / s) / a)][k]
        uniformity(ctx, lambda: f(ctx.call("proposal", vx.prop, k, a, b, s, 8000)), "kernels:" + ["normal", "student", "lognormal"][k], "proposal kernel", 8000, kernel=k, a=a, b=b, start=s)
        ctx.distinct("kernel", k, a)
    ctx.each(90, 1000, case)


def mix(rng, m):
    """a list of calls"""
    out = []
    for _ in range(m):
        k = str(rng.choice(NAMES + ["mvn"]))
        if k == "mvn":
            out.append(("mvn", int(rng.integers(1, 4)), None))
        else:
            out.append((k, int(rng.integers(1, 5)), params(rng, k)[0]))
    return out


def play(calls):
    res = [np.empty(0)]
    for k, n, par in calls:
        res.append(vx.mvn(np.eye(n) + 0.2, 1).ravel() if k == "mvn" else vx.rng(k, n, *par))
    return np.concatenate(res)


def unit_state(ctx):
    def case(i, rng):
        s = int(rng.integers(0, 1 << 32))
        A, J, K = mix(rng, int(rng.integers(1, 12))), mix(rng, int(rng.integers(1, 12))), mix(rng, int(rng.integers(0, 5)))
        data = dict(seed=s, calls=[str(c) for c in A], before=[str(c) for c in J])
        # same seed, different histories before it
        vx.setseed(s)
        a = ctx.call("draws", play, A)
        ctx.call("draws", play, J)
        vx.setseed(s)
        b = ctx.call("draws", play, A)
        ctx.check(np.array_equal(a, b), "state:seed", "the stream after setting seed %d depends on the draws before" % s, **data)
        vx.setseed(s + 1 if s + 1 < (1 << 32) else 0)
        c = play(A)
        cont = np.array([k not in ("uniformint",) for k, _, _ in A]).any()
        if cont:
            ctx.check(not np.array_equal(a, c), "state:distinct", "two seeds give the same stream", **data)
            vx.setseed(s ^ (1 << int(rng.integers(0, 32))))
            ctx.check(not np.array_equal(a, play(A)), "state:distinct", "two seeds give the same stream", **data)
        # save and recover
        with tempfile.TemporaryDirectory() as d:
            f1, f2 = os.path.join(d, "one"), os.path.join(d, "two.txt")
            play(K)
            vx.save(f1)
            x1 = play(A)
            vx.save(f2)
            x2 = play(J)
            ctx.check(os.path.exists(f1) and os.path.getsize(f1) > 0, "state:file", "no state was written", **data)
            for f, calls, want in ([(f1, A, x1), (f2, J, x2)] if rng.random() < .5 else [(f2, J, x2), (f1, A, x1), (f2, J, x2)]):
                play(mix(rng, 4))
                vx.recover(f)
                got = play(calls)
                ctx.check(np.array_equal(got, want), "state:recover", "the stream after recovering a saved state is not the one after saving it", **data)
            # saving does not disturb the stream
            vx.setseed(s)
            half = len(A) // 2
            y1 = play(A[:half]) if half else np.empty(0)
            vx.save(f1)
            y2 = play(A[half:])
            ctx.check(np.array_equal(np.concatenate([y1, y2]), a), "state:save", "saving the state changed the stream", **data)
        ctx.count("save and recover points", 3)
        ctx.distinct("state", *[c[0] for c in A])
    ctx.each(400, 6000, case)


def unit_pairs(ctx):
    """consecutive variates of two distributions are independent"""
    import scipy.stats as st
    cont = [k for k in NAMES if k != "uniformint"]

    def case(i, rng):
        k1, k2 = cont[i % len(cont)], cont[(i // len(cont)) % len(cont)]
        (p1, c1), (p2, c2) = params(rng, k1), params(rng, k2)
        n = 3000
        bad = []
        for rep in range(3):
            if rep:
                ctx.substream("p%d" % rep)
            x = np.array([(vx.rng(k1, 1, *p1)[0], vx.rng(k2, 1, *p2)[0]) for _ in range(n)])
            u, v = np.asarray(c1(x[:, 0])), np.asarray(c2(x[:, 1]))
            ctx.ev()
            ps = []
            for a, b in ((u, v), (v[:-1], u[1:]), (u[:-1], u[1:]), (v[:-1], v[1:])):
                r = np.corrcoef(a, b)[0, 1] * np.sqrt(len(a))
                r2 = np.corrcoef(np.abs(a - .5), np.abs(b - .5))[0, 1] * np.sqrt(len(a))
                ps += [2 * st.norm.sf(abs(r)), 2 * st.norm.sf(abs(r2))]
            if min(ps) > 1e-7:
                break
            bad = ps
        else:
            ctx.violation("pairs", "successive variates of %s%r and %s%r are correlated: p-values %s" % (k1, p1, k2, p2, ["%.2g" % p for p in bad]), first=k1, second=k2)
        ctx.distinct("pairs", k1, k2)
    ctx.each(100, 1000, case)


UNITS = [dict(name="alone", fn=unit_alone, shards=2, weight=2), dict(name="interleaved", fn=unit_interleaved, shards=2, weight=2), dict(name="mvn", fn=unit_mvn, shards=1),
         dict(name="kernels", fn=unit_kernels, shards=1), dict(name="state", fn=unit_state, shards=1), dict(name="pairs", fn=unit_pairs, shards=1),
         dict(name="precise", fn=unit_precise, shards=2, weight=2), dict(name="degenerate", fn=unit_degenerate, shards=1)]
