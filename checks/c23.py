import contextlib
import io
import re
import numpy as np
from lib import oracle as O, gen as G, api as A, fake as F
from checks import c02

LEVEL = "exploration"
RULE = "one case = one sample object and one accessor, summary, prediction, simulation or diagnostic; distinct by unit, orders, kind of estimate, number of draws and data"
ASSUMPTIONS = ["median and mean estimates are taken quantity by quantity (noise amplitude, mean, roots, MA coefficients); not judged where draws mix real and complex "
               "roots in one factor, for which they are not defined", "the error bars are used as given, not rescaled",
               "the missing third-party autocorrelation routine is replaced by an estimator of ours"]
FLOAT = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|[-+]?nan|[-+]?inf")


def make(ctx, rng, n=None, p=None, N=None, ekind=None, same_kind=True):
    p = p or int(rng.choice([1, 1, 2, 2, 3, 4]))
    q = int(rng.integers(0, p))
    n = n or int(rng.choice([5, 20, 40, 60]))
    t, y, e, kinds = c02.dataset(rng, n, min(p, 3), 0)
    if ekind:
        e, _ = G.errors(rng, n, np.std(y), ekind)
    N = N or int(rng.choice([1, 2, 5, 8, 21]))
    for _ in range(200):
        b = None
        while b is None:
            b = G.support_theta(rng, t, y, p, q)
        th = b + np.concatenate([[0.0, 0.0, 0.0], np.full(p + q, 0.15)]) * rng.normal(size=(N, 3 + p + q))
        th[:, 0] *= np.exp(0.3 * rng.normal(size=N))
        th[:, 1] *= np.exp(0.1 * rng.normal(size=N))
        th[:, 2] += 0.3 * np.std(y) * rng.normal(size=N)
        if p == 1:
            break
        im = np.array([O.decode(x, p, q)[3].imag != 0 for x in th])
        if not same_kind or (im == im[0]).all():
            break
    lp = rng.permutation(N) * 1.37 - 40 + 0.1 * rng.random(N)
    s, m = ctx.call("sample object", F.sample, t, y, e, p, q, th, lp)
    return s, dict(p=p, q=q, t=t, y=y, e=e, theta=th, logpost=lp)


def estimates(d, how):
    """list of (s2, roots, ma, mu) that the estimate may be"""
    p, q, th = d["p"], d["q"], d["theta"]
    if p == 1:
        w = np.exp(th[:, 3])
        sig = np.sqrt(2 * w) * th[:, 0]
        one = lambda i: (sig[i] ** 2, np.array([-w[i]]), np.array([1.0]), th[i, 2])
        if how == "median":
            return [(np.median(sig) ** 2, np.array([-np.exp(np.median(th[:, 3]))]), np.array([1.0]), np.median(th[:, 2]))]
        if how == "mean":
            return [(np.mean(sig ** 2), np.array([-np.exp(np.mean(th[:, 3]))]), np.array([1.0]), np.mean(th[:, 2]))]
    else:
        dec = [O.decode(x, p, q) for x in th]
        R = np.array([x[3] for x in dec])
        M = np.array([x[4] for x in dec])
        sig = np.array([np.sqrt(float(O.sigsqr_of(x[0], x[3], x[4]))) for x in dec])
        one = lambda i: (sig[i] ** 2, R[i], M[i], th[i, 2])
        if how in ("median", "mean"):
            f = np.median if how == "median" else np.mean
            r = f(R, axis=0)
            return [(np.median(sig) ** 2 if how == "median" else np.mean(sig ** 2), r, f(M, axis=0), f(th[:, 2]))]
    if how == "map":
        return [one(int(np.argmax(d["logpost"])))]
    return [one(i) for i in range(len(th))]


def usable(d, how):
    if d["p"] == 1 or how in ("map", "random"):
        return True
    im = np.array([O.decode(x, d["p"], d["q"])[3].imag != 0 for x in d["theta"]])
    if not (im == im[0]).all():
        return False
    if how == "median":
        # a median of complex numbers takes the draw in the middle by real part; with an even number the two middle ones: both columns of a pair agree
        return True
    return True


def tolerance(d, est):
    s2, r, ma, mu = est
    rel, small = O.judge_tol(d["t"], d["e"], s2, r, ma)
    return rel if np.isfinite(rel) and rel < 1e-5 else None


def unit_access(ctx):
    def case(i, rng):
        s, d = make(ctx, rng)
        names = list(s.parameters) if hasattr(s, "parameters") else ["var", "mu"]
        for k in names:
            a = s.get_samples(k)
            b = a.copy()
            ctx.check(np.array_equal(s.get_samples(k), b, equal_nan=True), "access:repeat", "two reads of %s differ" % k, p=d["p"])
            a[...] = -77.25
            ctx.check(np.array_equal(s.get_samples(k), b, equal_nan=True), "access:copy", "writing into the returned array changed the samples of %s" % k, p=d["p"])
        th = d["theta"]
        ctx.close(s.get_samples("var").ravel(), th[:, 0] ** 2, 1e-12 * th[:, 0] ** 2, "access:var", "variance draws", **d)
        ctx.close(s.get_samples("measerr_scale").ravel(), th[:, 1], 0, "access:scale", "error-scale draws", **d)
        ctx.close(s.get_samples("mu").ravel(), th[:, 2], 0, "access:mu", "mean draws", **d)
        ctx.close(s.get_samples("logpost").ravel(), d["logpost"], 0, "access:logpost", "log-posterior draws", **d)
        # DIC
        ll = s.get_samples("loglik").ravel()
        dev = -2 * ll
        want = dev.mean() + 0.5 * np.mean((dev - dev.mean()) ** 2)
        got = ctx.call("DIC", s.DIC)
        ctx.close(np.ravel(got), [want], 1e-10 * (np.abs(dev).max() + abs(want)), "dic", "deviance information criterion", loglik=ll, p=d["p"], q=d["q"])
        ctx.distinct("access", d["p"], d["q"], len(th))
        ctx.sample(dict(p=d["p"], q=d["q"], draws=len(th), DIC=float(np.ravel(got)[0])))
    ctx.each(150, 1500, case)


def unit_summary(ctx):
    from lib import stubs

    def case(i, rng):
        s, d = make(ctx, rng, N=int(rng.choice([8, 21, 60, 200])), n=int(rng.choice([5, 20])))
        names = [k for k in s.parameters if not np.iscomplexobj(s.get_samples(k))]
        for k in names:
            x = s.get_samples(k)
            out = io.StringIO()
            with contextlib.redirect_stdout(out), np.printoptions(precision=16):
                ctx.call("posterior_summaries", s.posterior_summaries, k)
            x = x.reshape(len(x), -1)
            lines = out.getvalue().splitlines()
            vals = {w: [] for w in ("edian", "tandard dev", "68", "95", "99")}
            joined = re.sub(r"\n(?=[^A-Za-z0-9]*[-+]?[\d.])(?![^\n]*:)", " ", out.getvalue())   # arrays printed over two lines
            for l in joined.splitlines():
                for w in vals:
                    m = re.match(r"^\W*\w?%s[^:=]*[:=](.*)$" % re.escape(w), l.strip())
                    if m:
                        vals[w].append([float(v) for v in FLOAT.findall(m.group(1))])
            if any(len(v) != x.shape[1] for v in vals.values()):
                ctx.check(False, "summary:lines", "summary of %s does not give median, standard deviation and three intervals for %d elements: %r"
                          % (k, x.shape[1], lines[:8]), p=d["p"])
                continue
            for j in range(x.shape[1]):
                c = x[:, j]
                sc = 1e-6 * np.abs(c).max() + 1e-300
                data = dict(name=k, element=j, draws=c)
                ctx.close(vals["edian"][j], [np.median(c)], sc, "summary:median", "median of %s" % k, **data)
                # the two usual normalisations
                sd = vals["tandard dev"][j]
                ctx.check(len(sd) == 1 and min(abs(sd[0] - np.std(c)), abs(sd[0] - np.std(c, ddof=1))) <= sc, "summary:std", "standard deviation of %s printed as %s" % (k, sd), **data)
                for w, lo in (("68", 16.0), ("95", 2.5), ("99", 0.5)):
                    ctx.close(vals[w][j], np.percentile(c, (lo, 100 - lo)), sc, "summary:" + w, "%s per cent interval of %s" % (w, k), **data)
            with contextlib.redirect_stdout(io.StringIO()):
                neff = ctx.call("effective_samples", s.effective_samples, k)
            want = [len(x) / stubs.acor(x[:, j])[0] for j in range(x.shape[1])]
            ctx.close(np.ravel(neff), want, 1e-9 * np.abs(want), "summary:neff", "effective number of samples of %s" % k, name=k)
        ctx.distinct("summary", d["p"], d["q"], len(d["theta"]))
        ctx.sample(dict(p=d["p"], q=d["q"], draws=len(d["theta"]), printed=lines[:8]))
    ctx.each(40, 400, case)


HOW = ["map", "median", "mean", "random"]


def spelled(rng, how):
    return str(rng.choice([how, how, how.upper(), how.capitalize()]))


def unit_predict(ctx):
    def case(i, rng):
        how = HOW[i % 4]
        s, d = make(ctx, rng, N=int(rng.choice([3, 4, 33])) if how == "random" else 260 if i % 7 == 0 else None)
        if not usable(d, how):
            ctx.count("estimate not defined")
            return
        t, y = d["t"], d["y"]
        span = t[-1] - t[0]
        ts = np.concatenate([rng.uniform(t[0], t[-1], 3), t[rng.integers(0, len(t), 1)], [t[0] - 0.3 * span, t[-1] + 0.3 * span]])
        rng.shuffle(ts)
        ests = estimates(d, how)
        data = dict(d, how=how, at=ts)
        ref = []
        for est in ests:
            rel = tolerance(d, est)
            if rel is None:
                ctx.count("too ill-conditioned to judge")
                return
            s2, r, ma, mu = est
            m, S = O.conditional(t, y - mu, d["e"], s2, r, ma, ts)
            R0 = float(O.acv(s2, r, ma, 0.0))
            scale = np.abs(y - mu).max() + np.sqrt(R0)
            ref.append((np.array(m, dtype=float) + mu, np.array(np.diag(S), dtype=float), max(rel * 100, 1e-8) * scale, max(rel * 100, 1e-8) * R0))
        if max(x[2] for x in ref) > 1e-3 * np.std(y):
            ctx.count("too ill-conditioned to judge")
            return
        hits = set()
        calls = (60 if len(ref) < 10 else 100) if how == "random" else 1
        for k in range(calls):
            if k == 0 or how == "random" and k % 2:
                gm, gv = ctx.call("predict", s.predict, ts, bestfit=spelled(rng, how))
            else:
                gm, gv = (np.array(x) for x in zip(*[ctx.call("predict", s.predict, float(x), bestfit=how) for x in ts])) if how != "random" else \
                    ctx.call("predict", s.predict, ts, bestfit=how)
            e = [max(np.max(np.abs(gm - m) / tm), np.max(np.abs(gv - v) / tv)) for m, v, tm, tv in ref]
            b = int(np.argmin(e))
            ctx.ev()
            ctx.maximum("err/tol predict", e[b])
            if not e[b] <= 1:
                ctx.violation("predict:" + how, "prediction is not that of the %s estimate: mean %r, variance %r, expected %r, %r"
                              % (how, gm[0], gv[0], ref[b][0][0], ref[b][1][0]), **data)
                return
            hits.add(b)
        if how == "random":
            dif = {tuple(np.round(x[0] / x[2]).tolist()) for x in ref}
            if len(ref) > 10:
                # every third of the draws is used
                for a in range(3):
                    blk = range(a * len(ref) // 3, (a + 1) * len(ref) // 3)
                    if len(dif) == len(ref):
                        ctx.check(any(h in blk for h in hits), "predict:random-choice", "%d random estimates used none of the draws %d to %d of %d" % (calls, blk[0], blk[-1], len(ref)), **data)
            elif len(dif) == len(ref):
                ctx.check(len(hits) == len(ref), "predict:random-choice", "60 random estimates used only the draws %s of %d" % (sorted(hits), len(ref)), **data)
        else:
            one = ctx.call("predict", s.predict, float(ts[0]), bestfit=how)
            ctx.close([float(one[0]), float(one[1])], [gm[0], gv[0]], 1e-12 * np.abs([gm[0], gv[0]]) + 1e-300, "predict:scalar", "prediction at one time", **data)
            if how == "map":
                gm2, gv2 = ctx.call("predict", s.predict, ts)
                ctx.check(np.array_equal(gm2, gm) and np.array_equal(gv2, gv), "predict:default", "the default estimate is not the best posterior draw", **data)
        ctx.distinct("predict", d["p"], d["q"], how, len(d["theta"]), len(t))
        ctx.sample(dict(p=d["p"], q=d["q"], how=how, mean=float(gm[0]), expected=float(ref[b][0][0])))
    ctx.each(400, 4000, case)


def unit_simulate(ctx):
    import scipy.stats as st

    def case(i, rng):
        how = HOW[i % 4]
        s, d = make(ctx, rng, n=int(rng.choice([5, 20])), N=1 if how == "random" else 5, ekind=str(rng.choice(["uniform", "hetero", "zero"])))
        if not usable(d, how):
            ctx.count("estimate not defined")
            return
        est = estimates(d, how)[0]
        s2, r, ma, mu = est
        if tolerance(d, est) is None:
            ctx.count("too ill-conditioned to judge")
            return
        t, y = d["t"], d["y"]
        span = t[-1] - t[0]
        ts = np.sort(np.array([rng.uniform(t[0], t[-1]), t[-1] + rng.uniform(0.1, 0.5) * span, t[0] - rng.uniform(0.1, 0.5) * span]))
        if rng.random() < 0.5:
            rng.shuffle(ts)
        m, S = O.conditional(t, y - mu, d["e"], s2, r, ma, ts)
        m, S = np.array(m, dtype=float) + mu, np.array(S, dtype=float)
        if np.linalg.cond(S) > 1e8:
            ctx.count("too ill-conditioned to judge")
            return
        L = np.linalg.cholesky(S)
        bad, k = 0, 400
        for rnd in range(3):
            if rnd:
                ctx.substream("again%d" % rnd)
            Z = []
            for _ in range(k):
                v = np.asarray(ctx.call("simulate", s.simulate, ts, bestfit=how))
                if v.shape != ts.shape:
                    ctx.check(False, "simulate:shape", "shape %s for %d times" % (v.shape, len(ts)))
                    return
                Z.append(np.linalg.solve(L, v - m))
            Z = np.array(Z)
            pv = [2 * st.norm.sf(abs(Z[:, j].mean()) * np.sqrt(k)) for j in range(3)]
            q = (Z ** 2).sum(axis=0)
            pv += [2 * min(st.chi2.cdf(x, k), st.chi2.sf(x, k)) for x in q]
            pv += [2 * st.norm.sf(abs((Z[:, a] * Z[:, b]).mean()) * np.sqrt(k)) for a, b in ((0, 1), (0, 2), (1, 2))]
            ctx.maximum("simulate: largest |mean|", np.abs(Z.mean(axis=0)).max())
            if min(pv) < 1e-6:
                bad += 1
            else:
                break
        ctx.check(bad < 3, "simulate:" + how, "simulated values do not follow the %s estimate (three independent rounds; last z means %s, variances %s)"
                  % (how, Z.mean(axis=0), Z.var(axis=0)), how=how, at=ts, **d)
        one = np.asarray(ctx.call("simulate", s.simulate, float(ts[0]), bestfit=how))
        ctx.check(one.size == 1 and np.isfinite(one).all(), "simulate:scalar", "simulation at one time gave %r" % one)
        ctx.distinct("simulate", d["p"], d["q"], how, len(t))
    ctx.each(40, 300, case)


def unit_assess(ctx):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    def case(i, rng):
        how = HOW[i % 3]
        s, d = make(ctx, rng, n=int(rng.choice([10, 30, 51, 60])), N=5)
        t, y = d["t"], d["y"]
        if not usable(d, how):
            ctx.count("estimate not defined")
            return
        est = estimates(d, how)[0]
        rel = tolerance(d, est)
        if rel is None:
            ctx.count("too ill-conditioned to judge")
            return
        s2, r, ma, mu = est
        mean, var = O.one_step(t, y - mu, d["e"], s2, r, ma)
        z = np.array((y - mu - mean) / np.sqrt(var), dtype=float)
        tol = 1e-7 * (1 + np.abs(z)) + 100 * rel * np.abs(z).max()
        if tol.max() > 1e-2:
            ctx.count("too ill-conditioned to judge")
            return
        np_ = int(rng.choice([16, 64]))
        fig = ctx.call("assess_fit", s.assess_fit, bestfit=spelled(rng, how), nplot=np_, doShow=False)
        if fig is None or not hasattr(fig, "axes"):
            ctx.check(False, "assess:figure", "no figure returned with doShow=False")
            return
        lines = [l.get_xydata() for ax in fig.axes for l in ax.get_lines()]
        plt.close("all")
        cand = [l for l in lines if l.shape == (len(t), 2) and np.allclose(l[:, 0], t)]
        e = [np.max(np.abs(l[:, 1] - z) / tol) for l in cand]
        ctx.ev()
        if not e or not min(e) <= 1:
            ctx.violation("assess:residuals", "no plotted series over the observation times equals the standardized residuals (best error over tolerance %s)"
                          % (min(e) if e else None), how=how, **d)
        else:
            ctx.maximum("err/tol residuals", min(e))
        # the interpolation is the prediction of the same estimate
        inter = [l for l in lines if l.shape == (np_, 2)]
        if inter:
            l = inter[0]
            gm, gv = s.predict(l[:, 0], bestfit=how)
            ctx.check(any(np.allclose(x[:, 1], s.predict(x[:, 0], bestfit=how)[0], rtol=1e-9, atol=1e-9 * np.abs(y).max()) for x in inter), "assess:interpolation",
                      "the plotted interpolation is not the prediction", how=how, **d)
        ctx.distinct("assess", d["p"], d["q"], how, len(t))
        ctx.sample(dict(p=d["p"], q=d["q"], how=how, residual=float(z[0]), plotted=float(cand[int(np.argmin(e))][0, 1]) if e else None))
    ctx.each(48, 400, case)


UNITS = [dict(name="access", fn=unit_access, shards=1), dict(name="summary", fn=unit_summary, shards=1), dict(name="predict", fn=unit_predict, shards=3, weight=3),
         dict(name="simulate", fn=unit_simulate, shards=2, weight=3), dict(name="assess", fn=unit_assess, shards=4, weight=5)]
