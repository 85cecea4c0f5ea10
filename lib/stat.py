"""Sequential statistical monitors whose alarms have a negligible false-alarm probability."""
import numpy as np


class Bernoulli:
    """accepts against their probabilities, in bins of the probability and in total; judge() at the end"""

    def __init__(self, ctx, key, what):
        self.ctx, self.key, self.what = ctx, key, what
        self.s, self.n = {}, 0

    def add(self, prob, hit, group="", **data):
        """prob, hit: arrays; certain outcomes are judged at once"""
        prob, hit = np.atleast_1d(np.asarray(prob, dtype=float)), np.atleast_1d(np.asarray(hit, dtype=bool))
        self.ctx.ev(len(prob))
        self.n += len(prob)
        low = (prob < 2.5e-3) & (prob >= 1e-14)
        if low.any():
            x = self.s.setdefault(("all", "below 0.0025"), np.zeros(4))
            x += hit[low].sum(), prob[low].sum(), (~hit[low]).sum(), (1 - prob[low]).sum()
        sure = prob >= 1
        if not hit[sure].all():
            i = int(np.flatnonzero(sure & ~hit)[0])
            self.ctx.violation(self.key + ":sure", "%s: not done though its probability is 1 (event %d)" % (self.what, i), **data)
        never = prob < 1e-14
        if hit[never].any():
            i = int(np.flatnonzero(never & hit)[0])
            self.ctx.violation(self.key + ":never", "%s: done though its probability is %.3g (event %d)" % (self.what, prob[i], i), **data)
        b = np.searchsorted(EDGES, prob)
        for k in np.unique(b):
            m = (b == k) & ~sure & ~never
            if m.any():
                for g in (("all", int(k)), (group, "any"), (group, int(k))):
                    x = self.s.setdefault(g, np.zeros(4))
                    x += hit[m].sum(), prob[m].sum(), (~hit[m]).sum(), (1 - prob[m]).sum()

    def judge(self, **data):
        for g, (h, mh, f, mf) in self.s.items():
            self.ctx.ev()
            # Chernoff bounds for a sum of independent events, for the events and for their failures
            b = min(chernoff(h, mh), chernoff(f, mf))
            self.ctx.maximum("most extreme -log10 of the bound, " + self.key, -b / np.log(10))
            if b < np.log(1e-14):
                self.ctx.violation(self.key, "%s: happened %d times in %d, %.1f times expected (group %s, probability below 1e%.0f)"
                                   % (self.what, h, h + f, mh, g, b / np.log(10)), **data)


EDGES = np.array([1e-7, 1e-5, 1e-4, 1e-3, 1e-2, 0.05, 0.2, 0.4, 0.6, 0.8, 0.95, 0.99, 0.999])


def chernoff(h, m):
    """log of a bound of the probability to see at least (or at most) h events where m are expected"""
    if m <= 0:
        return 0.0
    return min(0.0, h - m - (h * np.log(h / m) if h > 0 else 0.0))


def ks(ctx, draw, cdf, key, msg, rounds=3, limit=1e-7, **data):
    """draw() gives fresh values; alarm only if the test fails on three independent samples"""
    import scipy.stats as st
    ps = []
    for k in range(rounds):
        if k:
            ctx.substream("ks%d" % k)
        x = np.asarray(draw(), dtype=float)
        ctx.ev()
        if not np.all(np.isfinite(x)):
            ctx.violation(key + ":finite", "%s: non-finite values" % msg, **data)
            return False
        r = st.kstest(x, cdf)
        ps.append(r.pvalue)
        ctx.maximum("largest KS distance*sqrt(n) " + key, r.statistic * np.sqrt(len(x)))
        if r.pvalue > limit:
            return True
    ctx.violation(key, "%s: Kolmogorov-Smirnov p-values %s on independent samples (n=%d, distance %.4f)" % (msg, ["%.2g" % p for p in ps], len(x), r.statistic), **data)
    return False


def moments(ctx, draw, mean, cov, key, msg, rounds=3, limit=1e-7, **data):
    """draw() gives (n,d) Gaussian vectors"""
    import scipy.stats as st
    L = np.linalg.cholesky(cov)
    d = len(mean)
    for k in range(rounds):
        if k:
            ctx.substream("mom%d" % k)
        Z = np.linalg.solve(L, (np.asarray(draw()) - mean).T)
        n = Z.shape[1]
        C = Z @ Z.T
        ps = [2 * min(st.chi2.cdf(C[j, j], n), st.chi2.sf(C[j, j], n)) for j in range(d)]
        ps += [2 * st.norm.sf(abs(Z[j].mean()) * np.sqrt(n)) for j in range(d)]
        ps += [2 * st.norm.sf(abs(C[i, j]) / np.sqrt(n)) for i in range(d) for j in range(i)]
        ctx.ev()
        if min(ps) > limit / len(ps):
            return True
    ctx.violation(key, "%s: second moments of the whitened draws %s, means %s (three independent samples)" % (msg, np.round(C / n, 3).tolist(), np.round(Z.mean(axis=1), 3).tolist()), **data)
    return False
