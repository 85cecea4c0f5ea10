import itertools
import numpy as np
from lib import oracle as O, gen as G, api as A, fake as F

LEVEL = "exploration"
RULE = "one case = one spectrum or one posterior band; distinct by unit, orders, kind of frequencies, percentile, sub-sampling, number of draws"
ASSUMPTIONS = ["percentiles are those of numpy (linear interpolation between order statistics)",
               "sample objects are given chosen draws through the object the C++ sampler returns"]


def poly_at(c, x):
    s = np.zeros(len(x), dtype=np.clongdouble)
    for a in c:
        s = s * x + a
    return s


def psd(f, sigma, ar, ma):
    """spectrum and relative error to allow for it (cancellation in the polynomials)"""
    x = 2j * np.pi * np.asarray(f, dtype=np.longdouble)
    a, b = poly_at(ar, x), poly_at(ma[::-1], x)
    ca = poly_at(np.abs(ar), np.abs(x)) / np.abs(a)
    cb = poly_at(np.abs(ma[::-1]), np.abs(x)) / np.abs(b)
    return np.array(sigma ** 2 * np.abs(b) ** 2 / np.abs(a) ** 2, dtype=float), 1e-11 + 1e-14 * np.array((ca + cb).real, dtype=float)


def unit_func(ctx):
    cm = A.cm()

    def case(i, rng):
        p = int(rng.integers(1, 11))
        q = int(rng.integers(0, p))
        rate = 10 ** rng.uniform(-8, 6)
        r, rk = G.roots(rng, p, rate)
        ma = G.ma_coefs(rng, q, rate)
        ar = np.array(O.poly_from_roots(r).real, dtype=float)
        sigma = float(10 ** rng.uniform(-5, 5))
        fk = str(rng.choice(["array", "scalar", "negative", "zero", "wide"]))
        f = rate * 10 ** rng.uniform(-3, 3, 20)
        if fk == "scalar":
            f = float(f[0])
        elif fk == "negative":
            f = -f
        elif fk == "zero":
            f[0] = 0.0
        elif fk == "wide":
            f = rate * 10 ** rng.uniform(-7, 7, 50)
        mk = str(rng.choice(["array", "list", "default"]))
        if mk == "default" and q == 0:
            got = ctx.call("power_spectrum", cm.power_spectrum, f, sigma, ar)
        else:
            got = ctx.call("power_spectrum", cm.power_spectrum, f, sigma, ar, list(ma) if mk == "list" else ma)
        want, tol = psd(np.atleast_1d(f), sigma, ar, ma)
        data = dict(f=f, sigma=sigma, ar=ar, ma=ma, frequencies=fk)
        ctx.check(np.shape(got) == np.shape(f), "func:shape", "shape %r for frequencies of shape %r" % (np.shape(got), np.shape(f)), **data)
        with np.errstate(all="ignore"):
            ok = tol < 1e-3
            ctx.count("frequencies not judged", int((~ok).sum()))
            ctx.close(np.where(ok, np.atleast_1d(got) / want, 1), np.ones(len(want)), np.where(ok, tol, 1), "func", "spectrum over the formula", **data)
        # total power over all frequencies
        if i % 4 == 0:
            k = 1 << 14
            th = (np.arange(k) + 0.5) * np.pi / k - np.pi / 2
            s = rate / (2 * np.pi)
            tot = np.sum(cm.power_spectrum(s * np.tan(th), sigma, ar, ma) * s / np.cos(th) ** 2) * np.pi / k
            var = float(O.acv(sigma ** 2, r, ma, 0.0))
            canc = O.cancellation(sigma ** 2, r, ma)
            if canc < 1e6:
                ctx.close(tot, var, 1e-6 * var, "func:total", "integral of the spectrum", sigma=sigma, ar=ar, ma=ma, roots=r)
        ctx.distinct(p, q, fk, mk, rk)
        ctx.sample(dict(p=p, q=q, f=float(np.atleast_1d(f)[0]), spectrum=float(np.atleast_1d(got)[0]), formula=float(want[0])))
    ctx.each(1200, 12000, case)


def bands(P, percentile):
    lo = (100.0 - percentile) / 2.0
    return np.percentile(P, lo, axis=0), np.percentile(P, 100.0 - lo, axis=0), np.median(P, axis=0)


def spectra(theta, p, q, f):
    P, T = [], []
    for th in theta:
        if p == 1:
            w = np.exp(th[3])
            P.append(2 * th[0] ** 2 * w / (w * w + (2 * np.pi * f) ** 2))
            T.append(np.full(len(f), 1e-10))
            continue
        _, _, _, r, ma = O.decode(th, p, q)
        s2 = float(O.sigsqr_of(th[0], r, ma))
        ar = np.array(O.poly_from_roots(r).real, dtype=float)
        v, tol = psd(f, np.sqrt(s2), ar, ma)
        P.append(v)
        T.append(tol + 1e-13 * O.cancellation(s2, r, ma))
    return np.array(P), np.array(T)


def unit_post(ctx):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    def case(i, rng):
        p = int(rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 9]))
        q = int(rng.integers(0, p))
        n = int(rng.choice([3, 5, 20, 60]))
        d = G.series(rng, n, p=min(p, 3), q=0)
        t = d["t"]
        if rng.random() < 0.2:
            t = np.cumsum(rng.integers(1, 5, n)).astype(float)
        t = t * float(rng.choice([1.0, 1.0, 1e-6, 1e4, 1e8]))
        small = i % 2 == 0
        N = int(rng.integers(2, 8)) if small else int(rng.integers(10, 60)) if rng.random() < 0.8 else int(rng.integers(100, 900))
        th = []
        while len(th) < N:
            x = G.support_theta(rng, t, d["y"], p, q)
            if x is not None:
                th.append(x)
        th = np.array(th)
        if rng.random() < 0.15:
            th[1] = th[0]
        s, m = ctx.call("sample object", F.sample, t, d["y"], d["e"], p, q, th)
        pct = float(rng.choice([68.0, 95.0, 90.0, 50.0, 99.0, 10.0, 100.0, float(rng.uniform(1, 99))]))
        ns = None if rng.random() < 0.5 else int(rng.integers(1, N + 1))
        kw = dict(percentile=pct, nsamples=ns, plot_log=bool(rng.random() < 0.5), doShow=False)
        if pct == 68.0 and rng.random() < 0.7:
            del kw["percentile"]
        sp = None
        if rng.random() < 0.5:
            sp = plt.figure().add_subplot(111)
            kw["sp"] = sp
        before = {k: v.copy() for k, v in s._samples.items()} if hasattr(s, "_samples") else {}
        out = ctx.call("plot_power_spectrum", s.plot_power_spectrum, **kw)
        lo, hi, med, f = (np.asarray(x, dtype=float) for x in out[:4])
        plotted = [l.get_xydata() for l in sp.get_lines()] if sp is not None else []
        plt.close("all")
        data = dict(t=t, theta=th, p=p, q=q, percentile=pct, nsamples=ns)
        for k, v in before.items():
            ctx.check(np.array_equal(v, s._samples[k], equal_nan=True), "post:modified", "samples of %s changed" % k, **data)
        # the grid
        nf = len(f)
        ctx.check(nf >= 2 and f.ndim == 1 and lo.shape == hi.shape == med.shape == f.shape, "post:shape", "shapes %s" % [x.shape for x in (lo, hi, med, f)], **data)
        f0, f1 = 1 / (t.max() - t.min()), 0.5 / np.diff(t).min()
        ctx.close(np.log(f), np.linspace(np.log(f0), np.log(f1), nf), 1e-9 * (1 + abs(np.log(f0)) + abs(np.log(f1))), "post:grid", "logarithm of the frequencies", **data)
        P, T = spectra(th, p, q, f)
        tol = 1e-9 + 4 * T.max(axis=0)
        if not tol.max() < 1e-3:
            ctx.count("too ill-conditioned to judge")
            return

        def err(rows):
            a = bands(P[rows], pct)
            # interpolation between order statistics: errors relative to the larger neighbour
            return max(np.max(np.abs(g - w) / (tol * np.maximum(np.abs(w), np.abs(g)))) for g, w in zip((lo, hi, med), a))
        ctx.ev()
        if ns is None or ns == N:
            e = err(list(range(N)))
            kind = "all"
        elif small:
            e = min(err(list(c)) for c in itertools.combinations(range(N), ns))
            kind = "sub"
        else:
            kind = "loose"
            mn, mx = P.min(axis=0), P.max(axis=0)
            e = 0 if all(np.all((x >= mn * (1 - 10 * tol)) & (x <= mx * (1 + 10 * tol))) for x in (lo, hi, med)) else 9
            e = max(e, 0 if np.all((lo <= med * (1 + 1e-12)) & (med <= hi * (1 + 1e-12))) else 9)
        ctx.maximum("err/tol " + kind, e)
        if not e <= 1:
            ctx.violation("post:" + kind, "bands are not the percentiles of the spectra of %s draws (error over tolerance %.3g)" % ("all" if kind == "all" else ns, e),
                          N=N, **data)
        if sp is not None:
            ctx.check(any(a.shape == (nf, 2) and np.array_equal(a[:, 1], med) and np.array_equal(a[:, 0], f) for a in plotted), "post:plot",
                      "the median is not what was drawn on the given axes", **data)
        ctx.distinct("post", p, q, kind, int(pct), small, n, sp is not None)
        ctx.count("bands compared: " + kind)
        ctx.sample(dict(p=p, q=q, draws=N, nsamples=ns, percentile=pct, f=[f[0], f[-1]], median=[med[0], med[-1]]))
    ctx.each(240, 2000, case)


UNITS = [dict(name="func", fn=unit_func, shards=2, tshards=3), dict(name="post", fn=unit_post, shards=6, tshards=8, weight=5)]
