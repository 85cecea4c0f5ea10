import contextlib
import io
import numpy as np
from lib import oracle as O, gen as G, api as A, fake as F, vx
from checks import c02

LEVEL = "exploration"
RULE = ("one case = one data set and model with several shifts and scalings of time and of the series, outputs compared with those of the untransformed data; distinct by "
        "object, orders, transformation and decade of its factor")
ASSUMPTIONS = ["times and values are rounded to binary fractions, so that shifted and rescaled data are exact and only the code can make a difference",
               "tolerances of rescaled time grow with the measured cancellation; ill-conditioned cases are counted, not judged"]


def dyadic(x, bits=12):
    return np.round(np.asarray(x) * 2.0 ** bits) / 2.0 ** bits


def grid(rng, n, kind=None):
    while True:
        t, tk = G.times(rng, n, kind)
        t = dyadic(t)
        if np.diff(t).min() > 0:
            return t, tk


def shift_of(rng):
    return float(dyadic(rng.choice([-1, 1]) * 2.0 ** rng.uniform(-3, 34), 6))


def outputs(k, ts):
    o = dict(zip(("mean", "var"), A.run_filter(k)))
    z = A.predict(k, ts)
    o["predict"], o["predict var"] = z[:, 0], z[:, 1]
    if vx.seed(4242):
        o["simulate"] = A.simulate(k, ts)
    return o


POWER = dict(zip(("mean", "var", "predict", "predict var", "simulate"), (1, 2, 1, 2, 1)))


def unit_filter(ctx):
    def case(i, rng):
        n = int(rng.choice([2, 3, 8, 20]))
        car1 = rng.random() < 0.3
        p = 1 if car1 else int(rng.choice([1, 2, 2, 3, 4, 5]))
        q = 0 if p == 1 else int(rng.integers(0, p))
        t, tk = grid(rng, n)
        s2, r, ma, var, rk = G.process(rng, p, q, t)
        e, ek = G.errors(rng, n, np.sqrt(var))
        y = G.draw(rng, t, e, s2, r, ma)
        span = t[-1] - t[0]
        ts = dyadic(np.concatenate([t[rng.integers(0, n, 1)], rng.uniform(t[0] - 0.1 * span, t[-1] + 0.1 * span, 4), [t[0] - span, t[-1] + span]]))
        base = ctx.call("filter", lambda: outputs(A.filt(t, y, e, s2, r, ma, car1), ts))
        allt = np.unique(np.append(t, ts))
        rel, small = O.judge_tol(allt, np.where(np.isin(allt, t), np.interp(allt, t, e), 0.0), s2, r, ma)
        R0 = float(O.acv(s2, r, ma, 0.0))
        ys = np.abs(y).max() + np.sqrt(R0)
        info = dict(t=t, y=y, e=e, sigsqr=s2, roots=r, ma=ma, car1=car1, at=ts)

        def judge(name, got, c, tol, **kw):
            # tol is relative to the scale of the data, before scaling
            for key in got:
                if not np.isfinite(base[key]).all():
                    ctx.count("no finite answer before the transformation")
                    continue
                s = c ** POWER[key]
                a = got[key] / s
                ref = R0 + ys ** 2 if POWER[key] == 2 else ys
                ctx.close(a, base[key], tol * ref + 1e-300, "%s:%s" % (name, key), "%s after %s" % (key, name), **info, **kw)
            ctx.distinct("filter", car1, p, q, name, tk)

        if rel / small > 1e-3:
            ctx.count("too ill-conditioned to judge")
            return
        tol = rel / np.sqrt(small)
        S = shift_of(rng)
        got = ctx.call("filter", lambda: outputs(A.filt(t + S, y, e, s2, r, ma, car1), ts + S))
        judge("time shift", got, 1.0, tol, shift=S)
        c = 2.0 ** float(rng.integers(-200, 200))
        got = ctx.call("filter", lambda: outputs(A.filt(t, y * c, e * c, s2 * c * c, r, ma, car1), ts))
        judge("scaling by a power of two", got, c, tol, factor=c)
        c = 10.0 ** rng.uniform(-40, 40)
        got = ctx.call("filter", lambda: outputs(A.filt(t, y * c, e * c, s2 * c * c, r, ma, car1), ts))
        judge("scaling", got, c, tol, factor=c)
        a = 2.0 ** float(rng.integers(-30, 31))
        s2a, ra, maa = s2 * a ** (1.0 - 2 * p), r / a, ma * a ** np.arange(len(ma))
        got = ctx.call("filter", lambda: outputs(A.filt(t * a, y, e, s2a, ra, maa, car1), ts * a))
        judge("time scaling", got, 1.0, tol, factor=a)
        # all together
        got = ctx.call("filter", lambda: outputs(A.filt(t * a, y * c, e * c, s2a * c * c, ra, maa, car1), ts * a))
        judge("both", got, c, tol, factor=c, time_factor=a)
        ctx.sample(dict(car1=car1, p=p, q=q, n=n, grid=tk, errors=ek, shift=S, factor=c, time_factor=a))
    ctx.each(1000, 10000, case)


def rescale(theta, p, q, a):
    """the vector of the same process in time units a times smaller"""
    th = np.array(theta, dtype=float)
    la = np.log(a)
    if p == 1:
        th[3] -= la
        return th
    for off, m in ((3, p), (3 + p, q)):
        for i in range(m // 2):
            th[off + 2 * i] -= 2 * la
            th[off + 2 * i + 1] -= la
        if m % 2:
            th[off + m - 1] -= la
    return th


def dens(m, th):
    return float(m.getLogDensity(A.vd(th)))


def wobble(m, th, rng):
    """change of the density when the parameters move by their rounding"""
    f = dens(m, th)
    if not np.isfinite(f):
        return f, 0.0
    g = [dens(m, th * (1 + 4e-16 * rng.choice([-1, 1], size=len(th)))) for _ in range(6)]
    g = [x for x in g if np.isfinite(x)]
    return f, max([abs(x - f) for x in g] + [0.0])


def judge_density(ctx, name, m0, m1, ths, maps, change, rng, n, info, tolf=1.0, rounding=0.0):
    # rounding: of the shifted values, in units of the smallest error bar
    for th in ths:
        f, w = wobble(m0, th, rng)
        if np.isnan(f):
            continue
        g, w1 = wobble(m1, maps(th), rng)
        if not np.isfinite(f) or not np.isfinite(g):
            # on one side of a bound; exactly at a bound rounding decides
            if f != g:
                near = [dens(m0, th * (1 + d * np.eye(len(th))[j])) for j in range(len(th)) for d in (-1e-9, 1e-9)]
                if len({np.isfinite(x) for x in near}) > 1:
                    ctx.count("at a bound")
                    continue
            ctx.check(f == g or (np.isneginf(f) and np.isneginf(g)), name + ":support", "log-density %r of the original, %r after %s" % (f, g, name), parameters=th,
                      transformed=maps(th), **info)
            continue
        tol = tolf * (1e-10 * (n + abs(f) + abs(change)) + 50 * (w + w1) + 8 * rounding * np.sqrt(n * (n + 2 * abs(f))))
        if tol > 1e-2 * n:
            ctx.count("too ill-conditioned to judge")
            continue
        ctx.close(g - f, change, tol, name, "change of the log-density after %s (values %r, %r)" % (name, f, g), parameters=th, transformed=maps(th), **info)


def unit_density(ctx):
    def case(i, rng):
        p = int(rng.choice([1, 1, 2, 2, 3, 4, 5]))
        q = 0 if p == 1 else int(rng.integers(0, p))
        n = int(rng.choice([3, 8, 20, 40]))
        t, tk = grid(rng, n)
        _, y, e, kinds = c02.dataset(rng, n, min(p, 3), 0)
        # unit scale, on a binary grid
        k0 = 2.0 ** np.round(np.log2(np.std(y)))
        y, e = dyadic((y - np.mean(y)) / k0), np.maximum(e / k0, 1e-3)
        if np.std(y) == 0:
            return
        ths = []
        for _ in range(4):
            b = G.support_theta(rng, t, y, p, q)
            if b is not None:
                b[2] = dyadic(b[2])
                ths.append(b)
        if not ths:
            ctx.count("no parameters found")
            return
        x = ths[0].copy()
        x[0] *= 1000
        ths.append(x)
        x = ths[0].copy()
        x[3:3 + p] += 30
        ths.append(x)
        x = ths[0].copy()
        x[1] = 2.5
        ths.append(x)
        # factors in another order, and vectors close to the bounds
        if p >= 4:
            x = ths[0].copy()
            x[3:5], x[5:7] = ths[0][5:7], ths[0][3:5]
            ths.append(x)
        top = 10 * np.std(y, ddof=0 if i % 3 == 0 else 1)
        w = 1.0 if p == 1 else 2 * np.pi
        for j, v in ((0, top * 1.001), (0, top * 0.999), (1, 2.001), (1, 0.4999), (2 + p, np.log(w / np.ptp(t)) + 1e-3), (2 + p, np.log(w / np.ptp(t)) - 1e-3),
                     (2 + p, np.log(w / np.diff(t).min()) + 1e-3), (2 + p, np.log(w / np.diff(t).min()) - 1e-3)):
            if j < 3 or p % 2:
                x = ths[0].copy()
                x[j] = v
                ths.append(x)
        kind = "CAR1" if p == 1 else "CARp" if q == 0 else "CARMA"
        sampler = i % 3 == 0

        def make(t, y, e):
            if not sampler:
                return ctx.call("model", A.model, kind, t, y, e, p, q)
            return ctx.call("sampler", A.run, 2, 2, t, y, e, p, q, 1)
        ml = rng.random() < 0.3

        def made(t, y, e):
            m = make(t, y, e)
            if ml and hasattr(m, "SetMLE"):
                m.SetMLE(True)
            return m
        info = dict(t=t, y=y, e=e, p=p, q=q, sampler=sampler, ml=ml)
        m0 = made(t, y, e)
        S = shift_of(rng)
        judge_density(ctx, "time shift", m0, made(t + S, y, e), ths, lambda x: x, 0.0, rng, n, dict(info, shift=S))
        S = float(dyadic(rng.choice([-1, 1]) * 2.0 ** rng.uniform(0, 30), 4))
        judge_density(ctx, "series shift", m0, made(t, y + S, e), ths, lambda x: x + S * (np.arange(len(x)) == 2), 0.0, rng, n, dict(info, shift=S),
                      rounding=2.3e-16 * abs(S) / (0.7 * e.min()))
        c = 2.0 ** float(rng.integers(-100, 101)) if rng.random() < 0.7 else 10.0 ** rng.uniform(-30, 30)
        sc = np.ones(3 + p + q)
        sc[[0, 2]] = c
        judge_density(ctx, "scaling", m0, made(t, y * c, e * c), ths, lambda x: x * sc, -n * np.log(c), rng, n, dict(info, factor=c))
        a = 2.0 ** float(rng.integers(-40, 41))
        judge_density(ctx, "time scaling", m0, made(t * a, y, e), ths, lambda x: rescale(x, p, q, a), 0.0, rng, n, dict(info, factor=a), tolf=10.0)
        for nm, f in (("S", S), ("c", c), ("a", a)):
            ctx.distinct("density", kind, p, q, sampler, ml, nm, int(np.log10(abs(f)) // 3))
        ctx.sample(dict(kind=kind, p=p, q=q, n=n, sampler=sampler, shift=S, factor=c, time_factor=a))
    ctx.each(450, 4500, case)


def unit_zcarma(ctx):
    """the two one-parameter moving average classes, through the C++ entry points"""
    try:
        vx.lib("models")
    except vx.Unavailable:
        ctx.skip("entry points do not fit")
        return

    def case(i, rng):
        kind = str(rng.choice(["ZCAR", "ZCARMA"]))
        p = int(rng.choice([2, 3, 4]))
        n = int(rng.choice([4, 10, 20]))
        t, tk = grid(rng, n)
        y = dyadic(np.cumsum(rng.normal(size=n)))
        e = dyadic(rng.uniform(0.05, 0.5, n)) + 2.0 ** -6
        if np.std(y) == 0:
            return
        ths = []
        for _ in range(4):
            b = G.support_theta(rng, t, y, p, 0)
            if b is not None:
                b[2] = dyadic(b[2])
                ths.append(b if kind == "ZCAR" else np.append(b, rng.normal()))
        if not ths:
            return

        def made(t, y, e):
            m = ctx.call("model", vx.Model, kind, t, y, e, p, 0)
            m.getLogDensity = lambda v: m.logdens(list(v))
            return m
        m0 = made(t, y, e)
        info = dict(t=t, y=y, e=e, p=p, model=kind)
        S = shift_of(rng)
        judge_density(ctx, "time shift", m0, made(t + S, y, e), ths, lambda x: x, 0.0, rng, n, dict(info, shift=S))
        S = float(dyadic(rng.choice([-1, 1]) * 2.0 ** rng.uniform(0, 30), 4))
        judge_density(ctx, "series shift", m0, made(t, y + S, e), ths, lambda x: x + S * (np.arange(len(x)) == 2), 0.0, rng, n, dict(info, shift=S),
                      rounding=2.3e-16 * abs(S) / (0.7 * e.min()))
        c = 2.0 ** float(rng.integers(-100, 101))
        sc = np.ones(len(ths[0]))
        sc[[0, 2]] = c
        judge_density(ctx, "scaling", m0, made(t, y * c, e * c), ths, lambda x: x * sc, -n * np.log(c), rng, n, dict(info, factor=c))
        a = 2.0 ** float(rng.integers(-20, 21))

        def to(x):
            z = rescale(x[:3 + p], p, 0, a)
            return np.concatenate([z, x[3 + p:]])
        judge_density(ctx, "time scaling", m0, made(t * a, y, e), ths, to, 0.0, rng, n, dict(info, factor=a), tolf=10.0)
        ctx.distinct("zcarma", kind, p, tk)
        ctx.sample(dict(kind=kind, p=p, n=n, factor=c, time_factor=a))
    ctx.each(150, 1500, case)


def unit_python(ctx):
    """predictions and derived samples of the Python layer"""
    import matplotlib.pyplot as plt
    from carmcmc import carma_pack as CP

    def case(i, rng):
        p = int(rng.choice([1, 2, 3, 4]))
        q = 0 if p == 1 else int(rng.integers(0, p))
        n = int(rng.choice([6, 15, 30]))
        t, tk = grid(rng, n)
        _, y, e, kinds = c02.dataset(rng, n, min(p, 3), 0)
        k0 = 2.0 ** np.round(np.log2(np.std(y)))
        y, e = dyadic((y - np.mean(y)) / k0), np.maximum(e / k0, 0.02)
        th = []
        for _ in range(3):
            b = G.support_theta(rng, t, y, p, q)
            if b is not None:
                b[2] = dyadic(b[2])
                th.append(b)
        if not th:
            ctx.count("no parameters found")
            return
        th = np.array(th)
        span = t[-1] - t[0]
        ts = dyadic(rng.uniform(t[0] - 0.1 * span, t[-1] + 0.1 * span, 5))
        cond = 0.0
        for b in th:
            mu, sc, s2, r, ma = None, None, None, None, None
            if p == 1:
                w = np.exp(b[3])
                s2, r, ma = 2 * w * b[0] ** 2, np.array([-w + 0j]), np.array([1.0])
            else:
                d = O.decode(b, p, q)
                r, ma = d[3], d[4]
                s2 = float(O.sigsqr_of(d[0], r, ma))
            rel, small = O.judge_tol(t, e, s2, r, ma)
            cond = max(cond, rel / np.sqrt(small))
        if cond > 1e-4:
            ctx.count("too ill-conditioned to judge")
            return
        how = "map"

        def out(t, y, e, th, ts):
            s = ctx.call("sample object", F.sample, t, y, e, p, q, th)[0]
            m, v = ctx.call("predict", s.predict, ts, bestfit=how)
            o = dict(predict=m, pvar=v, loglik=s.get_samples("loglik").ravel())
            if vx.seed(99):
                o["simulate"] = ctx.call("simulate", s.simulate, ts, bestfit=how)
            k, mu = ctx.call("makeKalmanFilter", s.makeKalmanFilter, how)
            o["kmean"], o["kvar"] = A.run_filter(k)
            o["mu"] = np.ravel(mu)
            if plots:
                with contextlib.redirect_stdout(io.StringIO()):
                    ctx.call("assess_fit", s.assess_fit, bestfit=how, nplot=7, doShow=False)
                ax = plt.gcf().axes[0]
                l = max(ax.lines, key=lambda z: z.get_linestyle() == "-")
                o["curve x"], o["curve y"] = np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float)
                plt.close("all")
            return o
        plots = i % 6 == 0
        base = out(t, y, e, th, ts)
        scale = np.abs(y).max() + th[:, 0].max() + np.abs(th[:, 2]).max()
        info = dict(t=t, y=y, e=e, p=p, q=q, parameters=th, at=ts)

        def judge(name, got, shift=0.0, c=1.0, dl=0.0, tol=1e-9, **kw):
            f = dict(predict=(shift, c), pvar=(0.0, c * c), loglik=(dl, 1.0), simulate=(shift, c), kmean=(0.0, c), kvar=(0.0, c * c), mu=(shift, c))
            for key in got:
                if key.startswith("curve"):
                    continue
                b, m = f[key]
                ref = dict(loglik=n + np.abs(base["loglik"]).max() + abs(dl), pvar=scale ** 2, kvar=scale ** 2).get(key, scale)
                rnd = 2.3e-16 * abs(shift) / (0.7 * e.min()) * np.sqrt(n * (n + 2 * np.abs(base["loglik"]).max())) if key == "loglik" else 2.3e-16 * abs(shift)
                ctx.close((got[key] - b) / m, base[key], tol * ref + 8 * rnd, "python:%s:%s" % (name, key), "%s after %s" % (key, name), **info, **kw)
            ctx.distinct("python", p, q, name, tk)

        S = shift_of(rng)
        got = out(t + S, y, e, th, ts + S)
        judge("time shift", got, tol=max(1e-9, cond * 10), by=S)
        if plots:
            # whatever points are plotted, they move with the data
            xt = 1e-9 * span + 1e-15 * (abs(S) + np.abs(t).max())
            ctx.close(got["curve x"] - S, base["curve x"], xt, "python:time shift:curve", "times of the plotted interpolation after a time shift", by=S, **info)
        S = float(dyadic(rng.choice([-1, 1]) * 2.0 ** rng.uniform(0, 24), 4))
        sh = np.zeros(3 + p + q)
        sh[2] = S
        judge("series shift", out(t, y + S, e, th + sh, ts), shift=S, tol=max(1e-9, cond * 10), by=S)
        c = 2.0 ** float(rng.integers(-60, 61)) if rng.random() < 0.6 else 10.0 ** rng.uniform(-15, 15)
        sc = np.ones(3 + p + q)
        sc[[0, 2]] = c
        judge("scaling", out(t, y * c, e * c, th * sc, ts), c=c, dl=-n * np.log(c), tol=max(1e-9, cond * 10), by=c)
        a = 2.0 ** float(rng.integers(-20, 21))
        judge("time scaling", out(t * a, y, e, np.array([rescale(b, p, q, a) for b in th]), ts * a), tol=max(1e-9, cond * 10), by=a)
        # simulated processes and variances
        s2, r, ma, var, rk = G.process(rng, p, q, t)
        S = shift_of(rng)
        sd = int(rng.integers(1, 2 ** 31))

        def proc(t, s2, r, ma):
            np.random.seed(sd)
            return ctx.call("process", CP.car1_process, t, s2, 1.0 / -float(np.real(r[0]))) if p == 1 else ctx.call("process", CP.carma_process, t, s2, r, ma_coefs=ma)
        x0 = proc(t, s2, r, ma)
        rel, small = O.judge_tol(t, np.zeros(n), s2, r, ma)
        ctx.close(proc(t + S, s2, r, ma), x0, 1e-9 * np.abs(x0).max(), "process:time shift", "simulated process after a time shift", by=S, sigsqr=s2, roots=r, ma=ma, t=t)
        c = 2.0 ** float(rng.integers(-60, 61))
        ctx.close(proc(t, s2 * c * c, r, ma) / c, x0, 1e-9 * np.abs(x0).max(), "process:scaling", "simulated process after scaling the noise", by=c, sigsqr=s2, roots=r, ma=ma, t=t)
        a = 2.0 ** float(rng.integers(-20, 21))
        par = (s2 * a ** (1.0 - 2 * p), r / a, ma * a ** np.arange(len(ma)))
        if rel / small < 1e-4:
            ctx.close(proc(t * a, *par), x0, max(1e-9, 10 * rel / np.sqrt(small)) * np.abs(x0).max(), "process:time scaling", "simulated process in other time units", by=a,
                      sigsqr=s2, roots=r, ma=ma, t=t)
        lag = float(rng.exponential(1.0) / np.abs(r).max())
        if O.cancellation(s2, r, ma) < 1e5:
            v = [float(np.real(ctx.call("carma_variance", CP.carma_variance, z[0], z[1], ma_coefs=z[2], lag=l))) for z, l in (((s2, r, ma), lag), (par, lag * a))]
            ctx.close(v[1], v[0], 1e-8 * float(O.acv(s2, r, ma, 0.0)), "variance:time scaling", "autocovariance in other time units", by=a, sigsqr=s2, roots=r, ma=ma, lag=lag)
        ctx.sample(dict(p=p, q=q, n=n, grid=tk, draws=len(th), shift=S, factor=c, time_factor=a))
    ctx.each(150, 1500, case)


def unit_runs(ctx):
    """whole sampler runs on shifted times, from the same seed"""
    def case(i, rng):
        p = int(rng.choice([1, 2, 3]))
        q = 0 if p == 1 else int(rng.integers(0, p))
        n = int(rng.choice([5, 15]))
        t, tk = grid(rng, n, str(rng.choice(["irregular", "mixed", "seasonal", "regular", "widegap"])))
        _, y, e, kinds = c02.dataset(rng, n, min(p, 3), 0)
        e = np.maximum(e, 0.01 * np.std(y))
        z = p > 1 and q == 0 and rng.random() < 0.3
        par = (int(rng.integers(1, 8)), int(rng.integers(0, 8)))
        nw, thin, sd = int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(1, 2 ** 30))
        if not vx.seed(sd):
            ctx.skip("no seeding")
            return
        a = A.samples(ctx.call("sampler", A.run, *par, t, y, e, p, q, nw, z, thin))
        S = shift_of(rng)
        vx.seed(sd)
        b = A.samples(ctx.call("sampler", A.run, *par, t + S, y, e, p, q, nw, z, thin))
        ctx.close(b, a, 1e-7 * (np.abs(a) + np.std(y) * (np.arange(a.shape[1]) == 2)), "runs", "draws of a run on shifted times", t=t, y=y, e=e, p=p, q=q, shift=S, seed=sd, run=par, walkers=nw,
                  zcar=z)
        ctx.distinct("runs", p, q, z, nw)
        ctx.sample(dict(p=p, q=q, n=n, shift=S, draws=len(a)))
    ctx.each(150, 1200, case)


UNITS = [
    dict(name="filter", fn=unit_filter, shards=2, tshards=2),
    dict(name="density", fn=unit_density, shards=2, tshards=2),
    dict(name="zcarma", fn=unit_zcarma, shards=1, tshards=1),
    dict(name="python", fn=unit_python, shards=2, tshards=2),
    dict(name="runs", fn=unit_runs, shards=1, tshards=1),
]
