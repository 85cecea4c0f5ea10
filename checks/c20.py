import contextlib
import io
import numpy as np
from lib import oracle as O, gen as G, api as A, fake as F, vx
from checks import c02, c23

LEVEL = "exploration"
RULE = ("one case = one random history of queries on several objects made from the same or related data; every answer is compared with the answer of a fresh "
        "object asked once; distinct by kind of object, orders, query and the query asked before it")
ASSUMPTIONS = ["answers are compared to 1e-11 of their size, since a fresh object may lie at other addresses", "random draws are compared after seeding the generator again"]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        return bool(np.all(a == b))
    if np.array_equal(a, b, equal_nan=True):
        return True
    with np.errstate(all="ignore"):
        s = np.maximum(np.abs(a), np.abs(b))
        s = np.max(s[np.isfinite(s)]) if np.isfinite(s).any() else 0.0
        ok = (np.abs(a - b) <= 1e-11 * s) | (a == b) | (np.isnan(a) & np.isnan(b))
    return bool(np.all(ok))


def asked(f):
    """an answer, or the kind of exception"""
    try:
        return np.asarray(f())
    except Exception as ex:
        return np.asarray("raises " + type(ex).__name__, dtype=object)


def unit_models(ctx):
    """densities, priors and samples of several model objects over the same data"""
    def case(i, rng):
        p = int(rng.choice([1, 2, 2, 3, 4, 5]))
        q = 0 if p == 1 else int(rng.integers(0, p))
        n = int(rng.choice([3, 8, 20, 40]))
        t, y, e, kinds = c02.dataset(rng, n, min(p, 3), 0)
        e = np.maximum(e, 1e-3 * np.std(y))
        kind = "CAR1" if p == 1 else "CARp" if q == 0 else "CARMA"
        d = 3 + p + q
        thetas = []
        for _ in range(4):
            b = G.support_theta(rng, t, y, p, q)
            if b is not None:
                thetas.append(b)
        if not thetas:
            ctx.count("no parameters found")
            return
        out = thetas[0].copy()
        out[int(rng.integers(0, d))] += 1e4 * rng.choice([-1, 1])
        thetas += [out, np.full(d, np.nan), rng.normal(0, 30, d), thetas[0] * (1 + 1e-9)]
        neg = thetas[0].copy()
        neg[0] = -neg[0]
        thetas.append(neg)
        # just outside and just inside of the bounds
        for j, v in ((0, 10 * np.std(y, ddof=1)), (1, 2.0), (1, 0.5)):
            for f in (1 + 1e-4, 1 - 1e-4, 1 + 2.5e-3, 1 - 2.5e-3):
                if rng.random() < 0.5:
                    x = thetas[0].copy()
                    x[j] = v * f
                    thetas.append(x)
        if rng.random() < 0.5:
            x = thetas[0].copy()
            x[2 + p] = np.log((1 if p == 1 else 2 * np.pi) / (t.max() - t.min())) + rng.choice([-1, 1]) * 1e-4
            thetas.append(x)
        if rng.random() < 0.5:
            thetas.append(thetas[0][:-1])
            thetas.append(np.append(thetas[0], 0.3))
        y2 = y * 1.7 + 3.0
        data = [(t, y, e)] * 2 + [(t, y2, e * 2)]
        refd = {}

        def ref(g, k, what, ran):
            if (g, k, what, ran) not in refd:
                # samplers set their own bound on the amplitude
                m = A.run(1, 0, *data[g], p, q, 1) if ran else A.model(kind, *data[g], p, q)
                refd[g, k, what, ran] = asked(lambda: (m.getLogDensity if what == "density" else m.getLogPrior)(A.vd(thetas[k])))
            return refd[g, k, what, ran]
        objs = [(g, A.model(kind, *data[g], p, q)) for g in range(3)]
        runs = []
        if i % 3 == 0:
            init = None if rng.random() < 0.6 else thetas[0]
            for g in (0, 0, 2):
                if init is not None and g == 2:
                    continue
                ini = init
                if p == 1 and ini is not None:
                    ini = None
                r = A.run(int(rng.integers(1, 12)), int(rng.integers(0, 20)), *data[g], p, q, int(rng.integers(1, 4)), False, int(rng.integers(1, 3)), ini)
                objs.append((g, r))
                runs.append((len(objs) - 1, A.samples(r), A.loglikes(r)))
        last = ["none"] * len(objs)
        for step in range(40):
            j = int(rng.integers(0, len(objs)))
            g, m = objs[j]
            k = int(rng.integers(0, len(thetas)))
            what = str(rng.choice(["density", "prior", "samples", "likes", "mle"], p=[0.5, 0.2, 0.12, 0.12, 0.06]))
            info = dict(t=t, y=y, e=e, p=p, q=q, step=step, object=j, before=last[j], parameters=thetas[k])
            if what in ("density", "prior"):
                if what == "prior" and len(thetas[k]) != d:
                    continue
                v = A.vd(thetas[k])
                got = asked(lambda: (m.getLogDensity if what == "density" else m.getLogPrior)(v))
                want = ref(g, k, what, j >= 3)
                ctx.check(same(got, want), "models:" + what, "log-%s %s, a fresh object says %s (object %d, after %s)" % (what, got, want, j, last[j]), **info)
                ctx.check(np.array_equal(np.array(list(v)), thetas[k], equal_nan=True), "models:argument", "the parameter vector was changed", **info)
            elif what == "mle":
                if hasattr(m, "SetMLE"):
                    m.SetMLE(True)
                    asked(lambda: m.getLogDensity(A.vd(thetas[k])))
                    m.SetMLE(False)
            else:
                for jj, s, l in runs:
                    if what == "samples":
                        got = m.getSamples()
                        for a in got:
                            a[0] = -777.0     # the caller's copy
                    ctx.check(same(A.samples(objs[jj][1]), s), "models:samples", "samples differ from the first reading", **info)
                    ctx.check(same(A.loglikes(objs[jj][1]), l), "models:likes", "log-densities of the draws differ from the first reading", **info)
            ctx.distinct("models", kind, p, q, what, last[j], k if k > 3 else 0)
            last[j] = what
        ctx.sample(dict(kind=kind, p=p, q=q, n=n, objects=len(objs), last=what))
    ctx.each(600, 5000, case)


def isolated(fn):
    """the value of fn() in a forked process, so that whatever it does cannot be seen by later calls"""
    import os
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = pickle.dumps(fn())
            except Exception as ex:
                out = pickle.dumps(["raises " + type(ex).__name__ + str(ex)])
            with os.fdopen(w, "wb") as f:
                f.write(out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        buf = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(buf) if buf else ["died"]


def unit_fresh(ctx):
    """a query in a process that has asked nothing before against the same query after a history about other objects; this process itself asks nothing"""
    A.ext()

    def query(kind, a):
        if kind == "density":
            m = A.model(a["kind"], *a["data"], a["p"], a["q"])
            return [m.getLogDensity(A.vd(a["theta"])), m.getLogPrior(A.vd(a["theta"]))]
        if kind in ("filter", "simulate"):
            k = A.filt(*a["data"], a["s2"], a["roots"], a["ma"], a["p"] == 1)
            if kind == "filter":
                return np.concatenate(A.run_filter(k) + (A.predict(k, a["ts"]).ravel(),)).tolist()
            if not vx.seed(a["seed"]):
                return []
            return A.simulate(k, a["ts"]).tolist()
        if kind == "run":
            if not vx.seed(a["seed"]):
                return []
            o = A.run(a["ns"], a["nb"], *a["data"], a["p"], a["q"], a["nw"], False, 2, a["theta"] if a["start"] and a["p"] > 1 else None)
            return np.concatenate([A.samples(o).ravel(), A.loglikes(o)]).tolist()
        cm = A.cm()
        if kind == "process":
            np.random.seed(a["seed"] % 2 ** 31)
            return np.asarray(cm.carma_process(a["data"][0].copy(), a["s2"], a["roots"], a["ma"])).tolist()
        return [cm.carma_variance(a["s2"], a["roots"], a["ma"], 0.7), cm.power_spectrum(np.array([0.1, 1.0]), np.sqrt(a["s2"]), np.poly(a["roots"]).real, a["ma"]).tolist()[0]]

    def make(rng):
        kind = str(rng.choice(["density", "density", "filter", "simulate", "run", "process", "functions"]))
        p = int(rng.choice([1, 2, 2, 3, 4]))
        q = 0 if p == 1 else int(rng.integers(0, p))
        n = int(rng.choice([4, 9, 20]))
        t, tk = G.times(rng, n, rng.choice(["irregular", "regular", "mixed", "offset"]))
        s2, r, ma, var, rk = G.process(rng, p, q, t)
        e, ek = G.errors(rng, n, np.sqrt(var), "uniform")
        y = G.draw(rng, t, e, s2, r, ma) + np.sqrt(var) * rng.choice([0, 1, 30])
        th = G.support_theta(rng, t, y, p, q, 8 * np.std(y))
        if th is None:
            return None
        if rng.random() < 0.4:
            # next to a bound
            th[[0, 1, 1][int(rng.integers(3))]] = -1.0
            k = int(np.flatnonzero(th[:2] == -1.0)[0])
            th[k] = [10 * np.std(y, ddof=1), float(rng.choice([0.5, 2.0]))][k] * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-9, -4))
        a = dict(kind="CAR1" if p == 1 else "CARp" if q == 0 else "CARMA", p=p, q=q, data=(t, y, e), s2=s2, roots=r, ma=ma, theta=th, seed=int(rng.integers(1, 2 ** 30)),
                 ts=rng.uniform(t[0], t[-1] + 1, 3), ns=int(rng.integers(1, 8)), nb=int(rng.integers(0, 20)), nw=int(rng.integers(1, 4)), start=bool(rng.random() < 0.5))
        return kind, a

    def case(i, rng):
        qs = [x for x in (make(rng) for _ in range(int(rng.integers(3, 9)))) if x]
        if len(qs) < 2:
            return
        kind, a = qs[-1]
        alone = isolated(lambda: query(kind, a))

        def history():
            for k, b in qs[:-1]:
                query(k, b)
            first = query(kind, a)
            for k, b in qs[:-1]:
                query(k, b)
            return [first, query(kind, a)]
        after = isolated(history)
        info = dict(query=kind, before=[k for k, _ in qs[:-1]], p=a["p"], q=a["q"], data=a["data"], theta=a["theta"], sigsqr=a["s2"], roots=a["roots"], ma=a["ma"])
        for got in after:
            ctx.check(np.array_equal(np.asarray(got, dtype=object), np.asarray(alone, dtype=object)) or same(np.asarray(got, dtype=float), np.asarray(alone, dtype=float)), "fresh:" + kind,
                      "%s in a fresh process gives %r, after queries about other objects %r" % (kind, alone[:4], got[:4] if isinstance(got, list) else got), **info)
        ctx.distinct("fresh", kind, a["p"], a["q"], tuple(sorted({k for k, _ in qs[:-1]})))
        ctx.count("answers compared with a fresh process")
        ctx.sample(dict(query=kind, p=a["p"], q=a["q"], before=[k for k, _ in qs[:-1]], answer=alone[:2]))
    ctx.each(250, 2500, case)


def unit_filters(ctx):
    def case(i, rng):
        car1 = rng.random() < 0.3
        p = 1 if car1 else int(rng.choice([1, 2, 2, 3, 4, 5]))
        q = 0 if p == 1 else int(rng.integers(0, p))
        n = int(rng.choice([2, 3, 8, 20]))
        t, tk = G.times(rng, n)
        s2, r, ma, var, rk = G.process(rng, p, q, t)
        e, ek = G.errors(rng, n, np.sqrt(var))
        y = G.draw(rng, t, e, s2, r, ma)
        span = t[-1] - t[0]
        vts = [A.vd(x) for x in (t, y, e)]
        vr, vm = A.vc(r), A.vd(ma)
        L = A.ext()

        def mk(j):
            # the second object reads the same vectors, the third another process over the same data
            s = s2 * (1.0 if j < 2 else 2.5)
            return L.KalmanFilter1(vts[0], vts[1], vts[2], s, float(-np.real(r[0]))) if car1 else L.KalmanFilterp(vts[0], vts[1], vts[2], s, vr, vm)
        xs = np.concatenate([t[rng.integers(0, n, 2)], rng.uniform(t[0] - 0.2 * span, t[-1] + 0.2 * span, 4), [t[0] - 2 * span, t[-1] + 2 * span]])
        sims = [rng.permutation(np.concatenate([rng.uniform(t[0] - 0.3 * span, t[-1] + 0.3 * span, int(rng.integers(1, 6) if rng.random() < 0.7 else rng.integers(8, 60))), [t[-1] + span]]))
                for _ in range(2)]
        refd = {}

        def answer(k, what, a):
            if what == "filter":
                k.Filter()
                return np.array([list(k.GetMean()), list(k.GetVar())])
            if what == "read":
                return np.array([list(k.GetMean()), list(k.GetVar())])
            if what == "predict":
                z = k.Predict(float(xs[a]))
                return np.array([z.first, z.second])
            v = A.vd(sims[a])
            vx.seed(1000 + a)
            z = np.array(list(k.Simulate(v)))
            ctx.check(np.array_equal(np.array(list(v)), sims[a]), "filters:times", "the times to simulate at were changed", times=sims[a])
            return z

        def ref(j, what, a):
            j = min(j, 1) if j < 2 else 2
            if (j, what, a) not in refd:
                k = mk(j)
                if what == "read":
                    k.Filter()
                refd[j, what, a] = asked(lambda: answer(k, what, a))
            return refd[j, what, a]
        seeded = vx.seed(1)
        objs = [mk(j) for j in range(3)]
        filtered = [False] * 3
        last = ["none"] * 3
        for step in range(30):
            j = int(rng.integers(0, 3))
            what = str(rng.choice(["filter", "read", "predict", "simulate"], p=[0.2, 0.3, 0.3, 0.2]))
            if what == "read" and not filtered[j]:
                what = "filter"
            if what == "simulate" and not seeded:
                answer(objs[j], what, 0)
                last[j] = what
                continue
            a = int(rng.integers(0, len(xs))) if what == "predict" else int(rng.integers(0, 2)) if what == "simulate" else 0
            got = asked(lambda: answer(objs[j], what, a))
            want = ref(j, what, a)
            ctx.check(same(got, want), "filters:" + what, "%s gives %s, a fresh object %s (after %s)" % (what, str(got)[:300], str(want)[:300], last[j]),
                      t=t, y=y, e=e, sigsqr=s2, roots=r, ma=ma, car1=car1, object=j, before=last[j], at=xs[a] if what == "predict" else 0.0)
            filtered[j] |= what == "filter"
            ctx.distinct("filters", car1, p, q, what, last[j])
            last[j] = what
        ctx.check(all(np.array_equal(np.array(list(v)), x) for v, x in zip(vts, (t, y, e))), "filters:data", "the data vectors were changed", t=t, y=y, e=e)
        ctx.check(np.array_equal(np.array(list(vr)), r) and np.array_equal(np.array(list(vm)), ma), "filters:process", "the process vectors were changed", roots=r, ma=ma)
        ctx.sample(dict(car1=car1, p=p, q=q, n=n, grid=tk, errors=ek, last=what))
    ctx.each(700, 6000, case)


class Quiet:
    def __enter__(self):
        self.s = contextlib.ExitStack()
        self.s.enter_context(contextlib.redirect_stdout(io.StringIO()))

    def __exit__(self, *a):
        self.s.close()


def unit_samples(ctx):
    """sample objects of the Python layer"""
    import matplotlib.pyplot as plt

    def case(i, rng):
        s1, d = c23.make(ctx, rng, n=int(rng.choice([5, 20, 30])), N=int(rng.choice([5, 8, 21])), ekind="hetero")
        p, q, t = d["p"], d["q"], d["t"]
        th, lp = d["theta"], d["logpost"]
        fresh = lambda k: F.sample(d["t"], d["y"], d["e"], p, q, th if k < 2 else th[::-1] * 1.0, lp if k < 2 else lp * 0.5)[0]
        names = list(s1.parameters)
        ts = rng.permutation(np.concatenate([rng.uniform(t[0], t[-1], 3), [t[-1] + 1.0]]))
        f = None
        best = ["map", "median", "mean"]

        def answer(s, what, a, b):
            with Quiet():
                if what == "get":
                    x = s.get_samples(names[a % len(names)])
                    keep = x.copy()
                    x[...] = 0.125        # the caller's copy
                    return keep
                if what == "predict":
                    return np.array(s.predict(ts, bestfit=best[b]))
                if what == "scalar":
                    return np.array(s.predict(float(ts[0]), bestfit=best[b]))
                if what == "simulate":
                    vx.seed(31)
                    return s.simulate(ts, bestfit=best[b])
                if what == "filter":
                    k, mu = s.makeKalmanFilter(best[b])
                    return np.concatenate(list(A.run_filter(k)) + [np.ravel(mu)])
                if what == "spectrum":
                    np.random.seed(5)
                    o = s.plot_power_spectrum(percentile=[68.0, 90.0, 50.0][b], nsamples=[None, 4, 3][a % 3], doShow=False)
                    plt.close("all")
                    keep = np.concatenate([np.ravel(x) for x in o[:4]])
                    for x in o[:4]:
                        x[...] = 0.5
                    return keep
                if what == "assess":
                    s.assess_fit(bestfit=best[b], nplot=8, doShow=False)
                    ax = plt.gcf().axes
                    o = np.concatenate([np.asarray(l.get_ydata(), dtype=float) for z in ax for l in z.lines])
                    plt.close("all")
                    return o
                if what == "dic":
                    return np.asarray(s.DIC())
                if what == "neff":
                    return np.asarray(s.effective_samples(["mu", "var"][a % 2]))
                if what == "summary":
                    out = io.StringIO()
                    with contextlib.redirect_stdout(out):
                        s.posterior_summaries(["mu", "var", "measerr_scale"][a % 3])
                    return np.asarray(out.getvalue(), dtype=object)
                if what == "plots":
                    getattr(s, ["plot_trace", "plot_1dpdf", "plot_parameter", "plot_autocorr"][a % 4])(["mu", "var"][b % 2])
                    plt.close("all")
                    return np.zeros(1)
                if what == "attr":
                    return np.concatenate([np.ravel(s.time), np.ravel(s.y), np.ravel(s.ysig)])

        refd = {}

        def ref(k, what, a, b):
            k = max(k - 1, 0)
            if (k, what, a, b) not in refd:
                refd[k, what, a, b] = asked(lambda: answer(fresh(k + 1), what, a, b))
            return refd[k, what, a, b]
        objs = [s1, fresh(1), fresh(2)]
        read = [{n: s.get_samples(n) for n in names} for s in objs]
        kinds = ["get", "predict", "scalar", "simulate", "filter", "spectrum", "assess", "dic", "neff", "summary", "plots", "attr"]
        w = np.array([0.25, 0.12, 0.08, 0.08, 0.1, 0.08, 0.04, 0.07, 0.04, 0.05, 0.03, 0.06])
        seeded = vx.seed(1)
        last = ["none"] * 3
        for step in range(25):
            k = int(rng.integers(0, 3))
            what = str(rng.choice(kinds, p=w / w.sum()))
            a, b = int(rng.integers(0, 12)), int(rng.integers(0, 3))
            if what in ("predict", "scalar", "simulate", "filter", "assess") and not c23.usable(d, best[b]):
                b = 0
            if what == "simulate" and not seeded:
                continue
            got = asked(lambda: answer(objs[k], what, a, b))
            want = ref(k, what, a, b)
            ctx.check(same(got, want), "samples:" + what, "%s gives %s, a fresh object %s (after %s)" % (what, str(got)[:300], str(want)[:300], last[k]),
                      p=p, q=q, t=t, y=d["y"], e=d["e"], parameters=th, object=k, before=last[k], which=a, how=best[b])
            if got.dtype == object and str(got).startswith("raises") and what not in ("plots", "assess"):
                ctx.count("query raised: " + what)
            ctx.distinct("samples", p, q, what, last[k], b)
            last[k] = what
        for k, s in enumerate(objs):
            for n in names:
                ctx.check(np.array_equal(s.get_samples(n), read[k][n], equal_nan=True), "samples:bits", "the draws of %s are not those of the first reading" % n,
                          p=p, q=q, t=t, y=d["y"], e=d["e"], parameters=th, object=k)
        ctx.sample(dict(p=p, q=q, draws=len(th), n=len(t), last=what))
    ctx.each(60, 500, case)


def variants(rng, x):
    """the same numbers as different containers"""
    x = np.array(x)
    k = int(rng.integers(0, 4))
    if k == 0:
        return x
    if k == 1:
        x.setflags(write=False)
        return x
    if k == 2:
        big = np.empty(2 * len(x), dtype=x.dtype)
        big[::2] = x
        big[1::2] = -3.25
        return big[::2]
    return x.copy()


class Watch:
    """values of the caller's arrays before and after"""

    def __init__(self, ctx, **arrays):
        self.ctx, self.a = ctx, arrays
        self.b = {k: np.array(v) for k, v in arrays.items()}
        self.f = {k: (v.flags.writeable, v.shape, v.dtype) for k, v in arrays.items() if isinstance(v, np.ndarray)}

    def judge(self, what, **data):
        for k, v in self.a.items():
            self.ctx.check(np.array_equal(np.array(v), self.b[k], equal_nan=True), "arrays:" + what, "%s changed the caller's %s" % (what, k),
                           before=self.b[k], after=np.array(v), **data)
            if k in self.f:
                self.ctx.check((v.flags.writeable, v.shape, v.dtype) == self.f[k], "arrays:flags:" + what, "%s changed the array object %s" % (what, k), **data)


def unit_arrays(ctx):
    """the caller's arrays, of several layouts, through every function of the Python layer"""
    from carmcmc import carma_pack as CP
    import matplotlib.pyplot as plt

    def case(i, rng):
        p = int(rng.choice([1, 2, 3, 4]))
        q = 0 if p == 1 else int(rng.integers(0, p))
        n = int(rng.choice([6, 15, 30]))
        t, y, e, kinds = c02.dataset(rng, n, min(p, 3), 0)
        e = np.maximum(e, 1e-3 * np.std(y))
        order = rng.permutation(n) if rng.random() < 0.5 else np.arange(n)
        T, Y, E = (variants(rng, x[order]) for x in (t, y, e))
        w = Watch(ctx, time=T, y=Y, ysig=E)
        info = dict(p=p, q=q, n=n)
        s2, r, ma, var, rk = G.process(rng, p, q, t)
        what = str(rng.choice(["model", "mle", "functions", "process", "sample", "spectrum"], p=[0.25, 0.1, 0.25, 0.2, 0.1, 0.1]))
        with Quiet(), np.errstate(all="ignore"):
            if what == "model" or what == "mle":
                m = ctx.call("CarmaModel", CP.CarmaModel, T, Y, E, p, q)
                w.judge("CarmaModel", **info)
                kept = [np.array(x) for x in (m.time, m.y, m.ysig)]
                if what == "model":
                    init = None
                    th = G.support_theta(rng, t, y, p, q) if rng.random() < 0.5 and p > 1 else None
                    iv = None if th is None else variants(rng, th)
                    wi = Watch(ctx, **({} if iv is None else dict(init=iv)))
                    s = ctx.call("run_mcmc", m.run_mcmc, 12, nburnin=10, ntemperatures=int(rng.integers(1, 3)), nthin=1, **({} if iv is None else dict(init=A.vd(iv))))
                    w.judge("run_mcmc", **info)
                    wi.judge("run_mcmc", **info)
                    ts = variants(rng, rng.uniform(t[0], t[-1], 5))
                    wt = Watch(ctx, time=ts)
                    best = "map" if p > 1 else str(rng.choice(["map", "mean", "median"]))
                    ctx.call("predict", s.predict, ts, bestfit=best)
                    wt.judge("predict", **info)
                    ctx.call("simulate", s.simulate, ts, bestfit=best)
                    wt.judge("simulate", **info)
                    try:
                        s.plot_power_spectrum(nsamples=5, doShow=False)
                        s.assess_fit(nplot=6, doShow=False)
                    except Exception:
                        ctx.count("plots raised")
                    plt.close("all")
                    w.judge("plots", **info)
                else:
                    ctx.call("get_mle", m.get_mle, p, q, ntrials=1, njobs=1)
                    w.judge("get_mle", **info)
                ctx.check(all(np.array_equal(x, z) for x, z in zip((m.time, m.y, m.ysig), kept)), "arrays:kept", "%s changed the data held by the model" % what, **info)
            elif what == "functions":
                f = variants(rng, np.sort(rng.uniform(1e-3, 1.0, 7)))
                R, M = variants(rng, r), variants(rng, ma)
                ac = variants(rng, np.real(np.poly(r)))
                lag = variants(rng, rng.uniform(0, 5, 4))
                wid, cen = variants(rng, rng.uniform(0.01, 1, 1 + p // 2)), variants(rng, rng.uniform(0.01, 1, 1 + p // 2))
                wf = Watch(ctx, freq=f, roots=R, ma=M, ar_coef=ac, lag=lag, width=wid, centroid=cen)
                if rng.random() < 0.4:
                    cen2 = 0.3
                else:
                    cen2 = cen
                ctx.call("power_spectrum", CP.power_spectrum, f, np.sqrt(s2), ac, M)
                wf.judge("power_spectrum", **info)
                ctx.call("carma_variance", CP.carma_variance, s2, R, ma_coefs=M, lag=float(lag[0]))
                wf.judge("carma_variance", **info)
                try:
                    CP.get_ar_roots(wid, cen)
                    CP.get_ar_roots(wid, cen)
                except Exception:
                    ctx.count("get_ar_roots raised")
                wf.judge("get_ar_roots", **info)
                # default arguments are shared between calls
                a0 = CP.power_spectrum(f, 1.0, ac)
                CP.carma_variance(s2, R)
                CP.carma_process(np.sort(t), s2, R)
                ctx.check(same(CP.power_spectrum(f, 1.0, ac), a0), "arrays:defaults", "a second call with default arguments differs", **info)
                ctx.check(same(CP.carma_variance(s2, R, ma_coefs=[1.0]), CP.carma_variance(s2, R)), "arrays:defaults", "default MA coefficients changed", **info)
                v = A.vd(ma)
                ctx.check(same(CP.arrayToVec(M), np.array(list(v))), "arrays:vec", "arrayToVec", **info)
                wf.judge("arrayToVec", **info)
            elif what == "process":
                R = variants(rng, r)
                M = variants(rng, ma) if rng.random() < 0.5 else list(ma)
                wf = Watch(ctx, roots=R, ma=M)
                if p == 1:
                    ctx.call("car1_process", CP.car1_process, np.sort(t), s2, 1.0 / -np.real(r[0]))
                    ctx.call("car1_process", CP.car1_process, T, s2, 1.0 / -np.real(r[0]))
                else:
                    ctx.call("carma_process", CP.carma_process, T, s2, R, ma_coefs=M)
                w.judge("process simulation", **info)
                wf.judge("process simulation", **info)
            elif what == "sample":
                ss = np.argsort(t)
                b = G.support_theta(rng, t, y, p, q)
                if b is None:
                    return
                s, m = ctx.call("sample object", F.sample, t, y, e, p, q, np.array([b, b * (1 + 1e-6), b]))
                o = variants(rng, rng.uniform(t[0], t[-1], 4))
                wt = Watch(ctx, time=o)
                for h in ("map", "random"):
                    ctx.call("predict", s.predict, o, bestfit=h)
                    wt.judge("predict", **info)
                    ctx.call("simulate", s.simulate, o, bestfit=h)
                    wt.judge("simulate", **info)
            else:
                s, d = c23.make(ctx, rng, n=10, N=5, p=p)
                before = {k: s.get_samples(k) for k in s.parameters}
                fig, ax = plt.subplots()
                try:
                    s.plot_power_spectrum(nsamples=3, sp=ax, doShow=False)
                except Exception:
                    ctx.count("plots raised")
                plt.close("all")
                for k in before:
                    ctx.check(same(s.get_samples(k), before[k]), "arrays:spectrum", "plotting the spectrum changed the samples of %s" % k, **info)
        ctx.distinct("arrays", what, p, q)
        ctx.sample(dict(what=what, p=p, q=q, n=n))
    ctx.each(240, 2000, case)


def unit_copies(ctx):
    """copies and assignments of the C++ objects"""
    try:
        vx.lib("copies")
    except vx.Unavailable:
        ctx.skip("entry points do not fit")
        return

    def case(i, rng):
        n = int(rng.choice([2, 3, 10, 20]))
        car1 = rng.random() < 0.3
        p = 1 if car1 else int(rng.choice([1, 2, 3, 4]))
        q = 0 if p == 1 else int(rng.integers(0, p))
        t, tk = G.times(rng, n)
        s2, r, ma, var, rk = G.process(rng, p, q, t)
        if rng.random() < 0.5:
            ma = np.concatenate([ma, np.zeros(p - len(ma))])   # full length
        e, ek = G.errors(rng, n, np.sqrt(var))
        y = G.draw(rng, t, e, s2, r, ma)
        ts = rng.uniform(t[0] - 1, t[-1] + 1, 4)
        info = dict(t=t, y=y, e=e, sigsqr=s2, roots=r, ma=ma, car1=car1, at=ts)
        out, changed = ctx.call("copy of a filter", vx.copy_filter, t, y, e, s2, r, ma, ts, car1)
        names = [b for k, b in enumerate(("times", "series", "errors", "MA coefficients", "roots")) if changed >> k & 1]
        ctx.check(not names, "copies:arguments", "the filter changed the caller's %s" % ", ".join(names), **info)
        for k, w in ((1, "a copy"), (2, "the object after its copy was changed"), (3, "an assigned object after the source was changed")):
            ctx.check(same(out[k], out[0]), "copies:filter%d" % k, "answers of %s differ: %s against %s" % (w, out[k][:8], out[0][:8]), **info)
        ctx.distinct("filter", p, q, car1, len(ma))
        # models
        p = int(rng.choice([1, 2, 3, 4]))
        q = 0 if p == 1 else int(rng.integers(0, p))
        t, y, e, kinds = c02.dataset(rng, max(n, 6), min(p, 3), 0)
        e = np.maximum(e, 1e-3 * np.std(y))
        a, b = G.support_theta(rng, t, y, p, q), G.support_theta(rng, t, y, p, q)
        if a is None or b is None:
            return
        kind = "CAR1" if p == 1 else "CARp" if q == 0 else "CARMA"
        blocks, rest = ctx.call("copy of a model", vx.copy_model, kind, t, y, e, p, q, a, b)
        info = dict(t=t, y=y, e=e, p=p, q=q, first=a, second=b)
        ctx.check(same(blocks[0][4:], a), "copies:value", "value saved %s, read %s" % (a, blocks[0][4:]), **info)
        ctx.check(same(blocks[1], blocks[0]), "copies:model1", "answers of a copy of the model differ: %s against %s" % (blocks[1], blocks[0]), **info)
        ctx.check(same(blocks[2], blocks[0]), "copies:model2", "answers of the model after its copy was changed: %s against %s" % (blocks[2], blocks[0]), **info)
        ctx.check(same(rest, [1.0, 0.0, 0.0]), "copies:model3", "temperature and sample counts of the model after its copy was changed: %s" % rest, **info)
        ctx.distinct("model", kind, p, q)
        ctx.sample(dict(kind=kind, p=p, q=q, filter_p=len(r), n=n))
    ctx.each(400, 4000, case)


UNITS = [
    dict(name="models", fn=unit_models, shards=2, tshards=2),
    dict(name="filters", fn=unit_filters, shards=1, tshards=2),
    dict(name="fresh", fn=unit_fresh, shards=1, tshards=2),
    dict(name="samples", fn=unit_samples, shards=2, tshards=2),
    dict(name="arrays", fn=unit_arrays, shards=1, tshards=2),
    dict(name="copies", fn=unit_copies, shards=1, tshards=1),
]
