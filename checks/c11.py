import numpy as np
from lib import gen as G, api as A, vx

LEVEL = "exploration"
RULE = ("one case = one data set and model class: repeated starting draws, and user starts of right and wrong length, inside and outside the prior, also "
        "through the samplers; distinct by class, orders, grid, size, kind of start")
ASSUMPTIONS = ["at least three distinct times, a non-constant series and non-degenerate errors, so that the prior is not empty"]


def dataset(rng):
    n = int(rng.choice([3, 4, 6, 15, 40]))
    t, tk = G.times(rng, n, rng.choice(["irregular", "regular", "bursty", "seasonal", "widegap", "mixed", "offset", "negative", "hugegap"]))
    unit = float(rng.choice([1.0, 1.0, 1.0, 1e4, 1e-4]))
    t = t * unit
    s2, r, ma, var, rk = G.process(rng, 1, 0, t)
    e, ek = G.errors(rng, n, np.sqrt(var), rng.choice(["uniform", "large", "hetero"]))
    y = G.draw(rng, t, e, s2, r, ma) + np.sqrt(var) * rng.choice([0, 1, 50])
    return n, t, y, e, (tk, unit, n)


def bounds_ok(kind, th, t, y, p, q, maxs):
    """the documented prior, independent of the code, with slack for rounding"""
    from lib import oracle as O
    maxf, minf = 1 / np.diff(t).min(), 1 / (t[-1] - t[0])
    s = 1e-9
    if not np.all(np.isfinite(th)) or not (0 <= th[0] <= maxs * (1 + s)) or not (0.5 - s <= th[1] <= 2 + s):
        return False
    if kind == "CAR1":
        return minf * (1 - s) <= np.exp(th[3]) <= maxf * (1 + s)
    r = O.quad_roots(th[3:3 + p])
    c, w = np.abs(r.imag) / 2 / np.pi, -r.real / 2 / np.pi
    return bool(np.all(c <= maxf * (1 + s)) and np.all(w <= maxf * (1 + s)) and np.all(w >= minf * (1 - s)) and np.all(np.diff(c) <= 1e-6 * maxf))


def unit_draws(ctx):
    vx.lib("models")

    def case(i, rng):
        kind = ["CAR1", "CARp", "CARMA", "ZCAR", "ZCARMA", "CAR1"][i % 6]
        n, t, y, e, kk = dataset(rng)
        p = 1 if kind == "CAR1" else int(rng.integers(2, 6))
        if kind != "CAR1" and i % 30 > 25:
            p = int(rng.integers(6, 9))
        if n < 6:
            p = min(p, 3)
        q = int(rng.integers(0 if rng.random() < 0.3 else 1, p)) if kind == "CARMA" else 0
        npar = 3 + p + q + (1 if kind == "ZCARMA" else 0)
        m = ctx.call("model construction", vx.Model, kind, t, y, e, p, q)
        maxs = 10 * np.std(y, ddof=1)
        if rng.random() < 0.3:
            # the sampler's own bound, or a tighter one
            maxs = float(maxs * rng.choice([0.15, 0.5, np.sqrt((n - 1) / n)]))
            m.setprior(maxs)
        data = dict(kind=kind, t=t, y=y, e=e, p=p, q=q, max_stdev=maxs)
        seen = []
        for j in range(30 if kind == "CAR1" else 6):
            th = ctx.call("StartingValue", m.start)
            seen.append(th)
            ctx.check(len(th) == npar, "start:length", "starting vector of %s(%d,%d) has length %d" % (kind, p, q, len(th)), **data)
            ld = ctx.call("LogDensity", m.logdens, th)
            ctx.check(np.isfinite(ld) and bounds_ok(kind, th, t, y, p, q, maxs), "start:support:" + kind,
                      "starting value of %s with log-density %r" % (kind, ld), theta=th, **data)
        ctx.check(len(set(tuple(x) for x in seen)) > 1, "start:random", "starting values do not vary", **data)
        ctx.distinct("draw", kind, p, q, *kk)
        # user starts
        good = None
        for _ in range(20):
            c = G.support_theta(rng, t, y, p, q, maxs)
            if c is not None and kind == "ZCARMA":
                c = np.append(c, rng.normal())
            if c is not None and np.isfinite(m.logdens(c)):
                good = c
                break
        if good is None:
            good = seen[-1]
        if rng.random() < 0.5:
            # close to a bound of the prior, or on it
            c = good.copy()
            c[1] = float(rng.choice([0.5, 0.5001, 0.505, 1.995, 1.9999, 2.0]))
            if rng.random() < 0.5:
                c[0] = maxs * float(rng.choice([0.9999, 0.99, 1e-9, 1e-4]))
            if np.isfinite(m.logdens(c)):
                good = c
                ctx.count("user starts near a bound")
        got = ctx.call("SetStartingValue", m.setstart, good)
        ctx.check(np.array_equal(got, good), "init:honoured:" + kind, "valid user start not used: %r for %r" % (got, good), theta=good, **data)
        # the value and density held after saving the start are the start's own
        v, lp = ctx.call("Save", m.save, got)
        ctx.check(np.array_equal(v, good), "init:saved", "saved start differs", theta=good, **data)
        ctx.close(lp, m.logdens(good), 1e-9 * (1 + abs(lp)), "init:logpost", "log-posterior saved with the start", theta=good, **data)
        bads = [("short", good[:-1]), ("long", np.append(good, 0.1)), ("one", good[:1]), ("sigma", np.concatenate([[maxs * 3], good[1:]])),
                ("scale", np.concatenate([good[:1], [5.0], good[2:]])), ("nan", np.where(np.arange(npar) == 2, np.nan, good)),
                ("inf", np.where(np.arange(npar) == 2, np.inf, good)), ("freq", np.where(np.arange(npar) == 3, good + 60.0, good)),
                ("wide", np.where(np.arange(npar) == 3, good - 60.0, good))]
        for name, b in bads:
            got = ctx.call("SetStartingValue", m.setstart, b)
            ld = m.logdens(got) if len(got) == npar else np.nan
            ctx.check(len(got) == npar and np.isfinite(ld) and not np.array_equal(got, b), "init:replaced:" + name,
                      "invalid user start (%s) for %s gave a start with log-density %r" % (name, kind, ld), given=b, got=got, **data)
            ctx.distinct("bad", kind, name)
        ctx.sample(dict(kind=kind, p=p, q=q, n=n, grid=kk[0], start=seen[0]))
        m.close()
    ctx.each(300, 3000, case)


def unit_sampler(ctx):
    """through the samplers: recorded draws of very short runs show where the chain started"""
    def case(i, rng):
        n, t, y, e, kk = dataset(rng)
        z = i % 7 == 6
        p = [1, 2, 3][i % 3] if not z else int(rng.integers(2, 4))
        q = 0 if p == 1 or z else int(rng.integers(0, p))
        nw = int(rng.integers(1, 4)) if i % 8 else int(rng.choice([12, 21]))
        npar = 3 + p + q
        maxs = 10 * np.std(y)
        data = dict(t=t, y=y, e=e, p=p, q=q, nwalkers=nw, z=z)
        o = ctx.call("sampler run", A.run, 3, 0, t, y, e, p, q, nw, z)
        S, L = A.samples(o), A.loglikes(o)
        kind = "CAR1" if p == 1 else "CARp"
        ctx.check(np.all(np.isfinite(L)) and all(bounds_ok(kind, x, t, y, p, q, maxs) for x in S), "run:support",
                  "chain recorded %r right after the start" % (L,), samples=S, **data)
        ctx.distinct("run", p, q, nw, z, *kk)
        if z:
            return
        # chain at rest: with a start of finite density the first states are the start or one accepted jump away
        good = None
        for _ in range(20):
            c = G.support_theta(rng, t, y, p, q, maxs * 0.999)
            if c is not None and np.isfinite(o.getLogDensity(A.vd(c))):
                good = c
                break
        if good is None:
            return
        hits = 0
        for k in range(12):
            r = ctx.call("sampler run with start", A.run, 1, 0, t, y, e, p, q, 1 if p == 1 else int(rng.integers(2, 4)), False, 1, good)
            hits += int(np.array_equal(A.samples(r)[0], good))
        # a heavy-tailed proposal from a point far from the mode is refused often; at the start it is used at least once unless every one of 12 moved
        ctx.count("runs that stayed at the user start", hits)
        ctx.count("runs with a user start", 12)
        for name, b in (("short", good[:-1]), ("long", np.append(good, 1.0)), ("sigma", np.concatenate([[maxs * 9], good[1:]])),
                        ("nan", np.where(np.arange(npar) == 2, np.nan, good)), ("scale", np.concatenate([good[:1], [0.2], good[2:]]))):
            r = ctx.call("sampler run with invalid start (%s)" % name, A.run, 2, 0, t, y, e, p, q, nw, False, 1, b)
            L = A.loglikes(r)
            ctx.check(np.all(np.isfinite(L)) and all(bounds_ok(kind, x, t, y, p, q, maxs) for x in A.samples(r)), "run:invalid:" + name,
                      "after an invalid start the chain holds log-densities %r" % (L,), init=b, **data)
            ctx.distinct("runbad", p, q, name)
    ctx.each(120, 1200, case)


def unit_python(ctx):
    """CarmaModel.run_mcmc with init: the chain starts there"""
    cm = A.cm()

    def case(i, rng):
        n = int(rng.choice([15, 40]))
        d = G.series(rng, n, tkind=rng.choice(["irregular", "mixed", "offset"]), ekind="uniform")
        t, y, e = d["t"], d["y"], d["e"]
        p = 1 + i % 3
        q = int(rng.integers(0, p))
        m = ctx.call("CarmaModel", cm.CarmaModel, t, y, e, p, q)
        good = G.support_theta(rng, t, y, p, q, 5 * np.std(y))
        if good is None:
            return
        # far out in the tail of the mean, so that a chain that ignored the start would not be there
        good[2] = np.mean(y) + 40 * np.std(y)
        good[0] = 9.0 * np.std(y)
        near = 0
        for k in range(4):
            init = A.vd(good) if rng.random() < 0.5 else good.copy()
            try:
                s = m.run_mcmc(1, nburnin=1, ntemperatures=2, init=init)
            except TypeError:
                s = ctx.call("run_mcmc with init", m.run_mcmc, 1, nburnin=1, ntemperatures=2, init=A.vd(good))
            mu = float(np.ravel(s.get_samples("mu"))[0])
            near += int(abs(mu - np.mean(y)) > 10 * np.std(y))
        ctx.check(near >= 1, "py:init", "four chains started far from the data are all back at it after two iterations", t=t, y=y, e=e, p=p, q=q, init=good)
        ctx.distinct("py", p, q, n)
        # the same as handing the start to the sampler
        if vx.seed(1):
            ns, nb, nw = int(rng.choice([1, 3])), int(rng.choice([0, 0, 1, 5])), int(rng.choice([1, 2]))
            first = []
            for use in (good, good):
                vx.seed(77 + i)
                a = ctx.call("run_mcmc with init", m.run_mcmc, ns, nburnin=nb, ntemperatures=nw, init=A.vd(use))
                first.append(np.ravel(a.get_samples("mu")))
            if np.array_equal(first[0], first[1]):
                vx.seed(77 + i)
                b = A.samples(ctx.call("sampler run with start", A.run, ns, nb, t, y, e, p, q, nw, False, 1, good))
                ctx.check(np.allclose(first[0], b[:, 2], rtol=1e-12), "py:same", "run_mcmc with a start gives other draws than the sampler with that start",
                          t=t, y=y, e=e, p=p, q=q, init=good, nsamples=ns, nburnin=nb, ntemperatures=nw)
        for b in (good[:-1], np.append(good, 1.0)):
            ctx.call("run_mcmc with init of wrong length", m.run_mcmc, 1, nburnin=1, ntemperatures=2, init=A.vd(b))
    ctx.each(24, 200, case)


def unit_traced(ctx):
    """event log of whole runs: the first state of the recorded chain, and finite densities for every chain"""
    vx.lib("trace")

    def case(i, rng):
        n, t, y, e, kk = dataset(rng)
        z = i % 7 == 6
        p = [1, 2, 3, 2][i % 4] if not z else int(rng.integers(2, 4))
        if n >= 6 and i % 6 == 5:
            p = int(rng.integers(4, 8))
        q = 0 if p == 1 or z else int(rng.integers(0, p))
        nw = int(rng.integers(1, 4)) if i % 8 else int(rng.choice([12, 21]))
        npar = 3 + p + q
        burn, size, thin = int(rng.choice([0, 1, 30])), int(rng.choice([1, 2, 20])), int(rng.choice([1, 4]))
        how = ["valid", "none", "short", "nan", "sigma"][i % 5]
        init = G.support_theta(rng, t, y, p, q, 5 * np.std(y))
        if init is None:
            how = "none"
        if how == "none":
            init = np.empty(0)
        elif how == "short":
            init = init[:-1]
        elif how == "nan":
            init[2] = np.nan
        elif how == "sigma":
            init[0] = 1e3 * np.std(y)
        data = dict(t=t, y=y, e=e, p=p, q=q, nwalkers=nw, z=z, init=init)
        ev, S, L, T = ctx.call("sampler run", vx.traced_run, size, burn, t, y, e, p, q, nw, z, thin, init)
        rec = [x["rec"][0][0] for x in ev if x["kind"] == "record"]
        if not rec:
            ctx.violation("trace:norecord", "nothing was recorded", **data)
            return
        first = {}
        for x in ev:
            if x["kind"] == "metro":
                first.setdefault(x["chain"], (x["old"], x["oldlog"]))
            elif x["kind"] == "exchange":
                for cid, temp, old, ol, new, nl in x["chains"]:
                    first.setdefault(cid, (old, ol))
        for cid, (old, ol) in first.items():
            ctx.check(len(old) == npar and np.isfinite(ol), "trace:finite", "a chain starts from log-density %r (%s)" % (ol, how), theta=old, **data)
        if how == "valid":
            kind = "CAR1" if p == 1 else "CARp" if q == 0 else "CARMA"
            if z:
                m = vx.Model("ZCAR", t, y, e, p, 0)
                ld = m.logdens(init)
                m.close()
            else:
                ld = A.model(kind, t, y, e, p, q).getLogDensity(A.vd(init))
            old, ol = first[rec[0]]
            if np.isfinite(ld):
                ctx.check(np.array_equal(old, init), "trace:init", "the recorded chain starts from %r, not from the user's %r" % (old, init), **data)
                ctx.close(ol, ld, 1e-9 * (1 + abs(ld)), "trace:initlog", "log-posterior of the user start", **data)
        ctx.distinct("traced", p, q, z, nw, how, *kk)
    ctx.each(200, 2000, case)


UNITS = [dict(name="draws", fn=unit_draws, shards=4, tshards=6), dict(name="sampler", fn=unit_sampler, shards=2, tshards=3), dict(name="traced", fn=unit_traced, shards=1, tshards=2), dict(name="python", fn=unit_python, shards=1)]
