import numpy as np
from lib import oracle as O, gen as G, api as A, dens as D, vx

LEVEL = "exploration"
RULE = ("one case = one data set, class and order; each in-support vector is moved across every bound separately, by small and large amounts; distinct by "
        "class, order, grid, bound and side; vectors closer to a bound than the rounding of the comparison are not judged")
ASSUMPTIONS = ["CAR(1) bounds its rate, CAR(p) its roots divided by 2 pi", "roots coincide if |a-b|/|a+b| is below 1e-4; half and twice of that are judged, in between not"]


def quads(r):
    co = []
    for i in range(len(r) // 2):
        a, b = r[2 * i], r[2 * i + 1]
        co += [np.log((a * b).real), np.log(-(a + b).real)]
    if len(r) % 2:
        co.append(np.log(-r[-1].real))
    return np.array(co)


def variants(rng, th, p, q, minf, maxf, maxs):
    """(name, expected inside?, vector)"""
    out = [("inside", True, th)]

    def with_(i, v):
        x = th.copy()
        x[i] = v
        return x
    for d in (1e-6, 0.05, 3.0):
        out += [("sigma+", False, with_(0, maxs * (1 + d))), ("sigma-", False, with_(0, -d * maxs)),
                ("scale+", False, with_(1, 2 * (1 + d))), ("scale-", False, with_(1, 0.5 * (1 - min(d, 0.9))))]
    out += [("sigma+in", True, with_(0, maxs * (1 - 1e-6))), ("sigma-in", True, with_(0, maxs * 1e-3)),
            ("scale+in", True, with_(1, 2 * (1 - 1e-6))), ("scale-in", True, with_(1, 0.5 * (1 + 1e-6))),
            # the bounds themselves belong to the support
            ("scale+at", True, with_(1, 2.0)), ("scale-at", True, with_(1, 0.5)), ("sigma-at", True, with_(0, 0.0))]
    if p == 1:
        for d in (1e-6, 0.02, 3.0):
            out += [("freq+", False, with_(3, np.log(maxf * (1 + d)))), ("freq-", False, with_(3, np.log(minf / (1 + d))))]
        out += [("freq+in", True, with_(3, np.log(maxf * (1 - 1e-6)))), ("freq-in", True, with_(3, np.log(minf * (1 + 1e-6))))]
        return out
    r0 = O.quad_roots(th[3:3 + p])
    tp = 2 * np.pi

    def add(name, inside, r):
        x = th.copy()
        x[3:3 + p] = quads(np.array(r))
        out.append((name, inside, x))

    cpl = [i for i in range(0, p - 1, 2) if r0[i].imag != 0]
    real = [i for i in range(0, p - 1, 2) if r0[i].imag == 0]
    for d in (1e-6, 0.02, 2.0):
        for i in cpl:
            r = r0.copy()
            w = tp * maxf * (1 + d)
            r[i], r[i + 1] = complex(r[i].real, w), complex(r[i].real, -w)
            add("cent+", False, r)
            r = r0.copy()
            r[i], r[i + 1] = complex(-tp * maxf * (1 + d), r0[i].imag), complex(-tp * maxf * (1 + d), -r0[i].imag)
            add("width+", False, r)
            r = r0.copy()
            r[i], r[i + 1] = complex(-tp * minf / (1 + d), r0[i].imag), complex(-tp * minf / (1 + d), -r0[i].imag)
            add("width-", False, r)
        for i in real:
            # both roots of the factor known exactly
            r = r0.copy()
            a, b = sorted([-r0[i].real, -r0[i + 1].real])
            r[i], r[i + 1] = -tp * maxf * (1 + d), -a
            add("realwidth+", False, r)
            r = r0.copy()
            r[i], r[i + 1] = -tp * minf / (1 + d), -b
            add("realwidth-", False, r)
        if p % 2:
            r = r0.copy()
            r[-1] = -tp * maxf * (1 + d)
            add("lastwidth+", False, r)
            r = r0.copy()
            r[-1] = -tp * minf / (1 + d)
            add("lastwidth-", False, r)
    if p % 2:
        r = r0.copy()
        r[-1] = -tp * minf * (1 + 1e-5)
        if np.min(np.abs(r[:-1] - r[-1])) > 1e-2 * abs(r[-1]):
            add("lastwidth-in", True, r)
        r = r0.copy()
        r[-1] = -tp * maxf * (1 - 1e-5)
        if np.min(np.abs(r[:-1] - r[-1])) > 1e-2 * abs(r[-1]):
            add("lastwidth+in", True, r)
    # order of the centroids: exchange two factors with clearly different centroids
    for i in range(0, p - 3, 2):
        a, b = abs(r0[i].imag), abs(r0[i + 2].imag)
        if a - b > 1e-4 * maxf * tp:
            r = r0.copy()
            r[i:i + 2], r[i + 2:i + 4] = r0[i + 2:i + 4], r0[i:i + 2]
            add("order", False, r)
        # slightly out of order
        if a > 0 and b > 0:
            for eps in (1e-4, 1e-2):
                w = a * (1 + eps)
                if w < tp * maxf * 0.999:
                    r = r0.copy()
                    r[i + 2], r[i + 3] = complex(r0[i + 2].real, w), complex(r0[i + 2].real, -w)
                    add("slightorder", None if eps * a < 1e-6 * maxf else False, r)
    # coincident roots
    for i in range(0, p - 3, 2):
        if r0[i].imag != 0 and r0[i + 2].imag != 0:
            r = r0.copy()
            r[i + 2], r[i + 3] = r[i] * (1 - 1e-9), r[i + 1] * (1 - 1e-9)
            add("coincide", False, r)
    if p % 2 and real:
        r = r0.copy()
        r[-1] = r[real[-1]] * (1 + 1e-9)
        add("coincide", False, r)
    # roots that nearly coincide: within one factor, in two factors, with the odd one
    tol = 1e-4

    def frac(r):
        d = np.abs((r[:, None] - r[None, :]) / (r[:, None] + r[None, :])) + 9 * np.eye(len(r))
        return d.min()
    for name, f in (("near", 0.5), ("almost", 2.0)):
        todo = []
        for i in real:
            todo.append((i + 1, None, r0[i] * (1 + 2 * f * tol)))
        for i in range(0, p - 3, 2):
            if r0[i].imag != 0 and r0[i + 2].imag != 0:
                todo.append((i + 2, i + 3, r0[i] * (1 - 2 * f * tol)))
        if p % 2:
            for i in real:
                todo.append((p - 1, None, r0[i] * (1 - 2 * f * tol)))
        for a, b, z in todo:
            r = r0.copy().astype(complex)
            r[a] = z
            if b is not None:
                r[b] = np.conj(z)
            fr = frac(r)
            w = -r.real / tp
            if name == "near" and fr < 0.7 * tol:
                add(name, False, r)
            elif name == "almost" and fr > 1.5 * tol and w.min() > minf * 1.001 and w.max() < maxf * 0.999:
                add(name, True, r)
    return out


def unit_bounds(ctx):
    try:
        vx.lib("models")
        cxx = True
    except vx.Unavailable:
        cxx = False

    def case(i, rng):
        kinds = ["CAR1", "CARp", "CARMA"] + (["ZCAR", "ZCARMA"] if cxx else [])
        kind = kinds[i % len(kinds)]
        p = 1 if kind == "CAR1" else int(rng.choice([2, 3, 4, 5, 6, 7]))
        q = int(rng.integers(1, p)) if kind == "CARMA" else 0
        n = int(rng.choice([4, 10, 25]))
        t, tk = G.times(rng, n, rng.choice(["irregular", "regular", "mixed", "offset", "bursty", "seasonal"]))
        # the time unit must not matter
        unit = float(rng.choice([1.0, 1.0, 1.0, 1e7, 1e-5, 1e10, 1e-10]))
        t = t * unit
        s2, r, ma, var, rk = G.process(rng, p, q, t)
        e, ek = G.errors(rng, n, np.sqrt(var), rng.choice(["uniform", "large"]))
        y = G.draw(rng, t, e, s2, r, ma) + np.sqrt(var)
        py = kind in ("CAR1", "CARp", "CARMA") and (not cxx or rng.random() < 0.5)
        maxf, minf = 1.0 / np.diff(t).min(), 1.0 / (t.max() - t.min())
        maxs = 10 * np.std(y, ddof=1)
        if py:
            m = ctx.call("model construction", A.model, kind, t, y, e, p, q)
            dens = lambda x: ctx.call("getLogDensity", m.getLogDensity, A.vd(x))
            mle = (lambda on: ctx.call("SetMLE", m.SetMLE, on)) if kind != "CAR1" else None
        else:
            m = ctx.call("model construction", vx.Model, kind, t, y, e, p, q)
            dens = lambda x: ctx.call("LogDensity", m.logdens, x)
            mle = lambda on: ctx.call("SetMLE", m.setmle, on)
            if rng.random() < 0.4:
                maxs = float(maxs * np.exp(rng.uniform(-1, 2)))
                m.setprior(maxs)
                ctx.count("SetPrior used")
        th = G.support_theta(rng, t, y, p, q, maxs)
        if th is None:
            return
        if kind == "ZCARMA":
            th = np.append(th, rng.normal())
        data = dict(kind=kind, py=py, t=t, y=y, e=e, p=p, q=q, max_stdev=maxs)
        vs = variants(rng, th, p, q, minf, maxf, maxs)
        first = {}
        for name, inside, x in vs:
            if inside is None:
                continue
            got = dens(x)
            first[name] = got
            if inside:
                ctx.check(np.isfinite(got), "inside:%s" % name, "log-density of %s is %r inside the prior (%s)" % (kind, got, name), theta=x, **data)
            else:
                ctx.check(got == -np.inf, "outside:%s" % name, "log-density of %s is %r outside the prior (%s)" % (kind, got, name), theta=x, **data)
            ctx.distinct(kind, py, p, q, tk, unit, name)
        if mle:
            before = [(name, x, dens(x)) for name, _, x in vs]
            mle(True)
            # the likelihood without bounds, from an independent computation
            from checks.c02 import encode
            for name, inside, x in vs:
                got = dens(x)
                if name.startswith("sigma-") or name in ("coincide",):
                    continue
                ys, sc, mu, rr, mm, lp = encode(kind, x, t, p, q)
                s2x = float(O.sigsqr_of(ys, rr, mm))
                es = np.sqrt(sc) * e
                rel, small = O.judge_tol(t, es, s2x, rr, mm)
                if np.isfinite(rel) and rel < 1e-3:
                    ctx.check(np.isfinite(got), "mle:finite", "density in maximum-likelihood mode is %r (%s, %s)" % (got, kind, name), theta=x, **data)
                if not np.isfinite(rel) or rel > 1e-7:
                    ctx.count("mle mode not judged")
                    continue
                want = float(O.loglik(t, y, es, s2x, rr, mm, mu)) + lp
                ctx.close(got, want, 1e-5 * (1 + abs(want)), "mle:value", "density in maximum-likelihood mode (%s, %s)" % (kind, name), theta=x, **data)
                ctx.distinct("mle", kind, py, p, q, name)
            mle(False)
            for name, x, b in before:
                got = dens(x)
                ctx.check(got == b or (np.isnan(got) and np.isnan(b)), "mle:back", "switching maximum-likelihood mode off does not restore the density (%s): %r, was %r" % (name, got, b),
                          theta=x, **data)
        ctx.sample(dict(kind=kind, p=p, q=q, n=n, unit=unit, densities={k: first[k] for k in list(first)[:6]}))
        if not py:
            m.close()
    ctx.each(400, 4000, case)


def unit_hostile(ctx):
    """inside of the bounds the log-density is finite, also where neighbouring values determine each other to rounding errors"""
    def case(i, rng):
        p = int(rng.choice([1, 2, 2, 3, 4, 5, 6, 7]))
        q = 0 if p == 1 else int(rng.integers(0, min(p, 4)))
        n = int(rng.choice([3, 10, 40, 40, 300]))
        how = ["dense", "close", "random"][i % 3]
        if how == "close":
            t = np.cumsum(10.0 ** rng.uniform(rng.choice([-14, -9, -5, -3]), 0, n))
        elif how == "dense":
            t = 10.0 + np.cumsum(rng.uniform(0.9, 1.1, n)) * 10.0 ** rng.uniform(-6, 0)
        else:
            t, _ = G.times(rng, n)
        t = t * G.unit(rng)
        if not np.all(np.diff(t) > 0):
            return
        y = (np.sin(np.linspace(0, 7, n)) + 10.0 ** rng.uniform(-8, 0) * rng.normal(size=n)) * 10.0 ** rng.uniform(-3, 3) + rng.choice([0, 100])
        e, ek = G.errors(rng, n, np.std(y), rng.choice(["zero", "zero", "somezero", "tiny"]))
        if how != "random":
            e = e * 1e-3
        kind = "CAR1" if p == 1 else "CARp" if q == 0 else "CARMA"
        m = ctx.call("construction", A.model, kind, t, y, e, p, q)
        for _ in range(4):
            th = G.support_theta(rng, t, y, p, q)
            if th is None:
                ctx.count("no parameters found")
                continue
            if not D.support(th[None, :], t, p, 10 * np.std(y, ddof=1))[0]:
                ctx.count("on a bound")
                continue
            v = ctx.call("getLogDensity", m.getLogDensity, A.vd(th))
            ctx.check(np.isfinite(v), "hostile:finite", "log-density %r inside of the prior bounds" % v, t=t, y=y, e=e, p=p, q=q, theta=th)
            ctx.distinct("hostile", how, ek, p, q, n)
    ctx.each(600, 6000, case)


UNITS = [dict(name="hostile", fn=unit_hostile, shards=2, tshards=2), dict(name="bounds", fn=unit_bounds, shards=4, tshards=8)]
