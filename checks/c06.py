import itertools
import numpy as np
from lib import gen as G, api as A, dens as D, vx

LEVEL = "exploration"
RULE = ("one case = one data set given sorted, permuted and with repeated times to the filters, the model classes and the Python model; distinct by "
        "object, grid kind, orders, permutation kind and number of duplicates")
ASSUMPTIONS = ["which of several observations at one time is kept is not prescribed, so any choice (value and error together) is accepted"]


def perm_of(rng, n):
    k = str(rng.choice(["reverse", "shuffle", "swap", "rotate"]))
    if k == "reverse":
        return k, np.arange(n)[::-1].copy()
    if k == "swap":
        p = np.arange(n)
        i = int(rng.integers(0, n - 1))
        p[[i, i + 1]] = p[[i + 1, i]]
        return k, p
    if k == "rotate":
        return k, np.roll(np.arange(n), int(rng.integers(1, n)))
    return k, rng.permutation(n)


def same(a, b, rtol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=rtol * (np.abs(b[np.isfinite(b)]).max() if np.isfinite(b).any() else 0), equal_nan=True)


def duplicate(rng, t, y, e, same_values):
    """(t,y,e) with 1-3 extra observations at existing times, plus all de-duplicated versions"""
    n = len(t)
    idx = rng.choice(n, size=int(rng.integers(1, min(3, n) + 1)), replace=False)
    extra_y = y[idx] if same_values else y[idx] + rng.normal(size=len(idx)) * (np.std(y) + 1e-3)
    extra_e = e[idx] if same_values else e[idx] * 1.5 + 1e-3
    T, Y, E = np.append(t, t[idx]), np.append(y, extra_y), np.append(e, extra_e)
    versions = []
    for ch in itertools.product([0, 1], repeat=len(idx)):
        yy, ee = y.copy(), e.copy()
        for c, j, a, b in zip(ch, idx, extra_y, extra_e):
            if c:
                yy[j], ee[j] = a, b
        versions.append((yy, ee))
        if same_values:
            break
    return T, Y, E, versions


def close_pairs(rng, t, y, e):
    """the same data with some observations moved to within a tiny but representable distance of another"""
    t = t.copy()
    tiny = False
    for _ in range(int(rng.integers(1, 3))):
        j = int(rng.integers(1, len(t)))
        g = max(10 ** rng.uniform(-12, -6) * (t[-1] - t[0]), 4 * np.spacing(np.abs(t).max()))
        if g < 0.1 * np.diff(t).min():
            t[j] = t[j - 1] + g
            tiny = True
    return t, tiny


def outputs_filter(ctx, t, y, e, s2, r, ma, car1, ts):
    k = ctx.call("filter construction", A.filt, t, y, e, s2, r, ma, car1)
    m, v = ctx.call("Filter", A.run_filter, k)
    pr = ctx.call("Predict", A.predict, k, ts)
    from lib import vx as V
    V.seed(12345)
    sim = ctx.call("Simulate", A.simulate, k, ts)
    return dict(mean=m, var=v, predict=pr.ravel(), simulate=sim)


def unit_filter(ctx):
    def case(i, rng):
        n = int(rng.choice([3, 6, 15]))
        car1 = rng.random() < 0.4
        p = 1 if car1 else int(rng.integers(2, 5))
        q = 0 if car1 else int(rng.integers(0, p))
        t, tk = G.times(rng, n)
        t = t * G.unit(rng)
        s2, r, ma, var, rk = G.process(rng, p, q, t)
        e, ek = G.errors(rng, n, np.sqrt(var), rng.choice(["uniform", "hetero", "large"]))
        y = G.draw(rng, t, e, s2, r, ma)
        if rng.random() < 0.3:
            t, tiny = close_pairs(rng, t, y, e)
            tk += "+tiny" if tiny else ""
        ts = rng.uniform(t[0] - 0.1 * (t[-1] - t[0]), t[-1] + 0.1 * (t[-1] - t[0]), 3)
        ref = outputs_filter(ctx, t, y, e, s2, r, ma, car1, ts)
        data = dict(t=t, y=y, e=e, sigsqr=s2, roots=r, ma=ma)
        pk, pm = perm_of(rng, n)
        got = outputs_filter(ctx, t[pm], y[pm], e[pm], s2, r, ma, car1, ts)
        for k in ref:
            ctx.check(same(got[k], ref[k]), "filter:order:" + k, "%s changes when the data are given as %s" % (k, pk), perm=pm, **data)
        ctx.distinct("order", tk, p, q, car1, pk, n)
        sv = rng.random() < 0.4
        T, Y, E, vers = duplicate(rng, t, y, e, sv)
        o = rng.permutation(len(T)) if rng.random() < 0.7 else np.argsort(T, kind="stable")
        got = outputs_filter(ctx, T[o], Y[o], E[o], s2, r, ma, car1, ts)
        ok = False
        for yy, ee in vers:
            ref = outputs_filter(ctx, t, yy, ee, s2, r, ma, car1, ts)
            ok = ok or all(same(got[k], ref[k]) for k in ref)
        ctx.check(ok, "filter:dup", "repeated times are not reduced to one observation per time", T=T[o], Y=Y[o], E=E[o], **data)
        ctx.distinct("dup", tk, p, q, car1, sv, len(T) - n)
        ctx.sample(dict(object="filter", perm=pk, n=n, p=p, q=q, duplicates=len(T) - n))
    ctx.each(500, 5000, case)


def _thetas(rng, kind, t, y, p, q):
    out = []
    for _ in range(4):
        th = G.support_theta(rng, t, y, p, q if kind == "CARMA" else 0, 5 * np.std(y))
        if th is not None:
            if kind == "ZCARMA":
                th = np.append(th, rng.normal())
            out.append(th)
    return out


def unit_models(ctx):
    use_vx = True
    try:
        vx.lib("models")
    except vx.Unavailable:
        use_vx = False

    def build(kind, t, y, e, p, q, py):
        if py:
            m = ctx.call("model construction", A.model, kind, t, y, e, p, q)
            return lambda th: ctx.call("getLogDensity", m.getLogDensity, A.vd(th)), None
        m = ctx.call("model construction", vx.Model, kind, t, y, e, p, q)
        return lambda th: ctx.call("LogDensity", m.logdens, th), m

    def case(i, rng):
        kinds = ["CAR1", "CARp", "CARMA"] + (["ZCAR", "ZCARMA"] if use_vx else [])
        kind = kinds[i % len(kinds)]
        py = kind in ("CAR1", "CARp", "CARMA") and (not use_vx or rng.random() < 0.6)
        p = 1 if kind == "CAR1" else int(rng.integers(2, 5))
        q = int(rng.integers(1, p)) if kind == "CARMA" else 0
        n = int(rng.choice([6, 15, 30]))
        t, tk = G.times(rng, n, rng.choice(["irregular", "regular", "mixed", "offset", "seasonal"]))
        d = G.series(rng, n, p=p, q=q)
        y, e = d["y"], np.abs(d["e"]) + 0.05 * np.std(d["y"])
        ths = _thetas(rng, kind, t, y, p, q)
        if rng.random() < 0.3:
            t, tiny = close_pairs(rng, t, y, e)
            tk += "+tiny" if tiny else ""
        f, m0 = build(kind, t, y, e, p, q, py)
        ref = [f(th) for th in ths]
        if kind in ("CAR1", "CARp") and ths:
            # every observation counts, also one right after another
            want = D.logdens(np.array(ths), t, y, e, p)
            for th, a, b in zip(ths, ref, want):
                if np.isfinite(b):
                    ctx.close(a, b, 1e-5 * (1 + abs(b)), "model:all:" + kind, "log-density of data with all times different", kind=kind, t=t, y=y, e=e, theta=th)
        pk, pm = perm_of(rng, n)
        f, m1 = build(kind, t[pm], y[pm], e[pm], p, q, py)
        got = [f(th) for th in ths]
        data = dict(kind=kind, t=t, y=y, e=e, p=p, q=q, thetas=ths)
        ctx.check(same(got, ref), "model:order:" + kind, "log-density changes when the data are given as %s: %r, sorted %r" % (pk, got, ref), perm=pm, **data)
        ctx.distinct("order", kind, py, tk, p, q, pk)
        ctx.count("finite densities", int(np.isfinite(ref).sum()))
        sv = rng.random() < 0.5
        T, Y, E, vers = duplicate(rng, t, y, e, sv)
        o = rng.permutation(len(T)) if rng.random() < 0.7 else np.argsort(T, kind="stable")
        f, m2 = build(kind, T[o], Y[o], E[o], p, q, py)
        got = [f(th) for th in ths]
        ok = False
        for yy, ee in vers:
            f, m3 = build(kind, t, yy, ee, p, q, py)
            # the amplitude bound follows the data, so compare where both are inside
            r2 = [f(th) for th in ths]
            ok = ok or same(got, r2)
            if m3:
                m3.close()
        ctx.check(ok, "model:dup:" + kind, "log-density with repeated times differs from the de-duplicated one", T=T[o], Y=Y[o], E=E[o], **data)
        for m in (m0, m1, m2):
            if m:
                m.close()
        ctx.distinct("dup", kind, py, tk, p, q, sv, len(T) - n)
    ctx.each(300, 3000, case)


def unit_pymodel(ctx):
    """CarmaModel: stored data, and the densities of what it samples"""
    cm = A.cm()

    def case(i, rng):
        n = int(rng.choice([6, 12, 30]))
        d = G.series(rng, n, tkind=rng.choice(["irregular", "regular", "mixed", "offset"]))
        t, y, e = d["t"], d["y"], d["e"] + 0.05 * np.std(d["y"])
        if rng.random() < 0.4:
            t, tiny = close_pairs(rng, t, y, e)
        pk, pm = perm_of(rng, n)
        sv = rng.random() < 0.5
        T, Y, E, vers = duplicate(rng, t, y, e, sv)
        o = rng.permutation(len(T))
        for name, (a, b, c), vv in (("order", (t[pm], y[pm], e[pm]), [(y, e)]), ("dup", (T[o], Y[o], E[o]), vers)):
            ia, ib, ic = a.copy(), b.copy(), c.copy()
            m = ctx.call("CarmaModel", cm.CarmaModel, a, b, c, 1, 0)
            ctx.check(np.array_equal(a, ia) and np.array_equal(b, ib) and np.array_equal(c, ic), "py:modified", "input arrays modified")
            ok = np.array_equal(m.time, t) and any(np.array_equal(m.y, yy) and np.array_equal(m.ysig, ee) for yy, ee in vv)
            ctx.check(ok, "py:" + name, "CarmaModel does not hold the sorted, de-duplicated data", T=a, Y=b, E=c, time=m.time, y=m.y, ysig=m.ysig)
            ok = (np.array_equal(np.array(list(m._time)), m.time) and np.array_equal(np.array(list(m._y)), m.y)
                  and np.array_equal(np.array(list(m._ysig)), m.ysig)) if hasattr(m, "_time") and hasattr(m, "_y") and hasattr(m, "_ysig") else True
            ctx.check(ok, "py:vec", "data handed to the sampler differ from the data shown")
            ctx.distinct(name, pk, sv, n, len(a) - n)
        if i % 6 == 0:
            for p in (1, 2):
                m = cm.CarmaModel(t[pm], y[pm], e[pm], p=p)
                s = ctx.call("run_mcmc", m.run_mcmc, 20, 50)
                lp = s.get_samples("logpost").ravel()
                ref = ctx.call("model construction", A.model, "CAR1" if p == 1 else "CARp", t, y, e, p)
                tail = s.get_samples("log_omega") if p == 1 else np.log(s.get_samples("quad_coefs"))
                th = np.column_stack([np.sqrt(s.get_samples("var")), s.get_samples("measerr_scale"), s.get_samples("mu"), tail])
                want = [ref.getLogDensity(A.vd(x)) for x in th]
                ctx.check(same(lp, want, 1e-6), "py:sampled", "densities of the draws are not those of the sorted data: %r, %r" % (lp[:3], want[:3]),
                          t=t, y=y, e=e, perm=pm, theta=th)
    ctx.each(120, 1200, case)


UNITS = [dict(name="filter", fn=unit_filter, shards=3, tshards=4), dict(name="models", fn=unit_models, shards=3, tshards=4), dict(name="pymodel", fn=unit_pymodel, shards=1)]
