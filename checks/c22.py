import numpy as np
from lib import oracle as O, gen as G, api as A, fake as F, vx
from math import comb

LEVEL = "exploration"
RULE = ("one case = one model class and order with several parameter vectors, moderate and extreme; distinct by class, orders, vector kind and root kind")
ASSUMPTIONS = ["coordinates are kept where exp() of twice their value neither overflows nor underflows",
               "the driving variance is not judged for coincident roots, where the closed form is singular and the prior excludes the vector",
               "a double root computed from a discriminant with rounding error may be reported as a close pair"]


def vector(rng, p, q, kind):
    ext = dict(moderate=2.0, wide=15.0, extreme=100.0)[kind]
    th = np.empty(3 + p + q)
    th[0] = np.exp(rng.uniform(-3, 3))
    th[1] = rng.uniform(0.5, 2)
    th[2] = rng.normal()
    th[3:] = rng.uniform(-ext, ext, p + q)
    for blk in ((3, p), (3 + p, q)):
        for i in range(blk[1] // 2):
            j = blk[0] + 2 * i
            k = rng.choice(["as is", "split", "double", "split"])
            if k == "split":
                # strongly separated real roots
                th[j] = 2 * th[j + 1] - rng.uniform(2, 60)
            elif k == "double":
                th[j] = 2 * th[j + 1] - 2 * np.log(2.0) + rng.choice([0.0, 1e-15, -1e-15, 1e-9, -1e-9])
    return th


def check_roots(ctx, r, logc, key, msg, **data):
    """stable, conjugate symmetric, and factors equal to the polynomial of the vector"""
    r = np.asarray(r)
    ctx.check(np.all(np.isfinite(r)) and np.all(r.real < 0), key + ":stable", msg + ": roots not all in the left half plane", roots=r, **data)
    p = len(r)
    ok = True
    for z in r[np.abs(r.imag) > 0]:
        ok = ok and np.min(np.abs(r - np.conj(z))) <= 1e-12 * abs(z)
    ctx.check(ok, key + ":conj", msg + ": complex roots without conjugate", roots=r, **data)
    # factor by factor: the multiset of roots must reproduce each quadratic
    want = O.quad_roots(logc)
    left = list(range(p))
    worst, okm = 0.0, len(r) == len(want)
    if okm:
        for w in sorted(want, key=lambda z: -abs(z)):
            j = min(left, key=lambda k: abs(r[k] - w))
            left.remove(j)
            # near a double root the roots move by sqrt(eps)
            gap = np.min(np.abs(np.delete(want, np.argmin(np.abs(want - w))) - w)) / abs(w) if p > 1 else 1.0
            tol = 1e-11 if gap > 1e-3 else 1e-6
            err = abs(r[j] - w) / abs(w)
            worst = max(worst, err / tol)
            okm = okm and err <= tol
    ctx.maximum("err/tol roots", worst)
    ctx.check(okm, key + ":roots", msg + ": roots are not those of the quadratic factors", roots=r, expected=want, **data)


def check_ma(ctx, ma, logc, key, msg, **data):
    ma = np.asarray(ma, dtype=float)
    want = O.ma_from_logc(logc)
    w = np.zeros(max(len(ma), len(want)))
    w[:len(want)] = want
    g = np.zeros_like(w)
    g[:len(ma)] = ma
    # every coefficient is a sum of positive terms
    ctx.close(g, w, 1e-11 * np.abs(w) + 1e-300, key + ":ma", msg + ": MA coefficients", **data)
    ctx.check(ma[0] == 1.0 or abs(ma[0] - 1) < 1e-9, key + ":ma0", msg + ": constant MA coefficient is %r" % ma[0], **data)


def check_sigma(ctx, s2, ysig, r, ma, key, msg, **data):
    # loss of digits in the closed form for the variance, and the range of its intermediate values
    r = np.asarray(r, dtype=O.CLD)
    mag = np.array([sum(abs(O.LD(ma[l])) * abs(z) ** l for l in range(len(ma))) for z in r])
    den = np.array([2 * abs(r[k].real) * np.prod([abs((r[l] - r[k]) * (np.conj(r[l]) + r[k])) for l in range(len(r)) if l != k]) for k in range(len(r))])
    c = float((mag ** 2 / den).sum() / O.acv(1.0, r, ma, 0.0))
    parts = np.concatenate([np.log(mag) * 2, np.log(den), np.log(den) - 2 * np.log(mag)] +
                           [2 * (len(r) - 1) * np.log(np.abs(r)), 2 * np.log(np.abs(r))]).astype(float)
    gap = min([abs(r[k] - r[l]) / abs(r[k] + r[l]) for k in range(len(r)) for l in range(k)] or [1.0])
    if gap < 1e-5:
        ctx.count("driving variance not judged (coincident roots)")
        return
    if not np.isfinite(c) or c > 1e8:
        ctx.count("driving variance not judged (cancellation)")
        return
    if not np.all(np.abs(parts) < 600):
        ctx.count("driving variance not judged (range)")
        return
    want = float(O.sigsqr_of(ysig, r, ma))
    if not (1e-250 < want < 1e250):
        ctx.count("driving variance not judged (range)")
        return
    ctx.check(s2 > 0, key + ":sigpos", msg + ": driving variance %r" % s2, **data)
    ctx.close(s2, want, max(1e-11, 200 * 2.3e-16 * c / min(1.0, gap)) * want, key + ":sigsqr", msg + ": driving variance", **data)


def kind_of(r):
    c = int((np.abs(r.imag) > 0).sum())
    return "complex" if c == len(r) else "real" if c == 0 else "mixed"


def unit_cxx(ctx):
    vx.lib("models")

    def case(i, rng):
        kind = ["CAR1", "CARp", "CARMA", "ZCAR", "ZCARMA", "CARMA"][i % 6]
        p = 1 if kind == "CAR1" else int(rng.integers(2, 8))
        q = int(rng.integers(1, p)) if kind == "CARMA" else 0
        d = G.series(rng, 8, tkind="irregular", ekind="uniform")
        m = ctx.call("model construction", vx.Model, kind, d["t"], d["y"], d["e"], p, q)
        for vk in ("moderate", "wide", "extreme"):
            th = vector(rng, p, q, vk)
            if kind == "ZCARMA":
                th = np.append(th, rng.normal() * rng.choice([1, 5, 30, 800]))
            data = dict(kind=kind, p=p, q=q, theta=th)
            r = ctx.call("ExtractAR", m.ar, th)
            msg = "%s(%d,%d)" % (kind, p, q)
            if kind == "CAR1":
                # CAR1 reports the rate itself
                ctx.close(np.abs(r.real), [np.exp(th[3])], 1e-12 * np.exp(th[3]), "car1:rate", "CAR(1) rate", **data)
                s2 = ctx.call("ExtractSigsqr", m.sigsqr, th)
                ctx.close(s2, 2 * th[0] ** 2 * np.exp(th[3]), 1e-10 * 2 * th[0] ** 2 * np.exp(th[3]), "car1:sigsqr", "CAR(1) driving variance", **data)
                ctx.distinct(kind, vk)
                continue
            check_roots(ctx, r, th[3:3 + p], kind, msg, **data)
            ma = ctx.call("ExtractMA", m.ma, th)
            if kind == "CARMA":
                check_ma(ctx, ma, th[3 + p:], kind, msg, **data)
                rr, mm = O.quad_roots(th[3:3 + p]), O.ma_from_logc(th[3 + p:])
            elif kind == "CARp":
                rr, mm = O.quad_roots(th[3:3 + p]), np.array([1.0])
                ctx.check(ma[0] == 1 and np.all(ma[1:] == 0), "CARp:ma", "MA coefficients of CAR(p): %r" % ma, **data)
            else:
                dt = np.diff(d["t"])
                lo, hi = max(1.0 / (d["t"].max() - d["t"].min()), 1.0 / (10 * np.median(dt))), 1.0 / dt.min()
                kap = hi
                if kind == "ZCARMA":
                    x = th[3 + p]
                    kap = lo + (hi - lo) * (1 / (1 + np.exp(-x)) if x >= 0 else np.exp(x) / (1 + np.exp(x)))
                rr, mm = O.quad_roots(th[3:3 + p]), np.array([comb(p - 1, k) / kap ** k for k in range(p)])
                ctx.close(ma, mm, 1e-9 * np.abs(mm), kind + ":ma", "MA coefficients of " + kind, **data)
            s2 = ctx.call("ExtractSigsqr", m.sigsqr, th)
            check_sigma(ctx, s2, th[0], rr, mm, kind, msg, **data)
            ctx.distinct(kind, p, q, vk, kind_of(rr))
            ctx.sample(dict(kind=kind, p=p, q=q, theta=th, roots=r, ma=ma, sigsqr=s2))
        m.close()
    ctx.each(1200, 12000, case)


def unit_density(ctx):
    """through the public interface: in maximum-likelihood mode any finite vector has the density of its process"""
    def case(i, rng):
        p = int(rng.integers(2, 6))
        q = int(rng.integers(0, p))
        d = G.series(rng, 6, tkind="irregular", ekind="uniform")
        t, y, e = d["t"], d["y"], d["e"]
        m = ctx.call("model construction", A.model, "CARMA" if q else "CARp", t, y, e, p, q)
        m.SetMLE(True)
        for vk in ("moderate", "wide"):
            th = vector(rng, p, q, vk)
            th[0] = np.std(y)
            got = ctx.call("getLogDensity", m.getLogDensity, A.vd(th))
            ys, sc, mu, r, ma = O.decode(th, p, q)
            gap = np.min(np.abs(r[:, None] - r[None, :]) / np.abs(r)[:, None] + np.eye(p) * 9)
            s2 = float(O.sigsqr_of(ys, r, ma))
            rel, small = O.judge_tol(t, np.sqrt(sc) * e, s2, r, ma)
            if gap < 1e-2 or not rel < 1e-6:
                ctx.count("density not judged")
                continue
            want = float(O.loglik(t, y, np.sqrt(sc) * e, s2, r, ma, mu)) + O.logprior_scale(sc)
            ctx.close(got, want, 1e-4 * (1 + abs(want)), "density", "density of a vector in maximum-likelihood mode", theta=th, p=p, q=q, t=t, y=y, e=e)
            ctx.distinct("density", p, q, vk, kind_of(r))
    ctx.each(300, 3000, case)


def unit_python(ctx):
    def case(i, rng):
        p = int(rng.integers(2, 8))
        q = int(rng.integers(0, p))
        d = G.series(rng, 6, tkind="irregular", ekind="uniform")
        vks = [str(rng.choice(["moderate", "wide", "extreme"])) for _ in range(5)]
        tr = np.array([vector(rng, p, q, k) for k in vks])
        s, m = ctx.call("CarmaSample", F.sample, d["t"], d["y"], d["e"], p, q, tr)
        R, a, b, sg = (s.get_samples(k) for k in ("ar_roots", "ar_coefs", "ma_coefs", "sigma"))
        for k in range(5):
            data = dict(p=p, q=q, theta=tr[k])
            check_roots(ctx, R[k], tr[k, 3:3 + p], "py", "CarmaSample", **data)
            w = O.quad_poly(tr[k, 3:3 + p]).astype(float)
            ctx.close(a[k], w, 1e-11 * np.abs(w), "py:ar", "AR polynomial is the product of the quadratic factors", **data)
            mm = np.array([1.0])
            if q:
                check_ma(ctx, b[k], tr[k, 3 + p:], "py", "CarmaSample", **data)
                mm = O.ma_from_logc(tr[k, 3 + p:])
            check_sigma(ctx, float(np.ravel(sg[k])[0]) ** 2, tr[k, 0], O.quad_roots(tr[k, 3:3 + p]), mm, "py", "CarmaSample", **data)
            ctx.distinct("py", p, q, vks[k], kind_of(R[k]))
    ctx.each(240, 2400, case)


UNITS = [dict(name="cxx", fn=unit_cxx, shards=3, tshards=4), dict(name="density", fn=unit_density, shards=1), dict(name="python", fn=unit_python, shards=2, tshards=3)]
