import numpy as np
import scipy.integrate as si
from lib import oracle as O, gen as G, api as A, vx

LEVEL = "exploration"
RULE = ("one case = one process and several lags through the Python and the C++ implementation; distinct by implementation, orders, root kind, MA kind, time "
        "unit and lag kind; near-coincident roots are counted but not judged")
ASSUMPTIONS = ["references: residue sum in 80-bit arithmetic, Lyapunov equation with matrix exponential, and numerical integration of the spectrum"]


def one_process(rng):
    p = int(rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10]))
    q = int(rng.integers(0, p))
    unit = float(rng.choice([1.0, 1.0, 1.0, 1e-3, 1e3, 1e-8, 1e8]))
    r, rk = G.roots(rng, p, np.exp(rng.uniform(-2, 2)) / unit)
    mk = str(rng.choice(["minphase", "any", "binomial"])) if q else "none"
    ma = G.ma_coefs(rng, q, 1.0 / unit, mk if q else None)
    if p > 1 and rng.random() < 0.2:
        # two roots, or two pairs of conjugate ones, close to each other
        k = 1 + 10 ** rng.uniform(-4, -1)
        w = np.exp(rng.uniform(-2, 2)) / unit
        if p > 3 and rng.random() < 0.5:
            z = complex(-w, w * np.exp(rng.uniform(-2, 2)))
            r[:4] = [z, np.conj(z), z * k, np.conj(z) * k]
            r[4:] = -w * np.exp(rng.uniform(0.5, 3, p - 4)) if p > 4 else []
        else:
            r = np.array(r, dtype=complex)
            r[:2] = [-w, -w * k]
            r[2:] = -w * np.exp(rng.uniform(0.5, 3, p - 2)) if p > 2 else []
        rk = "close"
    s2 = float(10 ** rng.uniform(-12, 12))
    return p, q, unit, r, rk, ma, mk, s2


def lags(rng, r, unit):
    sc = 1 / np.min(-r.real)
    return [("zero", 0.0), ("short", sc * 1e-3), ("mid", sc * rng.exponential()), ("neg", -sc * rng.exponential()), ("long", sc * 8), ("far", sc * 60), ("negfar", -sc * 20)]


def rel_tol(s2, r, ma):
    """digits lost in the residue sum"""
    rr, c = O.acv_terms(s2, r, ma)
    mag = np.array([sum(abs(O.LD(ma[l])) * abs(z) ** l for l in range(len(ma))) for z in rr])
    num = np.array([abs(sum(O.LD(ma[l]) * z ** l for l in range(len(ma))) * sum(O.LD(ma[l]) * (-z) ** l for l in range(len(ma)))) for z in rr])
    big = float((np.abs(c) * np.where(num > 0, mag ** 2 / np.where(num > 0, num, 1), 1)).sum() / O.acv(s2, r, ma, 0.0))
    return max(1e-11, 300 * 2.3e-16 * big)


def unit_python(ctx):
    cm = A.cm()

    def case(i, rng):
        p, q, unit, r, rk, ma, mk, s2 = one_process(rng)
        rel = rel_tol(s2, r, ma)
        if rel > 1e-5:
            ctx.count("not judged")
            return
        R0 = float(O.acv(s2, r, ma, 0.0))
        data = dict(sigsqr=s2, roots=r, ma=ma)
        r_in, ma_in = r.copy(), ma.copy()
        v0 = ctx.call("carma_variance", cm.carma_variance, s2, r_in, ma_in)
        ctx.check(np.isrealobj(v0) and v0 > 0, "py:positive", "variance is %r" % v0, **data)
        vals = {}
        for name, lag in lags(rng, r, unit):
            got = ctx.call("carma_variance", cm.carma_variance, s2, r_in, ma_in, lag) if name != "zero" else v0
            vals[name] = got
            ctx.close(got, float(O.acv(s2, r, ma, lag)), rel * R0, "py:acv", "carma_variance at a %s lag" % name, lag=lag, **data)
            ctx.check(got == ctx.call("carma_variance", cm.carma_variance, s2, r_in, ma_in, -lag), "py:even", "not even in the lag", lag=lag, **data)
            ctx.check(abs(got) <= v0 * (1 + rel), "py:bounded", "autocovariance above the variance", lag=lag, **data)
            ctx.distinct("py", p, q, rk, mk, unit, name)
        k = float(np.exp(rng.uniform(-5, 5)))
        lag = lags(rng, r, unit)[2][1]
        a, b = cm.carma_variance(s2, r_in, ma_in, lag), cm.carma_variance(k * s2, r_in, ma_in, lag)
        ctx.close(b, k * a, 1e-12 * k * R0, "py:linear", "not linear in the driving variance", **data)
        ctx.check(np.array_equal(r, r_in) and np.array_equal(ma, ma_in), "py:modified", "arguments modified", **data)
        if q == 0:
            ctx.close(ctx.call("carma_variance without MA", cm.carma_variance, s2, r_in), R0, rel * R0, "py:default", "default MA coefficients", **data)
        # padded MA coefficients and an array of lags describe the same thing
        pad = np.concatenate([ma, np.zeros(p - len(ma))])
        la = np.array([x for _, x in lags(rng, r, unit)])
        got = ctx.call("carma_variance of padded MA", cm.carma_variance, s2, r_in, pad, la[3])
        ctx.close(got, float(O.acv(s2, r, ma, la[3])), rel * R0, "py:padded", "padded MA coefficients", **data)
        if i % 4 == 0:
            ly = O.acv_lyapunov(s2, r, ma, la[:4]) if p <= 4 and unit == 1.0 else None
            if ly is not None:
                ctx.close([cm.carma_variance(s2, r_in, ma_in, x) for x in la[:4]], ly, 1e-6 * R0, "py:statespace", "state-space autocovariance", **data)
        ctx.sample(dict(p=p, q=q, roots=r, ma=ma, sigsqr=s2, variance=v0))
    ctx.each(1500, 15000, case)


def unit_spectrum(ctx):
    """variance and autocovariance are the Fourier transform of the package's own power spectrum"""
    cm = A.cm()

    def case(i, rng):
        p, q, unit, r, rk, ma, mk, s2 = one_process(rng)
        ar = np.poly(r).real
        rate = np.abs(r).max()
        f = lambda u: ctx.call("power_spectrum", cm.power_spectrum, np.asarray(u), np.sqrt(s2), ar, ma)
        # f = x/(1-x) maps to the half line
        g = np.array([z.imag for z in r if z.imag > 0] + [abs(z) for z in r]) / (2 * np.pi)
        sc = np.exp(np.mean(np.log(g)))

        def integrand(x):
            return f(np.array([sc * x / (1 - x)]))[0] * sc / (1 - x) ** 2
        pts = sorted(set([float(v / sc / (1 + v / sc)) for v in g]))
        edges = [0.0] + pts + [1.0 - 1e-12]
        tot = sum(si.quad(integrand, a, b, limit=300, epsabs=0, epsrel=1e-9)[0] for a, b in zip(edges[:-1], edges[1:]) if b > a)
        # behaves like f^-2(p-q) at the end
        got = ctx.call("carma_variance", cm.carma_variance, s2, r, ma)
        tail = 1e-5 if p - q >= 1 else 1e-3
        ctx.close(2 * tot, got, tail * got, "ft:variance", "integral of the spectrum against the variance", roots=r, ma=ma, sigsqr=s2)
        ctx.distinct("ft", p, q, rk, mk, unit)
    ctx.each(60, 600, case)


def unit_cxx(ctx):
    vx.lib("models")
    cm = A.cm()

    def case(i, rng):
        p, q, unit, r, rk, ma, mk, s2 = one_process(rng)
        if p == 1:
            p, r = 2, np.array([r[0], 2.2 * r[0]])
        rel = rel_tol(s2, r, ma)
        if rel > 1e-5:
            ctx.count("not judged")
            return
        d = G.series(rng, 5, tkind="irregular", ekind="uniform")
        kind = ["CARp", "CARMA", "ZCAR", "ZCARMA"][i % 4]
        m = ctx.call("model construction", vx.Model, kind, d["t"], d["y"], d["e"], p, min(q, p - 1) if kind == "CARMA" else 0)
        R0 = float(O.acv(s2, r, ma, 0.0))
        data = dict(kind=kind, sigsqr=s2, roots=r, ma=ma)
        for mm in (ma, np.concatenate([ma, np.zeros(p - len(ma))])):
            for name, lag in lags(rng, r, unit):
                got = ctx.call("Variance", m.variance, r, mm, np.sqrt(s2), lag)
                ctx.close(got, float(O.acv(s2, r, ma, lag)), rel * R0, "cxx:acv", "CARp::Variance at a %s lag" % name, lag=lag, **data)
                py = ctx.call("carma_variance", cm.carma_variance, s2, r, ma, lag)
                ctx.close(got, py, rel * R0, "cxx:agree", "C++ and Python differ at a %s lag" % name, lag=lag, **data)
                ctx.distinct("cxx", kind, p, q, rk, mk, unit, name)
        m.close()
    ctx.each(600, 6000, case)


def unit_roots(ctx):
    """roots given as Lorentzian widths and centroids"""
    cm = A.cm()

    def case(i, rng):
        npair = int(rng.integers(0, 4))
        odd = bool(rng.random() < 0.5) or npair == 0
        unit = float(rng.choice([1.0, 1e-3, 1e3, 1e-12]))
        w = np.exp(rng.uniform(-3, 1, npair + odd)) * unit
        c = np.exp(rng.uniform(-3, 1, npair)) * unit
        zero = npair > 0 and rng.random() < 0.2
        if zero:
            c[-1] = 0.0
        got = np.asarray(ctx.call("get_ar_roots", cm.get_ar_roots, w, c))
        want = []
        for k in range(npair):
            want.append(-2 * np.pi * complex(w[k], c[k]))
            if c[k] > 0:
                want.append(-2 * np.pi * complex(w[k], -c[k]))
        if odd:
            want.append(-2 * np.pi * w[-1])
        want = np.array(want)
        ok = got.shape == want.shape
        left = list(got)
        for z in want:
            if not left:
                ok = False
                break
            j = int(np.argmin(np.abs(np.array(left) - z)))
            ok = ok and abs(left[j] - z) <= 1e-12 * abs(z)
            left.pop(j)
        ctx.check(ok, "roots", "roots of widths %r and centroids %r: %r" % (w, c, got))
        ctx.distinct("roots", npair, odd, unit, zero)
    ctx.each(200, 1000, case)


UNITS = [dict(name="python", fn=unit_python, shards=2, tshards=4), dict(name="spectrum", fn=unit_spectrum, shards=2, tshards=3),
         dict(name="cxx", fn=unit_cxx, shards=2, tshards=3), dict(name="roots", fn=unit_roots, shards=1)]
