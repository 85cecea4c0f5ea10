"""ctypes access to the C entry points of aux/."""
import ctypes as C
import os
import numpy as np

_libs = {}
PKG = None


class Unavailable(Exception):
    """the group of entry points does not fit the code as it is now"""


class CxxError(Exception):
    pass


def lib(name):
    if name not in _libs:
        import carmcmc._carmcmc  # noqa: F401  loads the extension first
        path = os.path.join(os.path.dirname(carmcmc._carmcmc.__file__), "vx_%s.so" % name)
        if not os.path.exists(path):
            raise Unavailable(name)
        l = C.CDLL(path)
        l.vx_error.restype = C.c_char_p
        _libs[name] = l
    return _libs[name]


def darr(x):
    return np.ascontiguousarray(np.asarray(x, dtype=np.float64))


def dp(a):
    return a.ctypes.data_as(C.POINTER(C.c_double))


def lp(a):
    return a.ctypes.data_as(C.POINTER(C.c_long))


def _d(x):
    return C.c_double(float(x))


def chk(l, rc):
    if rc == -1:
        raise CxxError(l.vx_error().decode("utf8", "replace"))
    if rc == -2:
        raise ValueError("entry point does not support this")
    return rc


def seed(s):
    try:
        lib("core").vx_seed(C.c_ulong(int(s) & 0x7fffffff))
        return True
    except Unavailable:
        return False


KINDS = dict(exp=0, normal=1, lognormal=2, uniform=3, uniformint=4, powerlaw=5, tdist=6, chisqr=7, sichisqr=8, gamma=9, invgamma=10)


def rng(kind, n, a=0, b=0, c=0):
    l = lib("core")
    out = np.empty(n)
    chk(l, l.vx_rng(KINDS[kind], _d(a), _d(b), _d(c), C.c_long(n), dp(out)))
    return out


def rng_second(kind, n, a=0, b=0, c=0):
    l = lib("core")
    out = np.empty(n)
    chk(l, l.vx_rng_second(KINDS[kind], _d(a), _d(b), _d(c), C.c_long(n), dp(out)))
    return out


def mvn(cov, n):
    l = lib("core")
    cov = darr(cov)
    out = np.empty((n, len(cov)))
    chk(l, l.vx_rng_mvn(len(cov), dp(cov), C.c_long(n), dp(out)))
    return out


def setseed(s):
    l = lib("core")
    chk(l, l.vx_rng_setseed(C.c_ulong(s)))


def save(path):
    l = lib("core")
    chk(l, l.vx_rng_save(path.encode()))


def recover(path):
    l = lib("core")
    chk(l, l.vx_rng_recover(path.encode()))


def prop(kind, a, b, start, n):
    l = lib("core")
    out = np.empty(n)
    chk(l, l.vx_prop(kind, _d(a), _d(b), _d(start), C.c_long(n), dp(out)))
    return out


def prop_logdens(kind, a, b, new, start):
    l = lib("core")
    l.vx_prop_logdens.restype = C.c_double
    return l.vx_prop_logdens(kind, _d(a), _d(b), _d(new), _d(start))


def prop_mvn(cov, start, n):
    l = lib("core")
    cov, start = darr(cov), darr(start)
    out = np.empty((n, len(start)))
    chk(l, l.vx_prop_mvn(len(start), dp(cov), dp(start), C.c_long(n), dp(out)))
    return out


class Model:
    KIND = dict(CAR1=0, CARp=1, CARMA=2, ZCAR=3, ZCARMA=4)

    def __init__(self, kind, t, y, e, p=1, q=0, temp=1.0):
        l = self.l = lib("models")
        l.vx_model_new.restype = C.c_void_p
        l.vx_model_temp.restype = C.c_double
        self.kind, self.p, self.q, self.n = kind, p, q, len(t)
        self.npar = 3 + p + (q if kind == "CARMA" else 1 if kind == "ZCARMA" else 0)
        a, b, c = darr(t), darr(y), darr(e)
        h = l.vx_model_new(self.KIND[kind], len(a), dp(a), dp(b), dp(c), p, q, _d(temp))
        if not h:
            raise CxxError(l.vx_error().decode("utf8", "replace"))
        self.h = C.c_void_p(h)

    def close(self):
        if self.h:
            self.l.vx_model_free(self.h)
            self.h = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _dbl(self, fn, th):
        th = darr(th)
        out = np.empty(1)
        chk(self.l, getattr(self.l, fn)(self.h, dp(th), len(th), dp(out)))
        return float(out[0])

    def logdens(self, th):
        return self._dbl("vx_model_logdens", th)

    def logprior(self, th):
        return self._dbl("vx_model_logprior", th)

    def sigsqr(self, th):
        return self._dbl("vx_model_sigsqr", th)

    def bounds(self, th):
        th = darr(th)
        return bool(chk(self.l, self.l.vx_model_bounds(self.h, dp(th), len(th))))

    def ar(self, th):
        th = darr(th)
        re, im = np.empty(64), np.empty(64)
        n = chk(self.l, self.l.vx_model_ar(self.h, dp(th), len(th), dp(re), dp(im)))
        return re[:n] + 1j * im[:n]

    def ma(self, th):
        th = darr(th)
        out = np.empty(64)
        n = chk(self.l, self.l.vx_model_ma(self.h, dp(th), len(th), dp(out)))
        return out[:n].copy()

    def start(self):
        out = np.empty(64)
        n = chk(self.l, self.l.vx_model_start(self.h, dp(out)))
        return out[:n].copy()

    def setstart(self, th):
        th = darr(th)
        out = np.empty(64)
        n = chk(self.l, self.l.vx_model_setstart(self.h, dp(th), len(th), dp(out)))
        return out[:n].copy()

    def setmle(self, on):
        chk(self.l, self.l.vx_model_setmle(self.h, int(on)))

    def setprior(self, s):
        chk(self.l, self.l.vx_model_setprior(self.h, _d(s)))

    def setkappa(self, lo, hi):
        chk(self.l, self.l.vx_model_setkappa(self.h, _d(lo), _d(hi)))

    def temp(self):
        return float(self.l.vx_model_temp(self.h))

    def save(self, th):
        th = darr(th)
        out, lpo = np.empty(64), np.empty(1)
        chk(self.l, self.l.vx_model_save(self.h, dp(th), len(th), dp(out), dp(lpo)))
        return out[:len(th)].copy(), float(lpo[0])

    def kalman(self, th):
        th = darr(th)
        m, v = np.empty(self.n + 8), np.empty(self.n + 8)
        chk(self.l, self.l.vx_model_kalman(self.h, dp(th), len(th), dp(m), dp(v)))
        return m[:self.n].copy(), v[:self.n].copy()

    def data(self):
        t, y, e = np.full(self.n, np.nan), np.full(self.n, np.nan), np.full(self.n, np.nan)
        chk(self.l, self.l.vx_model_data(self.h, dp(t), dp(y), dp(e)))
        return t, y, e

    def variance(self, roots, ma, sigma, dt=0.0):
        re, im, m = darr(np.real(roots)), darr(np.imag(roots)), darr(ma)
        out = np.empty(1)
        chk(self.l, self.l.vx_model_variance(self.h, len(re), dp(re), dp(im), len(m), dp(m), _d(sigma), _d(dt), dp(out)))
        return float(out[0])


def polycoefs(roots):
    l = lib("models")
    re, im = darr(np.real(roots)), darr(np.imag(roots))
    out = np.empty(len(re) + 1)
    chk(l, l.vx_polycoefs(len(re), dp(re), dp(im), dp(out)))
    return out


def unique_roots(roots, tol):
    l = lib("models")
    re, im = darr(np.real(roots)), darr(np.imag(roots))
    return bool(chk(l, l.vx_unique_roots(len(re), dp(re), dp(im), _d(tol))))


def logit(x):
    l = lib("models")
    l.vx_logit.restype = C.c_double
    return l.vx_logit(_d(x))


def inv_logit(x):
    l = lib("models")
    l.vx_inv_logit.restype = C.c_double
    return l.vx_inv_logit(_d(x))


def kf(t, y, e, sigsqr, roots, ma, how=0, car1=False):
    l = lib("models")
    t, y, e, ma = darr(t), darr(y), darr(e), darr(ma)
    if car1:
        re, im, p = darr([roots]), darr([0.0]), 0
    else:
        re, im = darr(np.real(roots)), darr(np.imag(roots))
        p = len(re)
    m, v, n = np.empty(len(t) + 8), np.empty(len(t) + 8), C.c_int(0)
    chk(l, l.vx_kf(p, len(t), dp(t), dp(y), dp(e), _d(sigsqr), dp(re), dp(im), len(ma), dp(ma), how, dp(m), dp(v), C.byref(n)))
    return m[:n.value].copy(), v[:n.value].copy()


def ram_trace(cov0, P, kind, lo, temp, target, maxiter, niter, x0, propkind=1, pa=8.0, pb=1.0, gamma=0.0):
    """dict of arrays over iterations"""
    l = lib("steps")
    cov0, P, x0 = darr(cov0), darr(P), darr(x0)
    d = len(x0)
    w = d + 1 + d + 1 + d + 1 + 1 + d + 1 + 2 + d * d
    out = np.empty((niter, w))
    chk(l, l.vx_ram_trace(d, dp(cov0), dp(P), kind, _d(lo), _d(temp), _d(target), int(maxiter), int(niter), propkind, _d(pa), _d(pb),
                          _d(gamma), dp(x0), dp(out)))
    i = 0

    def take(k):
        nonlocal i
        r = out[:, i:i + k]
        i += k
        return r
    R = {}
    for name, k in [("old", d), ("oldlog", 1), ("unit", d), ("ndraw", 1), ("prop", d), ("proplog", 1), ("nquery", 1), ("new", d), ("newlog", 1),
                    ("ratio", 1), ("rate", 1), ("cov", d * d)]:
        a = take(k)
        R[name] = a[:, 0] if k == 1 and name not in ("old", "unit", "prop", "new", "cov") else a
    R["cov"] = R["cov"].reshape(niter, d, d)
    return R


def metrop_vec(P, kind, lo, temp, propkind, cov, a, walkers, niter, moveall=False):
    l = lib("steps")
    P, cov, walkers = darr(P), darr(cov), darr(walkers)
    nw, d = walkers.shape
    w = 3 * d + 5
    out = np.empty((niter, w))
    chk(l, l.vx_metrop_vec(d, dp(P), kind, _d(lo), _d(temp), propkind, dp(cov), _d(a), nw, dp(walkers), niter, int(moveall), dp(out)))
    return dict(old=out[:, :d], oldlog=out[:, d], prop=out[:, d + 1:2 * d + 1], proplog=out[:, 2 * d + 1], nquery=out[:, 2 * d + 2],
                new=out[:, 2 * d + 3:3 * d + 3], newlog=out[:, 3 * d + 3], ratio=out[:, 3 * d + 4])


def metrop_scalar(kind, a, temp, propkind, pa, pb, x0, niter):
    l = lib("steps")
    out = np.empty((niter, 8))
    chk(l, l.vx_metrop_scalar(kind, _d(a), _d(temp), propkind, _d(pa), _d(pb), _d(x0), niter, dp(out)))
    return dict(zip(["old", "oldlog", "prop", "proplog", "nquery", "new", "newlog", "ratio"], out.T))


def gibbs(d, centre, niter):
    l = lib("steps")
    out = np.empty((niter, d + 1))
    chk(l, l.vx_gibbs(d, _d(centre), niter, dp(out)))
    return out


def exchange(temps, vals):
    l = lib("steps")
    temps, vals = darr(temps), darr(vals)
    n, nc = vals.shape
    out = np.empty((n, 2 + 4 * nc))
    chk(l, l.vx_exchange(nc, dp(temps), n, dp(vals), dp(out)))
    return out[:, 0].astype(int), out[:, 1:1 + 2 * nc].reshape(n, nc, 2), out[:, 1 + 2 * nc:1 + 4 * nc].reshape(n, nc, 2), out[:, -1]


def exchange_raw(ti, tj, li, lj):
    l = lib("steps")
    li, lj = darr(li), darr(lj)
    out = np.empty((len(li), 5))
    chk(l, l.vx_exchange_raw(_d(ti), _d(tj), len(li), dp(li), dp(lj), dp(out)))
    return out


def cholupdate(L, v, down):
    l = lib("steps")
    L, v = darr(L), darr(v)
    out = np.empty((len(v), len(v)))
    chk(l, l.vx_cholupdate(len(v), dp(L), dp(v), int(down), dp(out)))
    return out


def sampler(track, sample_size, burnin, thin, initlen=0):
    l = lib("steps")
    ns = len(track)
    tr = (C.c_int * ns)(*[int(x) for x in track])
    tot = ns * (burnin + thin * sample_size + 4) + 64
    draws = np.full(3 * ns * (sample_size + 2), np.nan)
    order = np.zeros(tot * 2, dtype=np.int64)
    norder = C.c_long(0)
    info = np.zeros(2 + 3 * ns, dtype=np.int64)
    chk(l, l.vx_sampler(ns, tr, sample_size, burnin, thin, initlen, dp(draws), lp(order), C.byref(norder), lp(info)))
    res, k = [], 0
    for i in range(ns):
        m = int(info[2 + 3 * i])
        res.append(draws[k:k + 3 * m].reshape(m, 3).copy())
        k += 3 * m
    return dict(draws=res, order=order[:norder.value].copy(), nsteps=int(info[0]), ntracked=int(info[1]),
                nstart=info[3::3].tolist(), nset=info[4::3].tolist())


def traced_run(nsample, burnin, t, y, e, p, q, nwalk, z=False, thin=1, init=(), limit=40000000):
    """Returns (events, samples, logs, temperature of the returned object)."""
    l = lib("trace")
    for f in ("vx_trace_data", "vx_trace_samples", "vx_trace_logs"):
        getattr(l, f).restype = C.POINTER(C.c_double)
    for f in ("vx_trace_size", "vx_trace_nsamples", "vx_trace_samplesize"):
        getattr(l, f).restype = C.c_long
    l.vx_trace_temp.restype = C.c_double
    t, y, e, init = darr(t), darr(y), darr(e), darr(init)
    chk(l, l.vx_traced_run(nsample, burnin, len(t), dp(t), dp(y), dp(e), p, q, nwalk, int(z), thin, len(init), dp(init), C.c_long(limit)))
    n = l.vx_trace_size()
    raw = np.ctypeslib.as_array(l.vx_trace_data(), (n,)).copy() if n else np.empty(0)
    ns, nt = l.vx_trace_nsamples(), l.vx_trace_samplesize()
    logs = np.ctypeslib.as_array(l.vx_trace_logs(), (ns,)).copy() if ns else np.empty(0)
    smp = np.ctypeslib.as_array(l.vx_trace_samples(), (nt,)).copy().reshape(ns, -1) if nt else np.empty((ns, 0))
    ev, i = [], 0
    while i < n:
        k = int(raw[i])
        if k == 0:
            chain, temp, d, nu = int(raw[i + 1]), raw[i + 2], int(raw[i + 3]), int(raw[i + 4])
            i += 5
            unit = raw[i:i + nu]; i += nu
            old = raw[i:i + d]; i += d
            oldlog = raw[i]; i += 1
            new = raw[i:i + d]; i += d
            newlog, ratio, hc = raw[i], raw[i + 1], raw[i + 2]; i += 3
            cov = raw[i:i + d * d].reshape(d, d); i += d * d
            ev.append(dict(kind="metro", chain=chain, temp=temp, unit=unit, old=old, oldlog=oldlog, new=new, newlog=newlog, ratio=ratio, cov=cov))
        elif k == 1:
            chain, nc, d = int(raw[i + 1]), int(raw[i + 2]), int(raw[i + 3])
            i += 4
            chains = []
            for _ in range(nc):
                cid, temp = int(raw[i]), raw[i + 1]; i += 2
                old = raw[i:i + d]; i += d
                ol = raw[i]; i += 1
                new = raw[i:i + d]; i += d
                nl = raw[i]; i += 1
                chains.append((cid, temp, old, ol, new, nl))
            ev.append(dict(kind="exchange", chain=chain, chains=chains, ratio=raw[i])); i += 1
        else:
            nt_ = int(raw[i + 1]); i += 2
            rec = []
            for _ in range(nt_):
                cid, d = int(raw[i]), int(raw[i + 1]); i += 2
                rec.append((cid, raw[i:i + d], raw[i + d])); i += d + 1
            ev.append(dict(kind="record", rec=rec))
    return ev, smp, logs, l.vx_trace_temp()


def run_temp(nsample, burnin, t, y, e, p, q, nwalk, z=False):
    l = lib("runtemp")
    t, y, e = darr(t), darr(y), darr(e)
    temp, val, ld = np.empty(1), np.empty(64), np.empty(1)
    n = chk(l, l.vx_run_temp(nsample, burnin, len(t), dp(t), dp(y), dp(e), p, q, nwalk, int(z), dp(temp), dp(val), dp(ld)))
    return float(temp[0]), val[:n].copy(), float(ld[0])


def copy_filter(t, y, e, sigsqr, roots, ma, ts, car1=False):
    """answers of a filter: before, of a copy, after the copy was changed, of an assigned object after the source was changed; bits of changed arguments"""
    l = lib("copies")
    t, y, e, ma, ts = darr(t), darr(y), darr(e), darr(ma), darr(ts)
    re, im = (darr([-np.real(roots[0])]), darr([0.0])) if car1 else (darr(np.real(roots)), darr(np.imag(roots)))
    out = np.full((4, 2 * len(ts) + 2 * len(t)), np.nan)
    rc = chk(l, l.vx_copy_filter(0 if car1 else len(re), len(t), dp(t), dp(y), dp(e), _d(sigsqr), dp(re), dp(im), len(ma), dp(ma), len(ts), dp(ts), dp(out)))
    return out, rc


def copy_model(kind, t, y, e, p, q, th1, th2):
    l = lib("copies")
    t, y, e, a, b = darr(t), darr(y), darr(e), darr(th1), darr(th2)
    d = len(a)
    out = np.full(3 * (4 + d) + 3, np.nan)
    chk(l, l.vx_copy_model(dict(CAR1=0, CARp=1, CARMA=2)[kind], len(t), dp(t), dp(y), dp(e), p, q, d, dp(a), dp(b), dp(out)))
    return out[:3 * (4 + d)].reshape(3, 4 + d), out[3 * (4 + d):]


def life(kind, n):
    """objects still alive after their container is gone"""
    l = lib("life")
    out = np.full(1, np.nan)
    chk(l, l.vx_life(int(kind), int(n), dp(out)))
    return float(out[0])
