"""Generators of time grids, series and processes."""
import numpy as np
from . import oracle as O


def times(rng, n, kind=None):
    kind = kind or rng.choice(["irregular", "regular", "bursty", "seasonal", "widegap", "mixed", "offset", "negative", "hugegap"])
    if kind == "regular":
        t = np.arange(n) * rng.uniform(0.1, 5)
    elif kind == "bursty":
        t = np.cumsum(np.where(rng.random(n) < 0.3, rng.uniform(20, 80, n), rng.uniform(0.05, 0.5, n)))
    elif kind == "seasonal":
        t = np.cumsum(rng.uniform(0.5, 2.0, n) + 60.0 * ((np.arange(n) % 7) == 6))
    elif kind == "widegap":
        t = np.cumsum(np.exp(rng.uniform(-3, 4, n)))
    elif kind == "mixed":
        t = np.cumsum(rng.exponential(1.0, n) + 0.01)
    elif kind == "offset":
        t = 53000.0 + np.cumsum(rng.uniform(0.3, 3.0, n))
    elif kind == "hugegap":
        t = np.cumsum(rng.uniform(0.3, 3.0, n) + 1e5 * (np.arange(n) == n // 2))
    elif kind == "negative":
        t = -500.0 + np.cumsum(rng.uniform(0.3, 3.0, n))
    else:
        t = np.cumsum(rng.uniform(0.2, 2.0, n))
    return np.ascontiguousarray(t), str(kind)


def unit(rng):
    """a factor of all times; which one is used must not matter"""
    return float(rng.choice([1.0] * 8 + [1e-9, 1e-5, 1e5, 1e9]))


def errors(rng, n, scale, kind=None):
    kind = kind or rng.choice(["uniform", "zero", "hetero", "tiny", "large", "somezero", "masked"])
    if kind == "zero":
        e = np.zeros(n)
    elif kind == "hetero":
        e = scale * np.exp(rng.uniform(-5, 1, n))
    elif kind == "tiny":
        e = scale * 1e-3 * rng.uniform(0.5, 2, n)
    elif kind == "large":
        e = scale * rng.uniform(1, 4, n)
    elif kind == "somezero":
        e = scale * 0.2 * rng.uniform(0.5, 2, n) * (rng.random(n) < 0.6)
    elif kind == "masked":
        # observations that carry next to no information
        e = scale * np.where(rng.random(n) < 0.3, 10.0 ** rng.uniform(2, 10, n), 0.1 * rng.uniform(0.5, 2, n))
    else:
        e = scale * 0.1 * rng.uniform(0.5, 2, n)
    return e, str(kind)


def ring(rng, p, rate):
    """roots spread over angles: well-conditioned even for high orders; decreasing imaginary parts"""
    h = p // 2
    z = rate * np.exp(rng.uniform(-0.6, 0.6, h)) * np.exp(1j * np.pi * (0.52 + 0.46 * (np.arange(h) + rng.uniform(0.3, 0.7, h)) / max(h, 1)))
    z = z[np.argsort(-z.imag)]
    out = [w for v in z for w in (v, v.conjugate())]
    if p % 2:
        out.append(complex(-rate * np.exp(rng.uniform(-0.3, 0.8))))
    return np.array(out)


def roots(rng, p, rate, kind=None):
    """p stable roots, |r| of order rate, distinct. kind: real, complex, mixed."""
    if kind is None and p >= 6 and rng.random() < 0.7:
        return ring(rng, p, rate), "ring"
    kind = kind or rng.choice(["real", "complex", "mixed"])
    for _ in range(1000):
        out = []
        while len(out) < p:
            left = p - len(out)
            cplx = left >= 2 and (kind == "complex" or (kind == "mixed" and rng.random() < 0.5))
            a = rate * np.exp(rng.uniform(-1.5, 1.5))
            if cplx:
                w = rate * np.exp(rng.uniform(-1.0, 1.8))
                out += [complex(-a, w), complex(-a, -w)]
            else:
                out.append(complex(-a, 0.0))
        r = np.array(out)
        d = np.abs(r[:, None] - r[None, :]) / np.minimum(np.abs(r)[:, None], np.abs(r)[None, :]) + np.eye(p) * 9
        if p == 1 or d.min() > 0.15:
            # conjugate pairs stay adjacent, order of the blocks random
            blocks, i = [], 0
            while i < p:
                k = 2 if r[i].imag != 0 else 1
                blocks.append(r[i:i + k])
                i += k
            rng.shuffle(blocks)
            return np.concatenate(blocks), str(kind)
    return ring(rng, p, rate), "ring"


def ma_coefs(rng, q, rate, kind=None):
    """beta_0=1 ... beta_q; zeros in either half plane."""
    if q == 0:
        return np.array([1.0])
    kind = kind or rng.choice(["minphase", "any", "binomial"])
    if kind == "binomial":
        from math import comb
        k = rate * np.exp(rng.uniform(-0.5, 2.0))
        return np.array([comb(q, i) / k ** i for i in range(q + 1)])
    if kind == "minphase":
        logc = np.log(rate) * np.array([2.0 if (i % 2 == 0 and i + 1 < q) else 1.0 for i in range(q)]) + rng.uniform(-1, 2, q)
        return O.ma_from_logc(logc)
    return np.concatenate([[1.0], rng.normal(0, 1.0, q) / rate ** np.arange(1, q + 1)])


def process(rng, p, q, t, kind=None):
    """driving variance, roots, ma with rates matched to the grid"""
    dt = np.median(np.diff(t)) if len(t) > 1 else 1.0
    rate = np.exp(rng.uniform(-2.0, 1.0)) / dt
    r, kind = roots(rng, p, rate, kind)
    ma = ma_coefs(rng, q, rate)
    var = np.exp(rng.uniform(-3, 3)) if rng.random() < 0.85 else 10 ** rng.uniform(-10, 10)
    s2 = float(var / O.acv(1.0, r, ma, 0.0))
    return s2, r, ma, var, kind


def draw(rng, t, e, s2, r, ma):
    K = np.array(O.cov_matrix(t, s2, r, ma), dtype=float)
    w, v = np.linalg.eigh(K)
    y = v @ (np.sqrt(np.clip(w, 0, None)) * rng.normal(size=len(t)))
    return y + np.asarray(e) * rng.normal(size=len(t))


def series(rng, n, tkind=None, ekind=None, mean=None, p=None, q=None):
    """A plausible data set: CARMA light curve plus noise plus mean."""
    t, tk = times(rng, n, tkind)
    p = p or int(rng.integers(1, 4))
    q = int(rng.integers(0, p)) if q is None else q
    s2, r, ma, var, kind = process(rng, p, q, t)
    e, ek = errors(rng, n, np.sqrt(var), ekind)
    y = draw(rng, t, e, s2, r, ma)
    if mean is None:
        mean = np.sqrt(var) * rng.normal() * rng.choice([0, 1, 10])
    return dict(t=t, y=y + mean, e=e, p=p, q=q, s2=s2, roots=r, ma=ma, var=var, mean=mean, kinds=(tk, ek, kind))


def support_theta(rng, t, y, p, q, max_stdev=None):
    """A vector well inside the prior support of CARMA(p,q) for this data (None if none was found)."""
    maxf = 1.0 / np.min(np.diff(np.sort(t)))
    minf = 1.0 / (np.max(t) - np.min(t))
    if max_stdev is None:
        max_stdev = 10 * np.std(y, ddof=1)
    sig = np.std(y, ddof=1) * np.exp(rng.uniform(-1, 1))
    if sig >= max_stdev:
        sig = 0.5 * max_stdev
    scale = np.exp(rng.uniform(np.log(0.55), np.log(1.9)))
    mu = np.mean(y) + np.std(y) * rng.normal()
    lo, hi = np.log(minf * 1.02), np.log(maxf * 0.98)
    if p == 1:
        th = [sig, scale, mu, rng.uniform(lo, hi)]
        return np.array(th)
    if p >= 6 and rng.random() < 0.7:
        r = ring(rng, p, 2 * np.pi * np.exp(rng.uniform(lo, hi)))
        w, c = -r.real / (2 * np.pi), np.abs(r.imag) / (2 * np.pi)
        if w.min() > np.exp(lo) and w.max() < np.exp(hi) and c.max() < np.exp(hi):
            co = [v for i in range(p // 2) for v in (np.log(abs(r[2 * i]) ** 2), np.log(-2 * r[2 * i].real))]
            if p % 2:
                co.append(np.log(-r[-1].real))
            rate = np.sqrt(minf * maxf) * 2 * np.pi
            mal = [(2.0 if (i % 2 == 0 and i + 1 < q) else 1.0) * np.log(rate) + rng.uniform(-1, 2.5) for i in range(q)]
            return np.array([sig, scale, mu] + co + mal)
    for _ in range(400):
        npair = p // 2
        cents = np.sort(np.exp(rng.uniform(lo, hi, npair)))[::-1]
        widths = np.exp(rng.uniform(lo, hi, npair))
        co = []
        rts = []
        ok = True
        real_seen = False
        for i in range(npair):
            if rng.random() < 0.65 and not real_seen:
                re, im = -2 * np.pi * widths[i], 2 * np.pi * cents[i]
                co += [np.log(re * re + im * im), np.log(-2 * re)]
                rts += [complex(re, im), complex(re, -im)]
            else:
                real_seen = True
                w = np.exp(rng.uniform(lo, hi, 2)) * 2 * np.pi
                co += [np.log(w[0] * w[1]), np.log(w[0] + w[1])]
                rts += [-w[0], -w[1]]
        if p % 2:
            w = np.exp(rng.uniform(lo, hi)) * 2 * np.pi
            co.append(np.log(w))
            rts.append(-w)
        r = np.array(rts, dtype=complex)
        d = np.abs(r[:, None] - r[None, :]) / np.abs(r)[:, None] + np.eye(p) * 9
        if d.min() < 0.05:
            ok = False
        if ok:
            mal = []
            rate = np.sqrt(minf * maxf) * 2 * np.pi
            for i in range(q):
                mal.append((2.0 if (i % 2 == 0 and i + 1 < q) else 1.0) * np.log(rate) + rng.uniform(-1, 2.5))
            return np.array([sig, scale, mu] + co + mal)
    return None
