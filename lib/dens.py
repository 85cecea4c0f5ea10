"""Log-density of many parameter vectors at once, in double precision, from the documentation alone."""
from math import comb
import numpy as np

TP = 2 * np.pi


def roots_of(X, p):
    if p == 1:
        return (-np.exp(X[:, 3])).astype(complex)[:, None]
    out = np.empty((len(X), p), dtype=complex)
    for i in range(p // 2):
        q0, q1 = np.exp(X[:, 3 + 2 * i]), np.exp(X[:, 4 + 2 * i])
        d = q1 * q1 - 4 * q0
        big = -(q1 + np.sqrt(np.maximum(d, 0))) / 2
        w = np.sqrt(np.maximum(-d, 0)) / 2
        out[:, 2 * i] = np.where(d >= 0, q0 / big, -q1 / 2 + 1j * w)
        out[:, 2 * i + 1] = np.where(d >= 0, big, -q1 / 2 - 1j * w)
    if p % 2:
        out[:, -1] = -np.exp(X[:, 2 + p])
    return out


def support(X, t, p, maxs):
    """inside of the documented prior"""
    maxf, minf = 1 / np.diff(t).min(), 1 / (t[-1] - t[0])
    ok = (X[:, 0] >= 0) & (X[:, 0] <= maxs) & (X[:, 1] >= 0.5) & (X[:, 1] <= 2)
    with np.errstate(all="ignore"):
        r = roots_of(X, p)
        if p == 1:
            w = -r[:, 0].real
            return ok & (w >= minf) & (w <= maxf)
        c, w = np.abs(r.imag) / TP, -r.real / TP
        ok &= (c < maxf).all(axis=1) & (w < maxf).all(axis=1) & (w > minf).all(axis=1)
        ok &= (np.diff(c, axis=1) <= 1e-8 * maxf).all(axis=1)
        for i in range(p):
            for j in range(i):
                ok &= np.abs((r[:, i] - r[:, j]) / (r[:, i] + r[:, j])) > 1e-4
    return ok & np.isfinite(X).all(axis=1)


def ma_of(X, p, q, z, t):
    """coefficients of increasing power, constant term one"""
    if z:
        k = 1 / np.diff(t).min()
        return np.tile([comb(p - 1, i) / k ** i for i in range(p)], (len(X), 1))
    c = np.ones((len(X), 1))
    for i in range(q // 2):
        a, b = np.exp(X[:, 3 + p + 2 * i]), np.exp(X[:, 4 + p + 2 * i])
        n = np.zeros((len(X), c.shape[1] + 2))
        # (s^2 + b s + a) / a
        n[:, :-2] += c
        n[:, 1:-1] += c * (b / a)[:, None]
        n[:, 2:] += c / a[:, None]
        c = n
    if q % 2:
        a = np.exp(X[:, 2 + p + q])
        n = np.zeros((len(X), c.shape[1] + 1))
        n[:, :-1] += c
        n[:, 1:] += c / a[:, None]
        c = n
    return c


def logdens(X, t, y, e, p, q=0, z=False, maxs=np.inf, block=2000):
    X = np.atleast_2d(np.asarray(X, dtype=float))
    out = np.full(len(X), -np.inf)
    idx = np.flatnonzero(support(X, t, p, maxs))
    n = len(t)
    lag = np.abs(t[:, None] - t[None, :])
    for s in range(0, len(idx), block):
        k = idx[s:s + block]
        x = X[k]
        r, b = roots_of(x, p), ma_of(x, p, q, z, t)
        R = np.zeros((len(k), n, n))
        v = np.zeros(len(k))
        for i in range(p):
            ri = r[:, i]
            c = sum(b[:, j] * ri ** j for j in range(b.shape[1])) * sum(b[:, j] * (-ri) ** j for j in range(b.shape[1])) / (-2 * ri.real)
            for j in range(p):
                if j != i:
                    c = c / ((r[:, j] - ri) * (np.conj(r[:, j]) + ri))
            v += c.real
            R += (c[:, None, None] * np.exp(ri[:, None, None] * lag)).real
        R *= (x[:, 0] ** 2 / v)[:, None, None]
        R[:, np.arange(n), np.arange(n)] += x[:, 1:2] * e[None, :] ** 2
        try:
            L = np.linalg.cholesky(R)
        except np.linalg.LinAlgError:
            w, U = np.linalg.eigh(R)
            w = np.maximum(w, 1e-300)
            d = np.einsum("kij,ki->kj", U, y[None, :] - x[:, 2:3])
            out[k] = -0.5 * np.log(w).sum(axis=1) - 0.5 * (d * d / w).sum(axis=1)
        else:
            u = np.linalg.solve(L, (y[None, :] - x[:, 2:3])[:, :, None])[:, :, 0]
            out[k] = -np.log(L[:, np.arange(n), np.arange(n)]).sum(axis=1) - 0.5 * (u * u).sum(axis=1)
        out[k] += -25 / x[:, 1] - 26 * np.log(x[:, 1])
    return out
