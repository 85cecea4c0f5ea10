"""Reference computations, independent of the code under test. Extended precision where cancellation matters."""
import numpy as np
import scipy.linalg as sl

LD = np.longdouble
CLD = np.clongdouble


def poly_from_roots(roots):
    """Monic coefficients, highest power first, longdouble."""
    c = np.array([1], dtype=CLD)
    for r in roots:
        n = np.zeros(len(c) + 1, dtype=CLD)
        n[:-1] += c
        n[1:] -= CLD(r) * c
        c = n
    return c.real.astype(LD)


def acv_terms(sigsqr, roots, ma):
    """Coefficients c_k with R(tau) = Re sum c_k exp(r_k |tau|)."""
    r = np.asarray(roots, dtype=CLD)
    ma = np.asarray(ma, dtype=LD)
    c = np.zeros(len(r), dtype=CLD)
    for k in range(len(r)):
        n1 = sum((ma[j] * r[k] ** j for j in range(len(ma))), CLD(0))
        n2 = sum((ma[j] * (-r[k]) ** j for j in range(len(ma))), CLD(0))
        den = -2 * r[k].real * CLD(1)
        for l in range(len(r)):
            if l != k:
                den = den * (r[l] - r[k]) * (np.conj(r[l]) + r[k])
        c[k] = LD(sigsqr) * n1 * n2 / den
    return r, c


def acv(sigsqr, roots, ma, tau):
    r, c = acv_terms(sigsqr, roots, ma)
    tau = np.abs(np.asarray(tau, dtype=LD))
    return np.sum(c * np.exp(r * tau[..., None]), axis=-1).real.astype(LD)


def cancellation(sigsqr, roots, ma):
    """How much larger the terms of the stationary variance in the eigenbasis are than their sum: the digits a filter
    working in that basis must lose. 1 for a single real root."""
    r = np.asarray(roots, dtype=CLD)
    b = np.abs(sum((LD(ma[j]) * r ** j for j in range(len(ma))), np.zeros(len(r), dtype=CLD)))
    J = np.array([1 / np.prod([abs(r[k] - r[l]) for l in range(len(r)) if l != k]) for k in range(len(r))], dtype=LD)
    w = b * J
    tot = acv(1.0, roots, ma, 0.0)
    return float((w[:, None] * w[None, :] / np.abs(r[:, None] + np.conj(r)[None, :])).sum() / tot)


def vander_cond(roots):
    """Condition number of the eigenvector matrix of the companion form, after scaling time by the geometric-mean rate."""
    r = np.asarray(roots, dtype=complex)
    g = np.exp(np.mean(np.log(np.abs(r))))
    return float(np.linalg.cond(np.vander(r / g, increasing=True)))


def acv_lyapunov(sigsqr, roots, ma, taus):
    """Same function by the controllable state space: Lyapunov equation and matrix exponential, double precision."""
    a = np.array(poly_from_roots(roots), dtype=float)[1:]          # alpha_{p-1} ... alpha_0
    p = len(a)
    F = np.zeros((p, p))
    F[:-1, 1:] = np.eye(p - 1)
    F[-1, :] = -a[::-1]
    Q = np.zeros((p, p))
    Q[-1, -1] = sigsqr
    V = sl.solve_continuous_lyapunov(F, -Q)
    b = np.zeros(p)
    b[:len(ma)] = ma
    return np.array([b @ sl.expm(F * abs(t)) @ V @ b for t in np.atleast_1d(taus)])


def cov_matrix(t, sigsqr, roots, ma, s=None):
    t = np.asarray(t, dtype=LD)
    s = t if s is None else np.asarray(s, dtype=LD)
    return acv(sigsqr, roots, ma, t[:, None] - s[None, :])


def chol(K):
    K = np.array(K, dtype=LD)
    n = len(K)
    L = np.zeros_like(K)
    for j in range(n):
        d = K[j, j] - np.dot(L[j, :j], L[j, :j])
        if not d > 0:
            raise np.linalg.LinAlgError("not positive definite at %d" % j)
        L[j, j] = np.sqrt(d)
        if j + 1 < n:
            L[j + 1:, j] = (K[j + 1:, j] - L[j + 1:, :j] @ L[j, :j]) / L[j, j]
    return L


def solve_lower(L, B):
    B = np.array(B, dtype=LD)
    X = np.zeros_like(B)
    for i in range(len(L)):
        X[i] = (B[i] - L[i, :i] @ X[:i]) / L[i, i]
    return X


def one_step(t, y, e, sigsqr, roots, ma):
    """mean and variance of y_i given y_1..y_{i-1}; zero-mean process."""
    K = cov_matrix(t, sigsqr, roots, ma) + np.diag(np.asarray(e, dtype=LD) ** 2)
    L = chol(K)
    z = solve_lower(L, np.asarray(y, dtype=LD))
    mean = L @ z - np.diag(L) * z
    return mean, np.diag(L) ** 2


def loglik(t, y, e, sigsqr, roots, ma, mu=0.0):
    """Gaussian log-likelihood without the -n/2 log 2pi."""
    y = np.asarray(y, dtype=LD) - LD(mu)
    m, v = one_step(t, y, e, sigsqr, roots, ma)
    return (-0.5 * np.log(v) - 0.5 * (y - m) ** 2 / v).sum()


def big_factor(t, e, sigsqr, roots, ma):
    """Cholesky factor of the covariance of a long series in double precision, for well-conditioned cases."""
    r, c = acv_terms(sigsqr, roots, ma)
    r, c = r.astype(complex), c.astype(complex)
    lag = np.abs(t[:, None] - t[None, :])
    K = np.zeros_like(lag)
    for a, b in zip(r, c):
        K += (b * np.exp(a * lag)).real
    K[np.diag_indices(len(t))] += np.asarray(e) ** 2
    return np.linalg.cholesky(K)


def big_one_step(t, y, e, sigsqr, roots, ma):
    """One-step means and variances of a long series from its dense covariance."""
    L = big_factor(t, e, sigsqr, roots, ma)
    d = np.diag(L)
    return y - d * sl.solve_triangular(L, y, lower=True), d ** 2


def conditional(t, y, e, sigsqr, roots, ma, ts):
    """Joint conditional mean and covariance of the noise-free process at ts."""
    K = cov_matrix(t, sigsqr, roots, ma) + np.diag(np.asarray(e, dtype=LD) ** 2)
    L = chol(K)
    A = solve_lower(L, cov_matrix(t, sigsqr, roots, ma, ts))
    z = solve_lower(L, np.asarray(y, dtype=LD))
    S = cov_matrix(ts, sigsqr, roots, ma) - A.T @ A
    return A.T @ z, S


def spectrum(f, sigma, roots, ma):
    s = 2j * np.pi * np.asarray(f, dtype=float)
    den = np.ones_like(s)
    for r in roots:
        den = den * (s - r)
    num = sum(ma[j] * s ** j for j in range(len(ma)))
    return sigma ** 2 * np.abs(num) ** 2 / np.abs(den) ** 2


# ---- decoding of the parameter vectors, straight from the documentation -----------------------------

def quad_roots(logc):
    """Roots of the product of s^2 + exp(c1) s + exp(c0) (and s + exp(c) for an odd tail)."""
    logc = np.asarray(logc, dtype=float)
    out = []
    for i in range(len(logc) // 2):
        q0, q1 = LD(np.exp(LD(logc[2 * i]))), LD(np.exp(LD(logc[2 * i + 1])))
        d = q1 * q1 - 4 * q0
        if d >= 0:
            big = -(q1 + np.sqrt(d)) / 2
            out += [complex(q0 / big), complex(big)]
        else:
            w = np.sqrt(-d) / 2
            out += [complex(float(-q1 / 2), float(w)), complex(float(-q1 / 2), float(-w))]
    if len(logc) % 2:
        out.append(complex(-np.exp(logc[-1])))
    return np.array(out)


def quad_poly(logc):
    """Polynomial of the same factors, highest power first, without going through roots."""
    c = np.array([1], dtype=LD)
    logc = np.asarray(logc, dtype=LD)
    for i in range(len(logc) // 2):
        c = np.convolve(c, np.array([1, np.exp(logc[2 * i + 1]), np.exp(logc[2 * i])], dtype=LD))
    if len(logc) % 2:
        c = np.convolve(c, np.array([1, np.exp(logc[-1])], dtype=LD))
    return c


def ma_from_logc(logc):
    c = quad_poly(logc)[::-1]
    return (c / c[0]).astype(float)


def decode(theta, p, q):
    """(ysigma, scale, mu, roots, ma) of CAR(1)/CAR(p)/CARMA(p,q)."""
    th = np.asarray(theta, dtype=float)
    if p == 1:
        roots = np.array([complex(-np.exp(th[3]))])
    else:
        roots = quad_roots(th[3:3 + p])
    ma = ma_from_logc(th[3 + p:3 + p + q]) if q else np.array([1.0])
    return th[0], th[1], th[2], roots, ma


def sigsqr_of(ysigma, roots, ma):
    return LD(ysigma) ** 2 / acv(1.0, roots, ma, 0.0)


def logprior_scale(s):
    """scaled-inverse-chi-square(50) kernel of the error-scale parameter"""
    return -0.5 * 50 / s - (1.0 + 50 / 2.0) * np.log(s)


def ks_pvalue(x, cdf):
    import scipy.stats as st
    return st.kstest(x, cdf).pvalue


def judge_tol(t, e, s2, r, ma, base=None):
    """(relative tolerance, smallest one-step variance over R0) for a given data set; tolerance is inf if it cannot be judged."""
    base = base if base is not None else max(1e-9, 1000 * 2.3e-16 * cancellation(s2, r, ma))
    try:
        _, v = one_step(t, np.zeros(len(t)), e, s2, r, ma)
    except np.linalg.LinAlgError:
        return np.inf, 0.0
    R0 = float(acv(s2, r, ma, 0.0))
    k = R0 / float(v.min())
    return base * max(1.0, k), 1.0 / k
