"""The installed third-party 'acor' lacks the function the package imports; a working estimator stands in for it."""
import sys
import types
import numpy as np


def acor(x, maxlag=None):
    """integrated autocorrelation time, mean, and error of the mean (initial positive sequence estimator)"""
    x = np.asarray(x, dtype=float)
    n = len(x)
    m = x.mean()
    d = x - m
    f = np.fft.rfft(d, 2 * n)
    c = np.fft.irfft(f * np.conj(f))[:n] / n
    if c[0] <= 0:
        return 1.0, m, 0.0
    rho = c / c[0]
    tau = 1.0
    for k in range(1, n - 1, 2):
        g = rho[k] + rho[k + 1]
        if g < 0:
            break
        tau += 2 * g
    return max(tau, 1.0), m, np.sqrt(max(tau, 1.0) * c[0] / n)


def install():
    mod = types.ModuleType("acor")
    mod.acor = acor
    sys.modules["acor"] = mod
