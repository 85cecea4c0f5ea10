"""Thin wrappers over the Python interface of the package under test."""
import numpy as np


def cm():
    import carmcmc
    return carmcmc


def ext():
    import carmcmc._carmcmc as lib
    return lib


def vd(x):
    v = ext().vecD()
    v.extend([float(a) for a in np.asarray(x, dtype=float)])
    return v


def vc(x):
    v = ext().vecC()
    v.extend([complex(a) for a in np.asarray(x)])
    return v


def kf1(t, y, e, s2, omega):
    return ext().KalmanFilter1(vd(t), vd(y), vd(e), float(s2), float(omega))


def kfp(t, y, e, s2, roots, ma):
    return ext().KalmanFilterp(vd(t), vd(y), vd(e), float(s2), vc(roots), vd(ma))


def filt(t, y, e, s2, roots, ma, car1=False):
    """a filter object for the process; the CAR(1) class if asked for"""
    if car1:
        return kf1(t, y, e, s2, -np.real(roots[0]))
    return kfp(t, y, e, s2, roots, ma)


def run_filter(k):
    k.Filter()
    return np.array(list(k.GetMean())), np.array(list(k.GetVar()))


def predict(k, ts):
    out = np.empty((len(ts), 2))
    for i, x in enumerate(ts):
        r = k.Predict(float(x))
        out[i] = r.first, r.second
    return out


def simulate(k, ts):
    return np.array(list(k.Simulate(vd(ts))))


def model(kind, t, y, e, p=1, q=0, temp=1.0):
    L = ext()
    if kind == "CAR1":
        return L.CAR1(True, "m", vd(t), vd(y), vd(e), float(temp))
    if kind == "CARp":
        return L.CARp(True, "m", vd(t), vd(y), vd(e), p, float(temp))
    return L.CARMA(True, "m", vd(t), vd(y), vd(e), p, q, float(temp))


def samples(obj):
    return np.array([list(v) for v in obj.getSamples()])


def loglikes(obj):
    return np.array(list(obj.GetLogLikes()))


def run(ns, nb, t, y, e, p, q, nw, z=False, thin=1, init=None):
    L = ext()
    if init is None:
        init = L.vecD()
    else:
        init = vd(init)
    if p == 1:
        return L.run_mcmc_car1(ns, nb, vd(t), vd(y), vd(e), thin, init)
    return L.run_mcmc_carma(ns, nb, vd(t), vd(y), vd(e), p, q, nw, z, thin, init)
