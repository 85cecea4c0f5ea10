"""Sample objects of the Python layer made from chosen parameter vectors instead of an MCMC run."""
import numpy as np
from . import api as A


class FakeSampler:
    """Looks like the object returned by the C++ sampler: a real model, with given draws."""

    def __init__(self, model, trace, logpost):
        self._m, self._t, self._l = model, np.asarray(trace, dtype=float), np.asarray(logpost, dtype=float)

    def getSamples(self):
        v = A.ext().vecvecD()
        v.extend([A.vd(x) for x in self._t])
        return v

    def GetLogLikes(self):
        return A.vd(self._l)

    def __getattr__(self, name):
        return getattr(self._m, name)


def model_for(t, y, e, p, q):
    return A.model("CAR1" if p == 1 else "CARp" if q == 0 else "CARMA", t, y, e, p, q)


def sample(t, y, e, p, q, trace, logpost=None):
    """CarmaSample or Car1Sample holding exactly these draws"""
    cm = A.cm()
    m = model_for(t, y, e, p, q)
    if logpost is None:
        logpost = [m.getLogDensity(A.vd(x)) for x in trace]
    f = FakeSampler(m, trace, logpost)
    t, y, e = (np.array(a, dtype=float) for a in (t, y, e))
    if p == 1:
        s = cm.carma_pack.Car1Sample(t, y, e, f) if hasattr(cm, "carma_pack") else cm.Car1Sample(t, y, e, f)
    else:
        s = cm.carma_pack.CarmaSample(t, y, e, f, q=q) if hasattr(cm, "carma_pack") else cm.CarmaSample(t, y, e, f, q=q)
    return s, m
