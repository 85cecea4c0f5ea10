"""Random histories of calls, valid and hostile. Every call must come back with values or with an exception.

The extension module is used as it is (no scipy, no matplotlib), so that the same histories also run under a slow monitor."""
import math
import numpy as np

nan, inf = float("nan"), float("inf")
SPECIAL = [nan, inf, -inf, 0.0, -0.0, 1e308, -1e308, 5e-324, 1e-300, 1e17, -1.0]


def outcome(x, depth=0):
    """numbers of an answer as text"""
    if x is None:
        return "-"
    if isinstance(x, (bool, int, str)):
        return str(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return "nan" if x != x else "%.17g" % x
    if isinstance(x, complex):
        return outcome(x.real) + "+" + outcome(x.imag) + "j"
    if hasattr(x, "first"):
        return "(%s,%s)" % (outcome(x.first), outcome(x.second))
    if isinstance(x, np.ndarray):
        x = x.ravel().tolist()
    if isinstance(x, dict):
        x = list(x.values())
    try:
        return "[" + ",".join(outcome(v, depth + 1) for v in x) + "]"
    except TypeError:
        return type(x).__name__


class History:
    """objects made so far and the calls made on them"""

    def __init__(self, L, rng):
        self.L, self.rng = L, rng
        self.filters, self.models, self.vectors, self.held = [], [], [], []
        self.log = []
        self.big = bool(rng.random() < 0.15)      # histories with larger sizes

    # ---- ingredients
    def vd(self, x):
        v = self.L.vecD()
        v.extend([float(a) for a in x])
        return v

    def vc(self, x):
        v = self.L.vecC()
        v.extend([complex(a) for a in x])
        return v

    def data(self, hostile):
        """t, y, e as lists and a description"""
        rng = self.rng
        n = int(rng.choice([4, 5, 8, 15, 30])) if not hostile or rng.random() < 0.6 else int(rng.choice([0, 1, 2, 3]))
        if self.big and n > 3 and rng.random() < 0.5:
            n = int(rng.choice([62, 70, 100, 129, 260]))
        t = np.cumsum(rng.uniform(0.2, 2.0, n))
        y = rng.normal(0, 1, n) + rng.choice([0.0, 5.0])
        e = rng.uniform(0.05, 0.3, n)
        what = "n%d" % n
        if hostile:
            for name, a in (("t", t), ("y", y), ("e", e)):
                r = rng.random()
                if n and r < 0.12:
                    a[int(rng.integers(0, n))] = SPECIAL[int(rng.integers(0, len(SPECIAL)))]
                    what += name + "*"
                elif n and r < 0.16:
                    a[:] = a[0]
                    what += name + "="
                elif r < 0.2:
                    a *= -1
                    what += name + "-"
                elif n and r < 0.24:
                    rng.shuffle(a)
                    what += name + "?"
            t, y, e = t.tolist(), y.tolist(), e.tolist()
            r = rng.random()
            if r < 0.3:
                k = int(rng.integers(0, 3))
                a = (t, y, e)[k]
                if rng.random() < 0.5 and len(a):
                    del a[int(rng.integers(0, len(a))):]
                    what += "tye"[k] + "<"
                else:
                    a.extend([0.5] * int(rng.integers(1, 20)))
                    what += "tye"[k] + ">"
            return t, y, e, what
        if rng.random() < 0.3 and n > 4:
            k = int(rng.integers(1, n))
            t[k] = t[k - 1]
            what += "dup"
        if rng.random() < 0.3:
            rng.shuffle(t)
            what += "unsorted"
        if rng.random() < 0.3:
            e[int(rng.integers(0, n))] = 0.0
        return t.tolist(), y.tolist(), e.tolist(), what

    def roots(self, p, hostile):
        rng = self.rng
        r = []
        while len(r) < p:
            a, w = -math.exp(rng.uniform(-2, 1)), math.exp(rng.uniform(-2, 1))
            if p - len(r) >= 2 and rng.random() < 0.5:
                r += [complex(a, w), complex(a, -w)]
            else:
                r.append(complex(a, 0))
        if hostile and p and rng.random() < 0.4:
            k = int(rng.integers(0, p))
            r[k] = [r[0], complex(0, 0), complex(1, 0), complex(nan, 0), complex(0, inf), complex(-1e300, 0), complex(-1e-300, 1)][int(rng.integers(0, 7))]
        return r

    def theta(self, d, hostile):
        rng = self.rng
        th = np.concatenate([[abs(rng.normal()) + 0.1, rng.uniform(0.6, 1.8), rng.normal()], rng.normal(-0.5, 1.0, max(0, d - 3))])[:max(0, d)].tolist()
        if hostile:
            r = rng.random()
            if r < 0.25 and d > 0:
                th[int(rng.integers(0, d))] = SPECIAL[int(rng.integers(0, len(SPECIAL)))]
            elif r < 0.4:
                th = th[:int(rng.integers(0, len(th) + 1))]
            elif r < 0.55:
                th += [0.3] * int(rng.integers(1, 9))
        return th

    def times(self, t, hostile):
        rng = self.rng
        k = int(rng.integers(0, 5)) if not self.big else int(rng.integers(0, 70))
        lo, hi = (min(t), max(t)) if len(t) and all(math.isfinite(a) for a in t) else (0.0, 1.0)
        ts = rng.uniform(lo - 2, hi + 2, k).tolist()
        if len(t) and rng.random() < 0.4:
            ts.append(t[int(rng.integers(0, len(t)))])
        if ts and rng.random() < 0.2:
            ts.append(ts[0])
        if hostile and rng.random() < 0.3:
            ts.append(SPECIAL[int(rng.integers(0, len(SPECIAL)))])
        return ts

    # ---- one call
    def do(self, name, fn):
        self.called = name
        try:
            r = outcome(fn())
        except Exception as ex:       # an exception is a valid answer to an invalid call
            r = "raised " + type(ex).__name__
        self.log.append((name, r))
        return r

    def step(self, hostile):
        ops = [self.new_filter] * 3 + [self.use_filter] * 5 + [self.new_model] * 2 + [self.use_model] * 4 + [self.run] * 2 + [self.vector] * 2 + [self.drop]
        ops[int(self.rng.integers(0, len(ops)))](hostile)

    def new_filter(self, hostile):
        rng, L = self.rng, self.L
        t, y, e, what = self.data(hostile)
        kind = int(rng.integers(0, 4))

        def make():
            a = [self.vd(t), self.vd(y), self.vd(e)]
            if kind == 0:
                k = L.KalmanFilter1(*a)
            elif kind == 1:
                k = L.KalmanFilterp(*a)
            elif kind == 2:
                s2, om = math.exp(rng.normal()), math.exp(rng.normal())
                if hostile and rng.random() < 0.3:
                    s2 = SPECIAL[int(rng.integers(0, len(SPECIAL)))]
                if hostile and rng.random() < 0.3:
                    om = SPECIAL[int(rng.integers(0, len(SPECIAL)))]
                k = L.KalmanFilter1(*a, s2, om)
            else:
                p = int(rng.integers(1, 7 if not self.big else 12)) if not hostile else int(rng.integers(0, 9 if not self.big else 14))
                q = int(rng.integers(0, p)) if not hostile else int(rng.integers(0, p + 3)) - 1
                ma = [1.0] + rng.normal(0, 1, max(0, q)).tolist() if q >= 0 else []
                if not hostile or rng.random() < 0.5:
                    ma += [0.0] * (p - len(ma))
                k = L.KalmanFilterp(*a, math.exp(rng.normal()), self.vc(self.roots(p, hostile)), self.vd(ma))
            self.filters.append((k, t))
            return "made"
        self.do("filter%d %s" % (kind, what), make)

    def use_filter(self, hostile):
        if not self.filters:
            return self.new_filter(hostile)
        rng = self.rng
        k, t = self.filters[int(rng.integers(0, len(self.filters)))]
        name = type(k).__name__
        op = int(rng.integers(0, 5))
        if op == 0:
            self.do(name + ".Filter", lambda: (k.Filter(), k.GetMean(), k.GetVar())[1:])
        elif op == 1:
            self.do(name + ".Get", lambda: (k.GetMean(), k.GetVar()))
        elif op == 2:
            ts = self.times(t, hostile) or [0.5]
            self.do(name + ".Predict", lambda: [k.Predict(x) for x in ts])
        elif op == 3:
            ts = self.times(t, hostile)
            self.do(name + ".Simulate %d" % len(ts), lambda: k.Simulate(self.vd(ts)))
        else:
            ts = self.times(t, hostile)
            self.do(name + ".Filter+Predict+Simulate", lambda: (k.Filter(), [k.Predict(x) for x in ts], k.Simulate(self.vd(ts)), k.GetVar())[1:])

    def new_model(self, hostile):
        rng, L = self.rng, self.L
        t, y, e, what = self.data(hostile)
        kind = int(rng.integers(0, 3))
        p = int(rng.integers(2, 7)) if not hostile else int(rng.choice([-2, -1, 0, 1, 2, 3, 5, 9]))
        q = int(rng.integers(0, max(p, 1))) if not hostile else int(rng.choice([-3, -1, 0, 1, 2, 5, 9]))
        temp = 1.0 if not hostile else float(rng.choice([1.0, 3.0, 0.0, -1.0, nan, inf]))

        def make():
            a = [bool(rng.random() < 0.5), "label" * int(rng.integers(0, 20)), self.vd(t), self.vd(y), self.vd(e)]
            if kind == 0:
                m, d = L.CAR1(*a, temp), 4
            elif kind == 1:
                m, d = L.CARp(*a, p, temp), 3 + p
            else:
                m, d = L.CARMA(*a, p, q, temp), 3 + p + q
            self.models.append((m, d))
            return "made"
        self.do("model%d p%d q%d %s" % (kind, p, q, what), make)

    def use_model(self, hostile):
        if not self.models:
            return self.new_model(hostile)
        rng = self.rng
        m, d = self.models[int(rng.integers(0, len(self.models)))]
        name = type(m).__name__
        op = int(rng.integers(0, 6))
        th = self.theta(d, hostile)
        if op <= 1:
            self.do(name + ".getLogDensity %d/%d" % (len(th), d), lambda: m.getLogDensity(self.vd(th)))
        elif op == 2:
            self.do(name + ".getLogPrior %d/%d" % (len(th), d), lambda: m.getLogPrior(self.vd(th)))
        elif op == 3:
            def rows():
                s = m.getSamples()
                if len(s) and rng.random() < 0.5:
                    self.held.append(s[int(rng.integers(0, len(s)))])     # a row that outlives its table
                return s
            self.do(name + ".getSamples", rows)
        elif op == 4:
            self.do(name + ".GetLogLikes", lambda: m.GetLogLikes())
        elif hasattr(m, "SetMLE"):
            on = bool(rng.random() < 0.5)
            self.do(name + ".SetMLE", lambda: m.SetMLE(on))

    def run(self, hostile):
        rng, L = self.rng, self.L
        t, y, e, what = self.data(False)
        ns, nb, thin = int(rng.choice([0, 1, 1, 2, 4, 7, 11])), int(rng.choice([0, 1, 1, 2, 5, 11])), int(rng.choice([1, 1, 2, 3]))
        p = int(rng.choice([1, 1, 2, 2, 3, 4, 5]))
        if self.big:
            ns, nb = int(rng.choice([31, 32, 63, 64, 100, 128, 129])), int(rng.choice([0, 1, 64, 101]))
            p = int(rng.choice([1, 2, 3, 6, 8]))
        q = int(rng.integers(0, p))
        z = bool(p > 1 and rng.random() < 0.3)
        nw = int(rng.integers(1, 5))
        d = 3 + p + (0 if z else q)
        init = [] if rng.random() < 0.6 else self.theta(d, hostile)
        if hostile:
            r = rng.random()
            if r < 0.15:
                thin = int(rng.choice([0, -1, -2 ** 31]))
            elif r < 0.3:
                ns = int(rng.choice([-1, -2 ** 31]))
            elif r < 0.4:
                nb = int(rng.choice([-1, -2 ** 31]))
            elif r < 0.5 and p > 1:
                nw = int(rng.choice([0, -1, -2 ** 31]))
            elif r < 0.65 and p > 1:
                p, q = [(0, 0), (-1, 0), (2, 2), (2, 5), (3, -1), (3, -9), (-4, 3)][int(rng.integers(0, 7))]
                what += "order"
            elif r < 0.85:
                k = int(rng.integers(0, 3))
                a = (t, y, e)[k]
                c = int(rng.integers(0, 5))
                if c == 0:
                    del a[:]
                elif c == 1:
                    del a[int(rng.integers(0, len(a))):]
                elif c == 2:
                    a.append(0.5)
                elif c == 3:
                    a[int(rng.integers(0, len(a)))] = [nan, inf, -inf][int(rng.integers(0, 3))]
                else:
                    a[:] = [a[0]] * (1 if k == 2 else len(a))
                what += "tye"[k] + "<>*="[min(c, 3)]
            else:
                del t[1:], y[1:], e[1:]
                what = "n1"

        def go():
            a = [self.vd(t), self.vd(y), self.vd(e)]
            if p == 1 and not z:
                r = L.run_mcmc_car1(ns, nb, *a, thin, self.vd(init))
            else:
                r = L.run_mcmc_carma(ns, nb, *a, p, q, nw, z, thin, self.vd(init))
            self.models.append((r, d))
            return r.getSamples(), r.GetLogLikes()
        self.do("run p%d q%d z%d w%d thin%d ns%d nb%d init%d %s" % (p, q, z, nw, thin, ns, nb, len(init), what), go)

    def vector(self, hostile):
        """the containers that carry the data"""
        rng, L = self.rng, self.L
        if self.held and rng.random() < 0.5:
            row = self.held[int(rng.integers(0, len(self.held)))]
            return self.do("held row", lambda: row)
        kind = int(rng.integers(0, 3))
        k = int(rng.integers(-3, 8))

        def go():
            if kind == 0:
                v = self.vd(rng.normal(0, 1, int(rng.integers(0, 6))))
            elif kind == 1:
                v = self.vc(rng.normal(0, 1, int(rng.integers(0, 6))) + 1j)
            else:
                v = L.vecvecD()
                for _ in range(int(rng.integers(0, 4))):
                    v.append(self.vd(rng.normal(0, 1, 3)))
            out = []
            for _ in range(5):
                op = int(rng.integers(0, 7))
                try:
                    if op == 0:
                        out.append(v[k])
                    elif op == 1:
                        del v[k]
                    elif op == 2:
                        v[k] = v[0]
                    elif op == 3:
                        out.append(v[k:k + 3])
                    elif op == 4:
                        v.append(v[0])
                    elif op == 5:
                        v[1:2] = v[0:1]
                    else:
                        out.append(len(list(v)))
                except (IndexError, TypeError, ValueError):
                    out.append("refused")
            if kind == 2 and len(v):
                self.held.append(v[0])
            return out, v
        self.do("vector%d" % kind, go)

    def drop(self, hostile):
        rng = self.rng
        pool = [self.filters, self.models, self.held][int(rng.integers(0, 3))]
        if pool:
            del pool[int(rng.integers(0, len(pool)))]
            self.log.append(("drop", "-"))


def ext_history(L, rng, steps, seeder, before=None):
    hostile = bool(rng.random() < 0.6)
    h = History(L, rng)
    seeder(int(rng.integers(1, 2 ** 31 - 1)))
    for s in range(steps):
        if before:
            before(h, s)
        h.step(hostile)
    return h.log


def cxx_history(vx, rng, steps, seeder, before=None):
    """the C++ classes through the entry points of aux/: steps, proposals, samplers, models, generators"""
    log = []
    seeder(int(rng.integers(1, 2 ** 31 - 1)))

    def odd(x):
        return float(x) if rng.random() < 0.7 else SPECIAL[int(rng.integers(0, len(SPECIAL)))]

    def pd(d):
        A = rng.normal(0, 1, (d, d))
        return A @ A.T + 0.1 * np.eye(d)

    def g_rng():
        k = list(vx.KINDS)[int(rng.integers(0, len(vx.KINDS)))]
        a = sorted(rng.uniform(0.2, 5, 3))
        if k == "uniformint":
            a = [int(v) for v in sorted(rng.integers(0, 50, 3))]
        f = vx.rng_second if rng.random() < 0.3 else vx.rng
        return "rng " + k, lambda: f(k, int(rng.integers(0, 6)), *a)

    def g_mvn():
        d = int(rng.integers(1, 6))
        return "mvn %d" % d, lambda: vx.mvn(pd(d), int(rng.integers(0, 4)))

    def g_prop():
        k = int(rng.integers(0, 3))
        return "prop %d" % k, lambda: (vx.prop(k, 2.0, odd(1.0), odd(0.5), 4), vx.prop_logdens(k, 2.0, odd(1.0), odd(1.5), odd(0.5)))

    def g_propmvn():
        d = int(rng.integers(1, 6))
        return "prop mvn %d" % d, lambda: vx.prop_mvn(pd(d), rng.normal(0, 1, d), 3)

    def g_ram():
        d = int(rng.integers(1, 7))
        kind = int(rng.integers(0, 6))
        return "ram %d %d" % (d, kind), lambda: vx.ram_trace(pd(d), pd(d), kind, 0.3, float(rng.choice([1, 5])), 0.25, int(rng.integers(0, 20)), 25,
                                                              rng.normal(0.5, 0.2, d), propkind=int(rng.integers(0, 2)))["new"]

    def g_metvec():
        d, nw, pk = int(rng.integers(1, 5)), int(rng.integers(2, 6)), int(rng.integers(0, 2))
        return "metropolis %d %d %d" % (d, nw, pk), lambda: vx.metrop_vec(pd(d), int(rng.integers(0, 6)), 0.3, 1.0, pk, pd(d), 2.0,
                                                                            rng.normal(0.5, 0.2, (nw, d)), 12, bool(rng.random() < 0.5))["new"]

    def g_metsc():
        pk = int(rng.integers(0, 3))
        return "metropolis scalar %d" % pk, lambda: vx.metrop_scalar(int(rng.integers(0, 2)), 1.5, 1.0, pk, 2.0, 1.0, 0.7, 12)["new"]

    def g_gibbs():
        d = int(rng.integers(1, 5))
        return "gibbs %d" % d, lambda: vx.gibbs(d, 1.0, 5)

    def g_exch():
        nc = int(rng.integers(2, 6))
        return "exchange %d" % nc, lambda: vx.exchange(np.exp(np.linspace(0, 4, nc)), rng.normal(0, 2, (8, nc)))[2]

    def g_chol():
        d = int(rng.integers(1, 7))
        L = np.linalg.cholesky(pd(d)).T
        return "cholesky %d" % d, lambda: vx.cholupdate(L, rng.normal(0, 0.05, d), bool(rng.random() < 0.5))

    def g_sampler():
        n = int(rng.integers(1, 5))
        track = [bool(x) for x in rng.random(n) < 0.6]
        a = [int(rng.integers(0, 6)), int(rng.integers(0, 6)), int(rng.integers(1, 4))]
        if rng.random() < 0.1:
            a = [int(rng.choice([32, 64, 100, 128, 200])), int(rng.choice([0, 64, 150])), int(rng.integers(1, 4))]
        return "sampler %s" % a, lambda: vx.sampler(track, *a, int(rng.integers(0, 3)))["draws"]

    def g_model():
        kind = ["CAR1", "CARp", "CARMA", "ZCAR", "ZCARMA"][int(rng.integers(0, 5))]
        p = 1 if kind == "CAR1" else int(rng.integers(2, 6))
        q = int(rng.integers(0, p)) if kind == "CARMA" else 0
        n = int(rng.choice([3, 6, 15])) if rng.random() < 0.9 else int(rng.choice([62, 100]))
        t, y, e = np.cumsum(rng.uniform(0.2, 2, n)), rng.normal(0, 1, n), rng.uniform(0.05, 0.3, n)

        def go():
            out = []
            with vx.Model(kind, t, y, e, p, q) as m:
                th = np.concatenate([[1.0, 1.0, 0.0], rng.normal(-0.5, 1, m.npar - 3)])
                for op in rng.integers(0, 8, 6):
                    if rng.random() < 0.2:
                        th[int(rng.integers(0, len(th)))] = odd(0.4)
                    try:
                        out.append([m.logdens, m.logprior, m.sigsqr, m.bounds, m.ar, m.ma, m.setstart, m.save][int(op)](th))
                    except (vx.CxxError, ValueError):
                        out.append("raised")
                if n > 3:
                    out.append(m.start())
                out.append(m.data())
            return out
        return "model %s %d %d" % (kind, p, q), go

    def g_copy():
        n = 6
        t, y, e = np.cumsum(rng.uniform(0.2, 2, n)), rng.normal(0, 1, n), rng.uniform(0.05, 0.3, n)
        c1 = bool(rng.random() < 0.5)
        r = np.array([-0.5]) if c1 else np.array([-0.5 + 0.3j, -0.5 - 0.3j, -1.2])
        return "copies", lambda: vx.copy_filter(t, y, e, 1.0, r, np.array([1.0, 0.2])[:1 if c1 else 2], [0.1, 2.0], c1)[0]

    def g_life():
        k = int(rng.integers(0, 9))
        return "life %d" % k, lambda: vx.life(k, int(rng.integers(1, 5)))

    gens = [g_rng, g_rng, g_mvn, g_prop, g_propmvn, g_ram, g_metvec, g_metsc, g_gibbs, g_exch, g_chol, g_sampler, g_model, g_model, g_model, g_copy, g_life]
    for s in range(steps):
        name, fn = gens[int(rng.integers(0, len(gens)))]()
        if before:
            before(name, s)
        try:
            r = outcome(fn())
        except vx.Unavailable:
            r = "unavailable"
        except Exception as ex:
            r = "raised " + type(ex).__name__
        log.append((name, r))
    return log
