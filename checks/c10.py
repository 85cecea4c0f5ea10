import numpy as np
from lib import gen as G, api as A, vx, stat
from checks import c02

LEVEL = "exploration"
RULE = ("one case = one set of exchanges between chains of given temperatures, or one traced sampler run with all its chains; distinct by unit, number of chains, "
        "temperatures, model order")
ASSUMPTIONS = ["exchange frequencies are compared with their probabilities by sums over many exchanges (alarm where a Chernoff bound is below 1e-14)",
               "log-posteriors that are NaN leave the probability open; only conservation of the pairs is required there"]


def prob(ti, tj, li, lj):
    with np.errstate(all="ignore"):
        x = (1 / ti - 1 / tj) * (lj - li)
        return np.where(np.isnan(x), np.nan, np.exp(np.minimum(x, 0.0)))


def unit_raw(ctx):
    B = stat.Bernoulli(ctx, "raw", "exchange of two chains")

    def case(i, rng):
        tj = float(rng.choice([1.0, 1.0, 2.0, 0.5, 30.0]))
        ti = float(tj * rng.choice([1.5, 10.0, 100.0, 1.0001, 0.3, 1.0]))
        n = 500
        base = float(rng.choice([0.0, -50.0, 300.0, -1e5]))
        w = float(rng.choice([0.5, 3.0, 30.0])) / max(abs(1 / ti - 1 / tj), 1e-3)
        li = base + w * rng.normal(size=n)
        lj = base + w * rng.normal(size=n)
        if i % 20 == 19 and ti != tj:
            # poor exchanges, many of them
            n = 60000
            li = base + rng.normal(size=n)
            lj = li - rng.uniform(4, 14, n) / (1 / ti - 1 / tj)
        for L in (li, lj):
            m = rng.random(n) < 0.04
            L[m] = rng.choice([np.inf, -np.inf, np.nan], m.sum(), p=[.15, .7, .15])
        r = ctx.call("ExchangeStep", vx.exchange_raw, ti, tj, li, lj)
        data = dict(ti=ti, tj=tj, li=li, lj=lj)
        kept = (r[:, 1] == 1) & (r[:, 3] == 2)
        swap = (r[:, 1] == 2) & (r[:, 3] == 1)
        ctx.ev(n)
        if not (kept | swap).all():
            k = int(np.flatnonzero(~(kept | swap))[0])
            ctx.violation("raw:values", "exchange %d turned the values (1, 2) into (%g, %g)" % (k, r[k, 1], r[k, 3]), **data)
            return
        l0 = np.where(swap, li, lj)
        l1 = np.where(swap, lj, li)
        same = lambda a, b: (a == b) | (np.isnan(a) & np.isnan(b))
        ok = same(r[:, 2], l0) & same(r[:, 4], l1)
        if not ok.all():
            k = int(np.flatnonzero(~ok)[0])
            ctx.violation("raw:logs", "after exchange %d (%s) the log-posteriors are (%r, %r), those of the values held are (%r, %r)"
                          % (k, "swapped" if swap[k] else "kept", r[k, 2], r[k, 4], l0[k], l1[k]), **data)
        P = prob(ti, tj, li, lj)
        good = ~np.isnan(P) & ~((P > 1 - 1e-9) & (P < 1))
        # an infinite log-posterior on the positive side is no density; not judged
        good &= ~(np.isposinf(li) | np.isposinf(lj))
        B.add(P[good], swap[good], (ti > tj, "any"), **data)
        ctx.count("exchanges judged", int(good.sum()))
        ctx.count("exchanges done", int(swap.sum()))
        ctx.distinct("raw", ti, tj, base, w)
        ctx.sample(dict(ti=ti, tj=tj, expected=float(np.nansum(P[good])), done=int(swap[good].sum())))
    ctx.each(400, 6000, case)
    B.judge()


def unit_ensemble(ctx):
    B = stat.Bernoulli(ctx, "ensemble", "exchange between neighbours")

    def case(i, rng):
        nc = int(rng.integers(2, 9))
        temps = np.sort(np.concatenate([[1.0], np.exp(rng.uniform(0, 5, nc - 1))]))
        n = 60 * (nc - 1)
        vals = rng.normal(size=(n, nc)) * np.sqrt(temps) * float(rng.choice([1, 2]))
        idx, b, a, ratio = ctx.call("ExchangeStep", vx.exchange, temps, vals)
        data = dict(temps=temps, vals=vals)
        for k in range(n):
            j = idx[k]
            other = [c for c in range(nc) if c not in (j, j - 1)]
            ctx.ev()
            if not np.array_equal(b[k][other], a[k][other]):
                ctx.violation("ensemble:others", "exchange of chain %d with its neighbour changed another chain" % j, before=b[k], after=a[k], **data)
                return
            if sorted(map(tuple, b[k].tolist())) != sorted(map(tuple, a[k].tolist())):
                ctx.violation("ensemble:pairs", "the pairs of values and log-posteriors are not conserved by the exchange of chain %d" % j, before=b[k], after=a[k], **data)
                return
        sw = np.array([a[k][idx[k]][0] != b[k][idx[k]][0] for k in range(n)])
        P = np.array([prob(temps[idx[k]], temps[idx[k] - 1], b[k][idx[k]][1], b[k][idx[k] - 1][1]) for k in range(n)])
        good = ~((P > 1 - 1e-9) & (P < 1))
        B.add(P[good], sw[good], "any", **data)
        ctx.distinct("ensemble", nc, i % 50)
    ctx.each(150, 2000, case)
    B.judge()


def unit_traced(ctx):
    B = stat.Bernoulli(ctx, "traced", "exchange in sampler runs")

    def case(i, rng):
        p = int(rng.choice([2, 2, 3, 4]))
        q = int(rng.integers(0, p))
        z = bool(rng.random() < 0.2)
        n = int(rng.choice([8, 15, 30]))
        t, y, e, kinds = c02.dataset(rng, n, min(p, 3), 0)
        nw = 1 + i % 10 if i % 7 else int(rng.choice([11, 14, 18]))
        burn = int(rng.choice([0, 30, 100]))
        ns = 40
        thin = int(rng.choice([1, 2]))
        init = () if rng.random() < 0.7 else None
        if init is None:
            init = vx.traced_run(1, 5, t, y, e, p, 0 if z else q, 1, z, 1)[1][0]
        ev, S, L, T = ctx.call("sampler run", vx.traced_run, ns, burn, t, y, e, p, 0 if z else q, nw, z, thin, init)
        data = dict(t=t, y=y, e=e, p=p, q=q, nwalkers=nw, burnin=burn, thin=thin, zcarma=z)
        ctx.check(T == 1.0, "traced:returned", "the returned object has temperature %r with %d temperatures" % (T, nw), **data)
        temps, state = {}, {}
        P, H = [], []
        nrec = 0
        for x in ev:
            if x["kind"] == "metro":
                c = x["chain"]
                if c in temps and temps[c] != x["temp"]:
                    ctx.violation("traced:moving", "chain %d changed its temperature from %r to %r" % (c, temps[c], x["temp"]), **data)
                    return
                temps[c] = x["temp"]
                if c in state:
                    ctx.ev()
                    if not (np.array_equal(state[c][0], x["old"]) and state[c][1] == x["oldlog"]):
                        ctx.violation("traced:state", "the state of chain %d changed outside the updates and exchanges" % c, **data)
                        return
                state[c] = (x["new"], x["newlog"])
            elif x["kind"] == "exchange":
                cs = x["chains"]
                ctx.ev()
                moved = [k for k in range(len(cs)) if not (np.array_equal(cs[k][2], cs[k][4]) and cs[k][3] == cs[k][5])]
                for k in range(len(cs)):
                    temps.setdefault(cs[k][0], cs[k][1])
                before = sorted((c[3], tuple(c[2].tolist())) for c in cs)
                after = sorted((c[5], tuple(c[4].tolist())) for c in cs)
                if before != after:
                    ctx.violation("traced:pairs", "an exchange did not conserve the pairs of values and log-posteriors", before=before, after=after, **data)
                    return
                order = sorted(range(len(cs)), key=lambda k: cs[k][1])
                rank = {k: r for r, k in enumerate(order)}
                if moved and (len(moved) != 2 or abs(rank[moved[0]] - rank[moved[1]]) != 1):
                    ctx.violation("traced:neighbours", "an exchange moved the chains at temperatures %r" % [cs[k][1] for k in moved], **data)
                    return
                me = [k for k in range(len(cs)) if cs[k][0] == x["chain"]]
                if me:
                    # the partner: the neighbour that moved, or the cooler one of the pair the step belongs to
                    r = rank[me[0]]
                    if moved:
                        pair = sorted(moved, key=lambda k: rank[k])
                    else:
                        pair = [order[r - 1], order[r]] if r > 0 else None
                    if pair:
                        lo, hi = cs[pair[0]], cs[pair[1]]
                    # chains that hold the same state cannot be seen to exchange
                    if pair and not np.array_equal(lo[2], hi[2]):
                        P.append(float(prob(hi[1], lo[1], hi[3], lo[3])))
                        H.append(bool(moved))
                for k in range(len(cs)):
                    state[cs[k][0]] = (cs[k][4], cs[k][5])
            else:
                nrec += 1
                for cid, val, lg in x["rec"]:
                    ctx.ev()
                    if temps.get(cid) != 1.0:
                        ctx.violation("traced:recorded", "a recorded draw comes from the chain at temperature %r" % temps.get(cid), **data)
                        return
                    if cid in state and not (np.array_equal(val, state[cid][0]) and lg == state[cid][1]):
                        ctx.violation("traced:recstate", "a recorded draw is not the state of the chain at temperature one", **data)
                        return
        if not temps:
            ctx.skip("no event of the sampler was seen")
            return
        ts = sorted(temps.values())
        ctx.check(len(temps) == nw and ts[0] == 1.0 and all(b > a for a, b in zip(ts, ts[1:])) and np.all(np.isfinite(ts)), "traced:ladder",
                  "with %d temperatures the chains run at %r" % (nw, ts), **data)
        P, H = np.array(P), np.array(H)
        if len(P):
            good = ~((P > 1 - 1e-9) & (P < 1)) & ~np.isnan(P)
            B.add(P[good], H[good], ("walkers", nw), **data)
        ctx.check(nw == 1 or any(x["kind"] == "exchange" for x in ev), "traced:none", "no exchange was attempted with %d temperatures" % nw, **data)
        ctx.count("exchanges seen in runs", len(P))
        ctx.distinct("traced", p, q, nw, burn, thin)
    ctx.each(80, 900, case)
    B.judge()


def unit_temperature(ctx):
    """the returned object of the C++ entry points, without the tracing"""
    def case(i, rng):
        p = int(rng.choice([2, 3, 4]))
        q = int(rng.integers(0, p))
        t, y, e, kinds = c02.dataset(rng, int(rng.choice([8, 15])), min(p, 3), 0)
        nw = 1 + int(rng.integers(0, 15))
        T, val, ld = ctx.call("sampler run", vx.run_temp, 2, 3, t, y, e, p, q, nw)
        data = dict(t=t, y=y, e=e, p=p, q=q, nwalkers=nw)
        ctx.check(T == 1.0, "temperature", "the returned object has temperature %r with %d temperatures" % (T, nw), **data)
        ctx.distinct("temperature", p, q, nw)
    ctx.each(150, 1500, case)


def unit_levels(ctx):
    """recorded log-posteriors of long runs have the spread of the posterior, not of a heated one"""
    def case(i, rng):
        p = 2
        n = int(rng.choice([25, 40]))
        # benign data: the prior must not be too wide for a single chain of this length
        t, tk = G.times(rng, n, rng.choice(["irregular", "regular", "mixed"]))
        s2, r, ma, var, rk = G.process(rng, 1, 0, t)
        e, ek = G.errors(rng, n, np.sqrt(var), "uniform")
        y = G.draw(rng, t, e, s2, r, ma) + np.sqrt(var) * rng.choice([0, 1, 50])
        nws = [1, 2 + i % 4]
        out = []
        for nw in nws:
            for rep in range(2):
                o = ctx.call("run_mcmc_carma", A.run, 4000, 4000, t, y, e, p, 0, nw, False, 3)
                L = A.loglikes(o)
                out.append(L)
        # at temperature T the mean deficit from the maximum is about T*d/2; a run may stay at a lower mode or pass
        # from one to another, so each is compared with its own maximum and the smaller of two deficits counts
        d = p + 3
        for k, nw in enumerate(nws):
            ctx.ev(2)
            deficit = min(L.max() - np.mean(L) for L in out[2 * k:2 * k + 2])
            ctx.maximum("largest mean deficit of the recorded log-posterior", deficit)
            ctx.check(deficit < 6 * d, "levels", "with %d temperatures the recorded log-posteriors are %.1f below their maximum on average (%d parameters)" % (nw, deficit, d),
                      t=t, y=y, e=e, p=p, nwalkers=nw)
        ctx.distinct("levels", nws[1], n, i)
    ctx.each(8, 60, case)


UNITS = [dict(name="raw", fn=unit_raw, shards=1), dict(name="ensemble", fn=unit_ensemble, shards=1), dict(name="traced", fn=unit_traced, shards=2),
         dict(name="temperature", fn=unit_temperature, shards=1), dict(name="levels", fn=unit_levels, shards=2, weight=2)]
