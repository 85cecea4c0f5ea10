import numpy as np
from lib import gen as G, api as A, vx
from checks import c02, c11

LEVEL = "exploration"
RULE = ("one case = one sampler run: counters of a synthetic chain, event log of a real run, or the draws returned by a real run; distinct by unit, class, orders, "
        "burn-in, thinning, number of temperatures, start")
ASSUMPTIONS = ["the log-density recomputed from the returned object is the reference for the stored one; where conditioning allows it is compared with the 80-bit one too"]


def unit_counts(ctx):
    """synthetic steps that count how often they run"""
    def case(i, rng):
        ns = int(rng.integers(1, 13))
        track = (rng.random(ns) < 0.6).astype(int)
        size, burn, thin = int(rng.choice([0, 1, 2, 7, 40])), int(rng.choice([0, 1, 2, 9, 50])), int(rng.choice([1, 2, 3, 10, 13, 64]))
        il = int(rng.choice([0, 1, 2, 3]))
        if i % 8 == 7:
            # long runs
            ns = int(rng.integers(1, 4))
            track = (rng.random(ns) < 0.8).astype(int)
            size, burn, thin = [(int(rng.integers(150, 4000)), int(rng.integers(0, 40)), int(rng.choice([1, 2, 7]))),
                                (int(rng.integers(0, 40)), int(rng.integers(100, 30000)), int(rng.integers(1, 30))),
                                (int(rng.integers(1, 30)), int(rng.integers(0, 400)), int(rng.integers(60, 1500)))][int(rng.integers(3))]
        r = ctx.call("Sampler", vx.sampler, track, size, burn, thin, il)
        data = dict(track=track, sample_size=size, burnin=burn, thin=thin, initlen=il)
        total = burn + size * thin
        ctx.check(len(r["order"]) == total * ns, "counts:iterations", "%d steps were done, %d expected" % (len(r["order"]), total * ns), **data)
        ctx.check(np.array_equal(r["order"], np.tile(np.arange(ns), total)), "counts:order", "the steps were not done once per iteration in the order they were added", **data)
        ctx.check(r["nsteps"] == ns and r["ntracked"] == int(track.sum()), "counts:steps", "%d steps, %d tracked reported" % (r["nsteps"], r["ntracked"]), **data)
        for k in range(ns):
            d = r["draws"][k]
            if not track[k]:
                ctx.check(len(d) == 0 or not np.any(d), "counts:untracked", "parameter %d is not tracked but has %d draws" % (k, len(d)), **data)
                continue
            want = (burn + (np.arange(size) + 1) * thin - 1) * ns + k + 1
            ctx.check(len(d) == size, "counts:size", "%d draws, %d expected" % (len(d), size), **data)
            if len(d) == size and size:
                ctx.check(np.array_equal(d[:, 1], np.full(size, k)), "counts:whose", "draws of parameter %d belong to another" % k, draws=d, **data)
                # one per thinning interval
                w = np.floor((d[:, 0] - 1) / ns - burn + 1e-9) // thin
                ctx.check(np.array_equal(w, np.arange(size)), "counts:interval", "draws are not one per thinning interval after the burn-in", draws=d, **data)
                ctx.check(np.array_equal(d[:, 0], want) or len(set(np.round(d[:, 0] - want).tolist())) == 1, "counts:offset", "recording position drifts", draws=d, **data)
                ctx.close(d[:, 2], -d[:, 0] - 1000 * d[:, 1], 1e-9 * np.abs(d[:, 2]), "counts:density", "stored log-densities", draws=d, **data)
        ctx.check(all(a + b == 1 for a, b in zip(r["nstart"], r["nset"])) and (sum(r["nset"]) == (ns if il == 2 else 0)), "counts:start",
                  "starting values: %r drawn, %r given" % (r["nstart"], r["nset"]), **data)
        ctx.distinct(ns, int(track.sum()), size, burn, thin, il)
        ctx.sample(dict(data, steps_done=len(r["order"]), last_draw=r["draws"][int(np.argmax(track))][-1:]))
    ctx.each(800, 8000, case)


def kind_of(p, q, z):
    return "CAR1" if p == 1 else "ZCAR" if z else "CARp" if q == 0 else "CARMA"


def config(rng):
    p = int(rng.choice([1, 1, 2, 2, 3, 4, 5]))
    z = p > 1 and rng.random() < 0.25
    q = 0 if z else int(rng.integers(0, p))
    n = int(rng.choice([4, 10, 30]))
    t, y, e, kinds = c02.dataset(rng, n, min(p, 3), 0)
    return p, q, bool(z), t, y, e


def unit_runs(ctx):
    def case(i, rng):
        p, q, z, t, y, e = config(rng)
        kind = kind_of(p, q, z)
        ns, nb, th = int(rng.choice([1, 2, 5, 30])), int(rng.choice([0, 1, 3, 60])), int(rng.choice([1, 1, 2, 5, 30]))
        nw = int(rng.choice([1, 2, 3, 6, 12]))
        if i % 10 == 9:
            nw = min(nw, 3)
            ns, nb, th = [(int(rng.integers(150, 700)), 3, 1), (3, int(rng.integers(100, 2500)), 1), (5, 7, int(rng.integers(40, 300)))][int(rng.integers(3))]
        maxs = 10 * np.std(y)
        init = None
        ik = str(rng.choice(["none", "good", "bad", "length"]))
        if ik != "none":
            init = G.support_theta(rng, t, y, p, q, 0.9 * maxs)
            if init is None:
                ik = "none"
            elif ik == "bad":
                init[0] = 100 * maxs
            elif ik == "length":
                init = init[:-1]
        data = dict(t=t, y=y, e=e, p=p, q=q, z=z, nsample=ns, burnin=nb, thin=th, nwalkers=nw, init=init)
        o = ctx.call("sampler run", A.run, ns, nb, t, y, e, p, q, nw, z, th, init)
        S, L = A.samples(o), A.loglikes(o)
        ctx.check(len(S) == ns and len(L) == ns, "runs:count", "%d draws and %d log-posteriors, %d requested" % (len(S), len(L), ns), **data)
        ctx.check(S.shape == (ns, 3 + p + q), "runs:length", "draws have shape %s" % (S.shape,), **data)
        for k in range(min(ns, 8)):
            j = k if ns <= 8 else int(rng.integers(0, ns))
            if j >= len(S) or j >= len(L):
                continue
            ld = o.getLogDensity(A.vd(S[j]))
            ctx.check(np.isfinite(L[j]) and c11.bounds_ok(kind, S[j], t, y, p, q, maxs), "runs:support", "draw %d (log-posterior %r) is outside of the prior" % (j, L[j]), theta=S[j], **data)
            ctx.close(L[j], ld, 1e-8 * (1 + abs(ld)), "runs:density", "log-posterior stored with draw %d" % j, theta=S[j], **data)
            if k < 3:
                c02.judge(ctx, kind, S[j], L[j], None, t, y, e, p, q, data, key="runs:")
        moved = len({tuple(x) for x in S.tolist()})
        ctx.count("distinct draws seen", moved)
        ctx.distinct(kind, p, q, ns, nb, th, nw, ik)
        ctx.sample(dict(kind=kind, p=p, q=q, draws=ns, burnin=nb, thin=th, temperatures=nw, last_logpost=float(L[-1]), recomputed=float(ld)))
    ctx.each(400, 4000, case)


def unit_thinning(ctx):
    """same seed, different thinning: the thinned run is every k-th draw of the other"""
    if not vx.seed(1):
        ctx.skip("the generator cannot be seeded")
        return

    def case(i, rng):
        p, q, z, t, y, e = config(rng)
        k, ns, nb, nw = int(rng.choice([2, 3, 5, 11, 25, 70])), int(rng.integers(2, 20)), int(rng.choice([0, 1, 30, 137, 300])), int(rng.choice([1, 3]))
        if i % 10 == 9:
            k, ns = int(rng.choice([2, 3])), int(rng.integers(210, 500))
        s = int(rng.integers(1, 2 ** 30))
        vx.seed(s)
        a = ctx.call("sampler run", A.run, ns * k, nb, t, y, e, p, q, nw, z, 1)
        vx.seed(s)
        b = ctx.call("sampler run", A.run, ns, nb, t, y, e, p, q, nw, z, k)
        vx.seed(s)
        c = ctx.call("sampler run", A.run, ns * k, nb, t, y, e, p, q, nw, z, 1)
        F, S, LF, LS = A.samples(a), A.samples(b), A.loglikes(a), A.loglikes(b)
        if not np.array_equal(F, A.samples(c)):
            ctx.count("runs are not reproducible by seeding")
            return
        data = dict(t=t, y=y, e=e, p=p, q=q, z=z, nsample=ns, burnin=nb, thin=k, nwalkers=nw)
        ok = [o for o in range(k) if np.array_equal(F[o::k], S) and np.array_equal(LF[o::k], LS)]
        ctx.check(len(ok) > 0, "thinning", "draws of the thinned run are not every %d-th draw of the same chain" % k, thinned=S, **data)
        ctx.distinct(kind_of(p, q, z), p, q, k, ns, nb, nw)
        ctx.count("chains compared")
        # iterations of the burn-in are iterations of the same chain: with no adaptation difference a longer burn-in only starts recording later
        if nb == 0:
            vx.seed(s)
            d = ctx.call("sampler run", A.run, 1, 0, t, y, e, p, q, nw, z, k)
            ctx.check(np.array_equal(A.samples(d)[0], S[0]), "thinning:first", "the first draw depends on how many follow", first=A.samples(d), **data)
    ctx.each(120, 1200, case)


def unit_traced(ctx):
    """event log of whole runs"""
    def case(i, rng):
        p, q, z, t, y, e = config(rng)
        ns, nb, th, nw = int(rng.choice([1, 2, 6])), int(rng.choice([0, 1, 5, 20])), int(rng.choice([1, 2, 4, 23])), int(rng.choice([1, 2, 4]))
        if i % 10 == 9:
            ns, nb, th = [(int(rng.integers(100, 300)), 3, 1), (3, int(rng.integers(100, 400)), 1), (2, 7, int(rng.integers(40, 150)))][int(rng.integers(3))]
        if p == 1:
            nw = 1
        ev, S, L, T = ctx.call("sampler run", vx.traced_run, ns, nb, t, y, e, p, q, nw, z, th)
        data = dict(t=t, y=y, e=e, p=p, q=q, z=z, nsample=ns, burnin=nb, thin=th, nwalkers=nw)
        recs = [k for k, x in enumerate(ev) if x["kind"] == "record"]
        ctx.check(len(recs) == ns and len(S) == ns and len(L) == ns, "traced:records", "%d records, %d draws, %d log-posteriors for %d requested" % (len(recs), len(S), len(L), ns), **data)
        metro = [x for x in ev if x["kind"] == "metro"]
        if not metro:
            ctx.skip("no event of the sampler was seen")
            return
        chains = sorted({x["chain"] for x in metro})
        ctx.check(len(chains) == nw, "traced:chains", "%d chains move, %d asked for" % (len(chains), nw), **data)
        for c in chains:
            ctx.check(sum(x["chain"] == c for x in metro) == nb + th * ns, "traced:iterations", "chain %d made %d moves, %d expected"
                      % (c, sum(x["chain"] == c for x in metro), nb + th * ns), **data)
        prev = -1
        state = {}
        pos = 0
        for r, k in enumerate(recs):
            seg = ev[prev + 1:k]
            want = th + (nb if r == 0 else 0)
            rec = ev[k]["rec"]
            ctx.check(len(rec) == 1, "traced:tracked", "%d chains recorded" % len(rec), **data)
            cid, val, lg = rec[0]
            m = sum(x["kind"] == "metro" and x["chain"] == cid for x in seg)
            ctx.check(m == want, "traced:interval", "%d iterations before record %d, %d expected" % (m, r, want), **data)
            last = [x for x in seg if x["kind"] == "metro" and x["chain"] == cid or x["kind"] == "exchange" and any(y[0] == cid for y in x["chains"])]
            if last:
                x = last[-1]
                now = (x["new"], x["newlog"]) if x["kind"] == "metro" else [(y[4], y[5]) for y in x["chains"] if y[0] == cid][0]
                ctx.check(np.array_equal(now[0], val) and now[1] == lg, "traced:state", "record %d is not the state of its chain" % r, **data)
            ctx.check(np.array_equal(S[r], val) and L[r] == lg, "traced:returned", "draw %d returned is not the one recorded" % r, recorded=val, draw=S[r], logs=[lg, L[r]], **data)
            prev = k
        ctx.distinct("traced", p, q, z, ns, nb, th, nw)
        ctx.count("events", len(ev))
    ctx.each(160, 1600, case)


def unit_options(ctx):
    """CarmaModel.run_mcmc does what its options say: same seed, same draws as the sampler called directly"""
    cm = A.cm()
    if not vx.seed(1):
        ctx.skip("the generator cannot be seeded")
        return

    def case(i, rng):
        p, q, z, t, y, e = config(rng)
        if i % 2:
            p, q = 1, 0
        m = ctx.call("CarmaModel", cm.CarmaModel, t, y, e, p=p, q=q)
        ns = int(rng.choice([1, 4, 9, 20, 21])) if i % 12 else int(rng.choice([1101, 2400]))
        kw = {}
        if rng.random() < 0.5:
            kw["nburnin"] = int(rng.choice([0, 1, 17, 40]))
        if rng.random() < 0.5:
            kw["ntemperatures"] = int(rng.choice([1, 2, 4]))
        if rng.random() < 0.5:
            kw["nthin"] = int(rng.choice([1, 2, 3, 12]))
        if rng.random() < 0.4:
            th = G.support_theta(rng, t, y, p, q, 5 * np.std(y))
            if th is not None:
                kw["init"] = th
        data = dict(t=t, y=y, e=e, p=p, q=q, nsamples=ns, options={k: np.asarray(v) for k, v in kw.items()})
        s = int(rng.integers(1, 2 ** 30))
        call = dict(kw, init=A.vd(kw["init"])) if "init" in kw else kw
        vx.seed(s)
        a = ctx.call("run_mcmc", m.run_mcmc, ns, **call)
        got = np.column_stack([np.sqrt(a.get_samples("var")[:, 0]), a.get_samples("measerr_scale")[:, 0], a.get_samples("mu")[:, 0], a.get_samples("logpost")[:, 0]])
        same = 0
        # documented defaults: half as many burn-in iterations as draws, no thinning, max(10, p+q) temperatures
        for nb in {kw["nburnin"]} if "nburnin" in kw else {ns // 2, (ns + 1) // 2}:
            vx.seed(s)
            b = ctx.call("sampler run", A.run, ns, nb, t, y, e, p, q, kw.get("ntemperatures", max(10, p + q)), False, kw.get("nthin", 1), kw.get("init"))
            want = np.column_stack([A.samples(b)[:, :3], A.loglikes(b)])
            same += bool(np.allclose(got, want, rtol=1e-9, atol=1e-12 * np.abs(want[:, 3:]).max()))
        ctx.check(same > 0, "options", "run_mcmc with these options does not give the draws of a sampler run with the same seed and settings", got=got, **data)
        ctx.distinct("options", p, q, ns, tuple(sorted(kw)))
        ctx.count("runs compared")
    ctx.each(120, 1000, case)


def unit_model(ctx):
    cm = A.cm()

    def case(i, rng):
        p, q, z, t, y, e = config(rng)
        if z:
            q = 0
        m = ctx.call("CarmaModel", cm.CarmaModel, t, y, e, p=p, q=q)
        ns = int(rng.choice([1, 3, 8, 21]))
        kw = {}
        if rng.random() < 0.6:
            kw["nburnin"] = int(rng.choice([0, 1, 17]))
        if rng.random() < 0.6:
            kw["ntemperatures"] = int(rng.choice([1, 2, 4]))
        if rng.random() < 0.6:
            kw["nthin"] = int(rng.choice([1, 2, 3]))
        s = ctx.call("run_mcmc", m.run_mcmc, ns, **kw)
        data = dict(t=t, y=y, e=e, p=p, q=q, nsamples=ns, options=kw)
        for name in ("var", "measerr_scale", "mu", "sigma", "logpost", "loglik"):
            v = s.get_samples(name)
            ctx.check(len(v) == ns and np.isfinite(v).all(), "model:count", "%s has %d draws, %d requested" % (name, len(v), ns), **data)
        # the stored log-posterior belongs to the draw, rebuilt from the reported quantities
        o = A.model(kind_of(p, q, False), t, y, e, p, q)
        for j in (0, ns - 1):
            base = [np.sqrt(s.get_samples("var")[j, 0]), s.get_samples("measerr_scale")[j, 0], s.get_samples("mu")[j, 0]]
            if p == 1:
                th = np.array(base + [s.get_samples("log_omega")[j, 0]])
            elif q == 0:
                th = np.array(base + list(np.log(s.get_samples("quad_coefs")[j])))
            else:
                continue
            c02.judge(ctx, kind_of(p, q, False), th, s.get_samples("logpost")[j, 0], None, t, y, e, p, q, data, key="model:")
        ctx.distinct("model", p, q, ns, tuple(sorted(kw)))
    ctx.each(80, 800, case)


UNITS = [dict(name="counts", fn=unit_counts, shards=1), dict(name="runs", fn=unit_runs, shards=4, tshards=8, weight=4), dict(name="thinning", fn=unit_thinning, shards=2, weight=3),
         dict(name="traced", fn=unit_traced, shards=2, weight=2), dict(name="model", fn=unit_model, shards=2, weight=3), dict(name="options", fn=unit_options, shards=2, weight=3)]
