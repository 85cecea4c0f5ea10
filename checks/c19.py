import contextlib
import io
import json
import math
import os
import shutil
import subprocess
import sys
import warnings
import xml.etree.ElementTree as ET
import numpy as np
from lib import build as B, hist, api as A, gen as G, fake as F, oracle as O, vx

LEVEL = "exploration"
RULE = ("one case = one history of calls over objects made and dropped at random, valid or hostile arguments, run in an instrumented process (address, undefined, "
        "libstdc++ assertions; memcheck; filled heap; heap growth) ; distinct by call, sizes, kind of fault in the arguments and whether it answered or raised")
ASSUMPTIONS = ["histories are sequences of 12 to 30 calls; sizes to 30 observations and order 8", "memcheck and the heap monitors see the extension and the C++ "
               "classes, not scipy", "the addresses monitored are those of the compiled code under test; the interpreter and numpy are trusted"]

PKG = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seeder(s):
    vx.seed(s)


def record(ctx, log, tag):
    for name, r in log:
        ctx.ev()
        kind = "raised" if r.startswith("raised") else "unavailable" if r == "unavailable" else "nonfinite" if ("nan" in r or "inf" in r) else "value"
        ctx.distinct(tag, name.split(" ns")[0], kind)
        ctx.count("calls that " + {"raised": "raised", "value": "answered", "nonfinite": "answered with a non-finite value", "unavailable": "do not fit"}[kind])
        if name.startswith("life") and kind == "value":
            ctx.check(float(r) == 0, "alive", "%s: %s objects outlive their container" % (name, r), call=name)
    if log:
        ctx.sample({"calls": [n + " -> " + r[:40] for n, r in log[:5]]})


def unit_ext(ctx):
    """the extension module under the sanitizers"""
    L = A.ext()

    def case(i, rng):
        def before(h, s):
            ctx.note("case %d step %d after %s" % (i, s, h.log[-1][0] if h.log else "-"))
        record(ctx, hist.ext_history(L, rng, 30, seeder, before), "ext")
    ctx.each(400, 4000, case)


def unit_cxx(ctx):
    """the C++ classes under the sanitizers"""
    def case(i, rng):
        def before(name, s):
            ctx.note("case %d step %d %s" % (i, s, name))
        record(ctx, hist.cxx_history(vx, rng, 25, seeder, before), "cxx")
    ctx.each(300, 3000, case)


def unit_python(ctx):
    """the Python layer over the extension, under the sanitizers"""
    cm = A.cm()

    def case(i, rng):
        n = int(rng.choice([4, 8, 20]))
        p = int(rng.integers(1, 5))
        q = int(rng.integers(0, p))
        t, y, e = np.cumsum(rng.uniform(0.2, 2, n)), rng.normal(0, 1, n), rng.uniform(0.05, 0.3, n)
        hostile = rng.random() < 0.5
        what = "valid"
        if hostile:
            a = [t, y, e][int(rng.integers(0, 3))]
            r = rng.random()
            if r < 0.5:
                a[int(rng.integers(0, n))] = [np.nan, np.inf][int(rng.integers(0, 2))]
                what = "non-finite"
            elif r < 0.8:
                t, y, e = [x[:int(rng.integers(4, n + 1))] for x in (t, y, e)]
                what = "lengths"
            else:
                t, y, e = [list(x) for x in (t, y, e)]
                what = "lists"

        def do(name, fn):
            ctx.ev()
            ctx.note("case %d %s" % (i, name))
            try:
                with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
                    warnings.simplefilter("ignore")
                    r = fn()
                k = "value"
            except Exception as ex:
                r, k = None, "raised"
            ctx.distinct("python", name, what, p, q, k)
            ctx.count("Python calls that " + ("answered" if k == "value" else "raised"))
            return r
        m = do("CarmaModel", lambda: cm.CarmaModel(t, y, e, p=p, q=q))
        if m is not None and what != "non-finite":
            s = do("run_mcmc", lambda: m.run_mcmc(int(rng.integers(4, 12)), nburnin=int(rng.integers(0, 8)), ntemperatures=int(rng.integers(1, 4)),
                                                 nthin=int(rng.choice([1, 2]))))
            if s is not None:
                for name, fn in [("get_samples", lambda: s.get_samples("ar_roots")), ("predict", lambda: s.predict(float(np.mean(t)), bestfit="map")),
                                 ("predict random", lambda: s.predict(np.linspace(0, 30, 4), bestfit="random")),
                                 ("simulate", lambda: s.simulate(np.sort(rng.uniform(-1, 40, 4)), bestfit="median")),
                                 ("simulate empty", lambda: s.simulate(np.array([]), bestfit="map")),
                                 ("psd", lambda: s.plot_power_spectrum(nsamples=int(rng.integers(1, 9)), doShow=False))]:
                    if rng.random() < 0.6:
                        do(name, fn)
        r = G.roots(rng, p, 1.0)[0]
        ma = G.ma_coefs(rng, q, 1.0)
        if rng.random() < 0.3:
            ma = np.append(ma, np.ones(int(rng.integers(1, 8))))
        do("carma_process", lambda: cm.carma_process(np.sort(rng.uniform(0, 20, int(rng.choice([0, 1, 2, 9])))), 1.0, r, ma_coefs=ma))
        do("KalmanFilter Deprecated", lambda: cm.KalmanFilterDeprecated(t, y, e, 1.0, r, ma_coefs=ma).filter())
        import gc
        gc.collect()
    ctx.each(120, 1200, case)
    import matplotlib.pyplot as plt
    plt.close("all")


def sub(ctx, job, prefix, env, limit):
    """runs lib/histrun.py; returns (exit code, result or None, where it was, stderr)"""
    d = ctx.job["scratch"]
    job = dict(job, out=os.path.join(d, "hist.json"), pkg=os.environ["PYTHONPATH"].split(":")[0])
    for f in (job["out"], job["out"] + ".at"):
        if os.path.exists(f):
            os.unlink(f)
    jf = os.path.join(d, "hist.job")
    json.dump(job, open(jf, "w"))
    e = dict(os.environ, **env)
    try:
        r = subprocess.run(prefix + [sys.executable, os.path.join(PKG, "lib", "histrun.py"), jf], env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, timeout=limit, cwd=d)
    except subprocess.TimeoutExpired:
        return None, None, "", b""
    at = open(job["out"] + ".at").read().strip() if os.path.exists(job["out"] + ".at") else "start"
    res = json.load(open(job["out"])) if os.path.exists(job["out"]) else None
    return r.returncode, res, at, r.stderr


def died(ctx, rc, at, stderr, job):
    if rc is not None and rc < 0:
        ctx.violation("crash", "process ended with signal %d at %s" % (-rc, at), job=job, stderr=stderr.decode("utf8", "replace")[-1500:])
    else:
        raise RuntimeError("history process ended with %s at %s: %s" % (rc, at, stderr.decode("utf8", "replace")[-1500:]))


def unit_memcheck(ctx):
    """memcheck: uninitialised values that decide something, stray accesses, mismatched frees, lost blocks"""
    vg = shutil.which("valgrind")
    if not vg:
        ctx.skip("valgrind is not installed")
        return

    def case(i, rng):
        which = ["ext", "cxx"][i % 2]
        job = dict(mode="outcomes", which=which, steps=25, seeds=[int(rng.integers(1, 2 ** 40)) for _ in range(8 if not ctx.thorough else 20)])
        x = os.path.join(ctx.job["scratch"], "vg.xml")
        if os.path.exists(x):
            os.unlink(x)
        rc, res, at, err = sub(ctx, job, [vg, "--quiet", "--xml=yes", "--xml-file=" + x, "--track-origins=yes", "--num-callers=14", "--leak-check=full",
                                          "--show-leak-kinds=definite", "--errors-for-leak-kinds=definite", "--error-limit=no"],
                               {"PYTHONMALLOC": "malloc"}, 190 if not ctx.thorough else 400)
        if rc is None:
            ctx.count("memcheck runs that took too long")
            return
        try:
            root = ET.parse(x).getroot()
        except ET.ParseError:
            root = None
        if res is None or root is None:
            return died(ctx, rc, at, err, job)
        n = 0
        for er in root.iter("error"):
            kind = er.findtext("kind")
            frames = [(f.findtext("obj") or "", f.findtext("fn") or "?") for f in er.iter("frame")]
            mine = [fn for obj, fn in frames if "/.build/" in obj or "_carmcmc" in obj or "/vx_" in obj]
            if not mine:
                ctx.count("memcheck reports outside the code under test")
                continue
            if kind.startswith("Leak_") and any("PyInit_" in fn or "init_module" in fn for _, fn in frames):
                continue
            n += 1
            what = er.findtext("what") or er.findtext("xwhat/text") or ""
            ctx.violation("memcheck:" + kind, "%s %s, first in %s" % (kind, what, mine[0][:160]), seeds=job["seeds"], which=which, frames=[fn[:120] for _, fn in frames][:14])
        ctx.count("memcheck histories", len(job["seeds"]))
        ctx.count("calls under memcheck", sum(len(v) for v in res.values()))
        for s, log in res.items():
            record(ctx, log, "memcheck " + which)
    ctx.each(8, 24, case)


def unit_filled(ctx):
    """the same histories with freed and fresh memory filled with different bytes: answers must not depend on it"""
    def case(i, rng):
        which = ["ext", "cxx"][i % 2]
        job = dict(mode="outcomes", which=which, steps=25, seeds=[int(rng.integers(1, 2 ** 40)) for _ in range(60)])
        out = []
        for fill in ("85", "170"):
            rc, res, at, err = sub(ctx, job, [], {"MALLOC_PERTURB_": fill}, 150)
            if rc is None:
                ctx.count("filled runs that took too long")
                return
            if res is None:
                return died(ctx, rc, at, err, job)
            out.append(res)
        for s in out[0]:
            a, b = out[0][s], out[1][s]
            record(ctx, a, "filled " + which)
            if a != b:
                k = [j for j in range(min(len(a), len(b))) if a[j] != b[j]][0]
                # the same fill twice tells whether the run repeats at all
                again = sub(ctx, dict(job, seeds=[int(s)]), [], {"MALLOC_PERTURB_": "85"}, 100)[1]
                alone = sub(ctx, dict(job, seeds=[int(s)]), [], {"MALLOC_PERTURB_": "170"}, 100)[1]
                if again is None or alone is None or again[s] == alone[s]:
                    ctx.count("histories that do not repeat")
                    continue
                third = sub(ctx, dict(job, seeds=[int(s)]), [], {"MALLOC_PERTURB_": "85"}, 100)[1]
                if third is None or third[s] != again[s]:
                    ctx.count("histories that do not repeat")
                    continue
                ctx.violation("filled", "call %d (%s) answers %s or %s depending on the bytes in unused memory" % (k, a[k][0], a[k][1][:80], b[k][1][:80]),
                              history=int(s), which=which, calls=[c[0] for c in a[:k + 1]])
    ctx.each(8, 40, case)


def unit_growth(ctx):
    """the same history repeated: the number of live heap blocks must stop growing"""
    pre = {"LD_PRELOAD": os.path.join(os.environ["PYTHONPATH"].split(":")[0], "count.so")}
    def case(i, rng):
        which = ["ext", "cxx"][i % 2]
        job = dict(mode="growth", which=which, steps=12, rounds=5, reps=8, seeds=[int(rng.integers(1, 2 ** 40)) for _ in range(6)])
        rc, res, at, err = sub(ctx, job, [], pre, 170)
        if rc is None:
            ctx.count("growth runs that took too long")
            return
        if res is None:
            return died(ctx, rc, at, err, job)
        for s, r in res.items():
            ctx.ev(len(r["marks"]))
            g = np.diff(r["marks"])[1:]
            ctx.distinct("growth", which, len(set(r["calls"])))
            ctx.count("histories repeated", 1)
            ctx.maximum("blocks gained per repetition", g.min() / job["reps"])
            if g.min() >= job["reps"]:
                again = sub(ctx, dict(job, seeds=[int(s)], rounds=8), [], pre, 170)[1]
                if again is None:
                    ctx.count("growth runs that took too long")
                    continue
                g2 = np.diff(again[s]["marks"])[1:]
                if g2.min() >= job["reps"]:
                    ctx.violation("growth", "every repetition of the history keeps %.0f heap blocks" % (g2.min() / job["reps"]), history=int(s), which=which, calls=r["calls"],
                                  marks=again[s]["marks"])
    ctx.each(16, 80, case)


def finite(x):
    r = hist.outcome(x)
    return "nan" not in r and "inf" not in r


def unit_refused(ctx):
    """calls that cannot mean anything must raise or answer with a non-finite value"""
    L = A.ext()

    def case(i, rng):
        n = int(rng.choice([5, 8, 20]))
        t, y, e = np.cumsum(rng.uniform(0.2, 2, n)), rng.normal(0, 1, n), rng.uniform(0.05, 0.3, n)
        p = int(rng.integers(2, 5))
        q = int(rng.integers(0, p))
        r = G.roots(rng, p, 1.0)[0]
        ma = np.zeros(p)
        ma[0] = 1.0
        vd, vc = A.vd, A.vc
        kind = int(rng.integers(0, 3))
        k = int(rng.integers(1, n))
        longer = [np.append(x, np.linspace(x.max() + 1, x.max() + 2, int(rng.integers(1, 4)))) for x in (t, y, e)]
        shorter = [x[:k] for x in (t, y, e)]
        calls = {}
        for j, name in enumerate("tye"):
            for tag, alt in (("longer", longer), ("shorter", shorter)):
                d = [alt[m] if m == j else x for m, x in enumerate((t, y, e))]
                what = "%s %s" % (name, tag)
                calls["filter1 " + what] = lambda d=d: A.run_filter(A.kf1(*d, 1.0, 0.5))
                calls["filterp " + what] = lambda d=d: A.run_filter(A.kfp(*d, 1.0, r, ma))
                calls["CAR1 " + what] = lambda d=d: A.model("CAR1", *d).getLogDensity(vd([1, 1, 0, -1]))
                calls["CARp " + what] = lambda d=d: A.model("CARp", *d, p).getLogDensity(vd([1, 1, 0] + [-0.5] * p))
                calls["CARMA " + what] = lambda d=d: A.model("CARMA", *d, p, q).getLogDensity(vd([1, 1, 0] + [-0.5] * (p + q)))
                calls["run_car1 " + what] = lambda d=d: A.samples(L.run_mcmc_car1(3, 3, *map(vd, d), 1, L.vecD()))
                calls["run_carma " + what] = lambda d=d: A.samples(L.run_mcmc_carma(3, 3, *map(vd, d), p, q, 2, False, 1, L.vecD()))
        V = [vd(t), vd(y), vd(e)]
        for name, ns, nb, thin in (("negative size", -3, 3, 1), ("negative burn-in", 3, -3, 1), ("no thinning interval", 3, 3, 0), ("negative thinning", 3, 3, -2)):
            calls["run_car1 " + name] = lambda a=(ns, nb, thin): A.samples(L.run_mcmc_car1(a[0], a[1], *V, a[2], L.vecD()))
            calls["run_carma " + name] = lambda a=(ns, nb, thin): A.samples(L.run_mcmc_carma(a[0], a[1], *V, p, q, 2, False, a[2], L.vecD()))
            calls["run_zcar " + name] = lambda a=(ns, nb, thin): A.samples(L.run_mcmc_carma(a[0], a[1], *V, p, 0, 2, True, a[2], L.vecD()))
        for name, pp, qq, w in (("no walkers", p, q, 0), ("negative walkers", p, q, -2), ("order zero", 0, 0, 2), ("negative order", -2, 0, 2), ("q = p", p, p, 2),
                                ("q > p", p, p + 3, 2), ("negative q", p, -1, 2), ("very negative q", p, -9, 2)):
            calls["run_carma " + name] = lambda a=(pp, qq, w): A.samples(L.run_mcmc_carma(3, 3, *V, a[0], a[1], a[2], False, 1, L.vecD()))
        for j, name in enumerate("tye"):
            for bad in (np.nan, np.inf, -np.inf):
                d = [x.copy() for x in (t, y, e)]
                d[j][int(rng.integers(0, n))] = bad
                what = "%s %r" % (name, bad)
                calls["run_car1 " + what] = lambda d=d: (lambda m: (A.samples(m), A.loglikes(m)))(L.run_mcmc_car1(3, 3, *map(vd, d), 1, L.vecD()))
                calls["run_carma " + what] = lambda d=d: (lambda m: (A.samples(m), A.loglikes(m)))(L.run_mcmc_carma(3, 3, *map(vd, d), p, q, 2, False, 1, L.vecD()))
        for kind, d, mk in (("CAR1", 4, lambda: A.model("CAR1", t, y, e)), ("CARp", 3 + p, lambda: A.model("CARp", t, y, e, p)),
                            ("CARMA", 3 + p + q, lambda: A.model("CARMA", t, y, e, p, q))):
            for m in (0, 1, 2, 3, d - 1, d + 1, d + 2, d + 7):
                calls["%s density theta %+d" % (kind, m - d)] = lambda mk=mk, m=m: mk().getLogDensity(vd([1.0, 1.0, 0.0, *([-0.5] * 30)][:m]))
        for kind, mk in (("empty filter1", lambda: A.kf1([], [], [], 1.0, 0.5)), ("empty filterp", lambda: A.kfp([], [], [], 1.0, r, ma)),
                         ("empty CAR1", lambda: A.model("CAR1", [], [], [])), ("empty CARp", lambda: A.model("CARp", [], [], [], p)),
                         ("CARp order 0", lambda: A.model("CARp", t, y, e, 0)), ("CARp order -3", lambda: A.model("CARp", t, y, e, -3)),
                         ("filterp without roots", lambda: A.kfp(t, y, e, 1.0, [], [1.0])), ("filterp ma longer", lambda: A.kfp(t, y, e, 1.0, r, [1.0] * (p + 2))),
                         ("CARMA q = p", lambda: A.model("CARMA", t, y, e, p, p).getLogDensity(vd([1, 1, 0] + [-0.5] * (2 * p))))):
            def go(mk=mk):
                o = mk()
                return A.run_filter(o) if hasattr(o, "Filter") else o
            calls[kind] = go
        names = sorted(calls)
        if not ctx.thorough:
            names = [names[j] for j in rng.permutation(len(names))[:60]]
        for name in names:
            ctx.note("case %d %s" % (i, name))
            try:
                v = calls[name]()
            except Exception as ex:
                ctx.ev()
                ctx.distinct("refused", name, type(ex).__name__)
                continue
            ctx.check(not finite(v), "accepted", "%s: answered %s" % (name, hist.outcome(v)[:120]), call=name, t=t, y=y, e=e, p=p, q=q)
            ctx.distinct("refused", name, "non-finite")
    ctx.each(16, 60, case)


UNITS = [dict(name="memcheck", fn=unit_memcheck, shards=8, tshards=8, weight=9),
         dict(name="ext", fn=unit_ext, variant="asan", shards=4, tshards=8, weight=6),
         dict(name="cxx", fn=unit_cxx, variant="asan", shards=2, tshards=8, weight=5),
         dict(name="python", fn=unit_python, variant="asan", shards=2, tshards=8, weight=5),
         dict(name="filled", fn=unit_filled, shards=4, tshards=8, weight=4),
         dict(name="growth", fn=unit_growth, shards=4, tshards=8, weight=4),
         dict(name="refused", fn=unit_refused, variant="asan", shards=2, tshards=4, weight=3)]
