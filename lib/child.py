"""Runs one shard of one unit of a check in its own process.

    child.py JOB.json      JOB: check, unit, shard, nshards, seed, tier, out, progress, only (case number or null)"""
import faulthandler
import hashlib
import importlib
import json
import os
import resource
import sys
import traceback
import warnings

import numpy as np


def stream(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "little")


class HarnessError(Exception):
    pass


class Raised(Exception):
    """the code under test raised on valid input; already recorded"""


class StopUnit(Exception):
    pass


class Ctx:
    def __init__(self, job):
        self.job = job
        self.tier, self.seed, self.shard, self.nshards = job["tier"], job["seed"], job["shard"], job["nshards"]
        self.thorough = self.tier == "thorough"
        self.evals = 0
        self.keys = set()
        self.samples = []
        self.violations = []
        self.notes = {}
        self.maxes = {}
        self.skipped = []
        self.case = None
        self.caseno = None
        self._pf = open(job["progress"], "w")

    # ---- measured coverage
    def ev(self, n=1):
        self.evals += n

    def distinct(self, *key):
        self.keys.add("|".join(str(k) for k in key))

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def count(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    def maximum(self, name, x):
        x = float(x)
        if x == x:
            self.maxes[name] = max(self.maxes.get(name, -np.inf), x)

    def skip(self, why):
        self.skipped.append(why)

    # ---- verdicts
    def violation(self, key, msg, **data):
        self.violations.append(dict(key=key, msg=msg, data=plain(data), unit=self.job["unit"], shard=self.shard, case=self.caseno))
        if len(self.violations) >= 25:
            raise StopUnit()

    def check(self, ok, key, msg, **data):
        self.ev()
        if not ok:
            self.violation(key, msg, **data)
        return bool(ok)

    def close(self, got, want, tol, key, msg, **data):
        """|got-want| <= tol elementwise (tol absolute, scalar or array); NaN is never close"""
        got, want = np.asarray(got, dtype=np.float64), np.asarray(want, dtype=np.float64)
        self.ev()
        if got.shape != want.shape:
            self.violation(key + ":shape", "%s: shape %s, expected %s" % (msg, got.shape, want.shape), **data)
            return False
        with np.errstate(invalid="ignore"):
            d = np.abs(got - want)
            bad = ~((d <= tol) | (got == want))
        tolb = np.broadcast_to(np.asarray(tol, dtype=float), got.shape)
        if got.size:
            r = np.where(tolb > 0, d / np.where(tolb > 0, tolb, 1), 0)
            if np.isfinite(r).any():
                self.maximum("err/tol " + key, np.nanmax(np.where(np.isfinite(r), r, 0)))
        if bad.any():
            i = np.unravel_index(int(np.argmax(bad)), got.shape) if got.shape else ()
            self.violation(key, "%s: got %r, expected %r (tolerance %.3g) at %s" % (msg, float(got[i]), float(want[i]), float(tolb[i]), list(map(int, i))),
                           **data)
            return False
        return True

    def call(self, what, fn, *a, **k):
        """Valid use: an exception of the code under test is a violation."""
        try:
            return fn(*a, **k)
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as ex:
            self.violation("raised:" + what, "%s raised %s: %s" % (what, type(ex).__name__, ex), trace=traceback.format_exc()[-1500:])
            raise Raised(what)

    # ---- case loop
    def cases(self, quick, thorough=None):
        """Yields rng objects, one per case of this shard; quick/thorough are totals over all shards."""
        n = quick if not self.thorough else (thorough if thorough is not None else quick * 6)
        from lib import vx
        for i in range(n):
            if i % self.nshards != self.shard:
                continue
            if self.job.get("only") is not None and i != self.job["only"]:
                continue
            self.caseno = i
            s = stream(self.seed, self.job["check"], self.job["unit"], i)
            self.note("case %d" % i)
            vx.seed(s)
            np.random.seed(s % (2 ** 32))
            self.rng = np.random.default_rng(s)
            yield i, self.rng
        self.caseno = None

    def each(self, quick, thorough, fn):
        """Runs fn(i, rng) for every case; Raised ends only that case."""
        for i, rng in self.cases(quick, thorough):
            try:
                fn(i, rng)
            except Raised:
                pass

    def substream(self, tag):
        """fresh independent randomness for the confirmation of a statistical alarm"""
        from lib import vx
        s = stream(self.seed, self.job["check"], self.job["unit"], self.caseno, tag)
        vx.seed(s)
        np.random.seed(s % (2 ** 32))
        return np.random.default_rng(s)

    def note(self, txt):
        self._pf.seek(0)
        self._pf.write(txt.ljust(200) + "\n")
        self._pf.flush()

    def result(self):
        return dict(evals=self.evals, keys=sorted(self.keys), samples=plain(self.samples), violations=self.violations, notes=self.notes,
                    maxes=self.maxes, skipped=self.skipped)


def plain(x, depth=0):
    if isinstance(x, dict):
        return {str(k): plain(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [plain(v, depth + 1) for v in list(x)[:2000]]
    if isinstance(x, np.ndarray):
        if np.iscomplexobj(x):
            return [plain(x.real), plain(x.imag)]
        return plain(np.asarray(x, dtype=float if x.dtype.kind == "f" else x.dtype).tolist())
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)[:300]


def main():
    job = json.load(open(sys.argv[1]))
    faulthandler.enable(all_threads=False)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if job["variant"] != "asan":
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.chdir(job["scratch"])
    warnings.simplefilter("ignore")
    from lib import stubs
    stubs.install()
    ctx = Ctx(job)
    mod = importlib.import_module("checks." + job["check"].lower())
    unit = [u for u in mod.UNITS if u["name"] == job["unit"]][0]
    from lib import vx
    res = None
    try:
        with np.errstate(all="ignore"):
            unit["fn"](ctx)
        res = ctx.result()
    except StopUnit:
        res = ctx.result()
    except Raised:
        res = ctx.result()
    except vx.Unavailable as ex:
        ctx.skip("entry points %s do not fit the code" % ex)
        res = ctx.result()
    except Exception:
        res = ctx.result()
        res["harness_error"] = traceback.format_exc()[-4000:]
    tmp = job["out"] + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.rename(tmp, job["out"])
    sys.stderr.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
