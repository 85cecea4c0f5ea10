"""Runs histories (lib/hist.py) in a process of their own, for monitors that watch the whole process.

    histrun.py JOB.json   JOB: pkg, mode (outcomes|growth), which (ext|cxx), seeds [..], steps, out"""
import gc
import importlib.util
import json
import os
import sys
import types

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


def load(pkg):
    """the extension module without the rest of the package"""
    d = os.path.join(pkg, "carmcmc")
    so = [f for f in os.listdir(d) if f.startswith("_carmcmc.")][0]
    spec = importlib.util.spec_from_file_location("carmcmc._carmcmc", os.path.join(d, so))
    L = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(L)
    m = types.ModuleType("carmcmc")
    m.__path__ = [d]
    m._carmcmc = L
    sys.modules["carmcmc"], sys.modules["carmcmc._carmcmc"] = m, L
    return L


def main():
    job = json.load(open(sys.argv[1]))
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    L = load(job["pkg"])
    import numpy as np
    np.seterr(all="ignore")
    from lib import hist, vx
    seeder = vx.seed if job["which"] == "cxx" else lambda s: (vx.seed(s) or getattr(L, "SetSeed", lambda s: None)(s))
    prog = open(job["out"] + ".at", "w")

    def before(h, s):
        prog.seek(0)
        prog.write("seed %d step %d     \n" % (cur[0], s))
        prog.flush()
    cur = [0]

    def one(seed):
        cur[0] = seed
        rng = np.random.default_rng(seed)
        if job["which"] == "cxx":
            return hist.cxx_history(vx, rng, job["steps"], seeder, before)
        return hist.ext_history(L, rng, job["steps"], seeder, before)
    res = {}
    if job["mode"] == "outcomes":
        for s in job["seeds"]:
            res[str(s)] = one(s)
    else:
        import ctypes
        live = ctypes.CDLL(None).heap_live        # aux/count.c, preloaded
        live.restype = ctypes.c_long

        def used():
            gc.collect()
            return live()
        for s in job["seeds"]:
            marks = []
            log = None
            for k in range(job["rounds"]):
                for _ in range(job["reps"]):
                    log = one(s)
                log = [list(a) for a in log]
                names = [a[0] for a in log]
                log = None
                marks.append(used())
            res[str(s)] = dict(marks=marks, calls=names)
    json.dump(res, open(job["out"], "w"))


main()
