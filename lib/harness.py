"""Runs one check: builds from the working tree, runs its units in child processes, judges, writes evidence.

    harness.py ID [quick|thorough]          exit 0 held, 1 broken (VIOLATION line), 2 the check itself failed
    harness.py ID --replay FILE             re-runs the case recorded in a replay file"""
import concurrent.futures as cf
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from lib import build as B   # noqa: E402

WORKERS = int(os.environ.get("VERIF_JOBS", "8"))
LIMIT = {"quick": 300, "thorough": 420}
RERUN = {"quick": 150, "thorough": 200}
SPECIAL = ("hang", "crash", "sanitizer")


def say(*a):
    print(*a, flush=True)


def run_child(job, scratch, pkg, env, limit):
    jid = "%s-%d%s" % (job["unit"], job["shard"], "" if job.get("only") is None else "-only%d" % job["only"])
    d = tempfile.mkdtemp(prefix=jid + "-", dir=scratch)
    job = dict(job, out=os.path.join(d, "out.json"), progress=os.path.join(d, "progress"), scratch=d)
    jf = os.path.join(d, "job.json")
    json.dump(job, open(jf, "w"))
    err = open(os.path.join(d, "stderr"), "wb")
    t0 = time.time()
    p = subprocess.Popen([B.PY, os.path.join(HERE, "child.py"), jf], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err,
                         cwd=d, start_new_session=True)
    timeout = False
    try:
        p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        timeout = True
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    err.close()
    stderr = open(os.path.join(d, "stderr"), "rb").read()
    note = ""
    try:
        note = open(job["progress"]).read().strip()
    except OSError:
        pass
    res = None
    if os.path.exists(job["out"]):
        res = json.load(open(job["out"]))
    shutil.rmtree(d, ignore_errors=True)
    return dict(job=job, rc=p.returncode, timeout=timeout, res=res, note=note, stderr=stderr, wall=time.time() - t0)


def asan_report(stderr):
    """the sanitizer's own summary, if there is one"""
    txt = stderr.decode("utf8", "replace")
    for l in txt.splitlines():
        if l.startswith("SUMMARY: ") or "runtime error:" in l or "ERROR: AddressSanitizer" in l:
            return l.strip()
    if "Assertion" in txt and "failed" in txt:
        return [l for l in txt.splitlines() if "Assertion" in l][0]
    return None


def main():
    t0 = time.time()
    check = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER") or "quick"
    replay = None
    if args and args[0] in ("quick", "thorough"):
        tier = os.environ.get("VERIF_TIER") or args[0]
    if "--replay" in args:
        replay = json.load(open(args[args.index("--replay") + 1]))
        tier = replay["tier"]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if replay:
        seed = replay["seed"]
    mod = importlib.import_module("checks." + check.lower())
    units = mod.UNITS
    try:
        pk = {}
        variants = sorted({u.get("variant", "opt") for u in units})
        with cf.ThreadPoolExecutor(2) as ex:
            for v, d in zip(variants, ex.map(B.build, variants)):
                pk[v] = d
    except B.BuildError as e:
        say("build of the code under test failed:\n%s" % e)
        return 2
    scratch_root = os.path.join(B.ROOT, "scratch")
    os.makedirs(scratch_root, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=check + "-", dir=scratch_root)
    try:
        return judge(check, tier, seed, mod, units, pk, scratch, replay, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def judge(check, tier, seed, mod, units, pk, scratch, replay, t0):
    envs = {v: B.child_env(v, d) for v, d in pk.items()}
    for v in envs:
        envs[v]["TMPDIR"] = scratch
    jobs = []
    for u in units:
        v = u.get("variant", "opt")
        if u.get("tiers") and tier not in u["tiers"]:
            continue
        if os.environ.get("VERIF_UNIT") and u["name"] not in os.environ["VERIF_UNIT"].split(","):
            continue
        ns = u.get("shards", 1) if tier == "quick" else u.get("tshards", u.get("shards", 1))
        for s in range(ns):
            jobs.append(dict(check=check, unit=u["name"], shard=s, nshards=ns, seed=seed, tier=tier, variant=v, only=None,
                             weight=u.get("weight", 1)))
    if replay:
        jobs = [dict(j, only=replay["case"]) for j in jobs if j["unit"] == replay["unit"] and j["shard"] == replay["shard"]]
    jobs.sort(key=lambda j: -j["weight"])
    results, viol, errors = [], [], []
    stop = [False]

    def one(job):
        if stop[0]:
            return None
        r = run_child(job, scratch, pk[job["variant"]], envs[job["variant"]], LIMIT[tier])
        extra = []
        if r["timeout"]:
            # inconclusive: run the case it was in again, alone
            only = None
            if r["note"].startswith("case "):
                only = int(r["note"].split()[1])
            if only is not None:
                r2 = run_child(dict(job, only=only), scratch, pk[job["variant"]], envs[job["variant"]], RERUN[tier])
                if r2["timeout"]:
                    extra.append(dict(key="hang", msg="case %d of unit %s does not end (ran alone for %d s)" % (only, job["unit"], RERUN[tier]),
                                      data={}, unit=job["unit"], shard=job["shard"], case=only))
                    stop[0] = True
                else:
                    r = r2
                    r["slow"] = True
        return job, r, extra

    with cf.ThreadPoolExecutor(WORKERS) as ex:
        futs = [ex.submit(one, j) for j in jobs]
        for f in cf.as_completed(futs):
            out = f.result()
            if out is None:
                continue
            job, r, extra = out
            results.append((job, r))
            viol += extra
            res = r["res"]
            only = int(r["note"].split()[1]) if r["note"].startswith("case ") else None
            base = dict(unit=job["unit"], shard=job["shard"], case=only)
            if res is not None and not (job["variant"] == "asan" and asan_report(r["stderr"])):
                viol += res["violations"]
                if res.get("harness_error"):
                    errors.append("unit %s shard %d (%s): %s" % (job["unit"], job["shard"], r["note"], res["harness_error"]))
            elif extra:
                pass
            else:
                rep = asan_report(r["stderr"])
                tail = r["stderr"].decode("utf8", "replace")[-6000:]
                if rep:
                    viol.append(dict(base, key="sanitizer", msg="%s [%s]" % (rep, r["note"]), data={"stderr": tail}))
                elif r["rc"] in (-11, -6, -8, -4, -7) or r["rc"] == 99 or r["rc"] > 128:
                    viol.append(dict(base, key="crash", msg="process ended with code %s [%s]" % (r["rc"], r["note"]), data={"stderr": tail}))
                elif r["timeout"]:
                    errors.append("unit %s shard %d took longer than its limit [%s]" % (job["unit"], job["shard"], r["note"]))
                else:
                    errors.append("unit %s shard %d ended with code %s [%s]\n%s" % (job["unit"], job["shard"], r["rc"], r["note"], tail))
            if any(not is_known(check, v) for v in viol):
                stop[0] = True
    known, new = [], []
    for v in viol:
        k = is_known(check, v)
        (known if k else new).append((v, k))
    evals = sum(r["res"]["evals"] for _, r in results if r["res"])
    keys, samples, notes, maxes, skipped = set(), [], {}, {}, set()
    for job, r in results:
        if not r["res"]:
            continue
        keys |= {job["unit"] + ":" + k for k in r["res"]["keys"]}
        samples += [{"unit": job["unit"], **(s if isinstance(s, dict) else {"v": s})} for s in r["res"]["samples"]]
        for k, n in r["res"]["notes"].items():
            notes[k] = notes.get(k, 0) + n
        for k, x in r["res"]["maxes"].items():
            maxes[k] = max(maxes.get(k, -1e300), x)
        skipped |= {job["unit"] + ": " + s for s in r["res"]["skipped"]}
    seen, show = set(), []
    for s in samples:
        if s["unit"] not in seen:
            show.append(s)
            seen.add(s["unit"])
    show += [s for s in samples if s not in show][:max(0, 8 - len(show))]
    ev = dict(property=check, tier=tier, seed=seed, level=mod.LEVEL,
              coverage=dict(evaluations=evals, distinct_nontrivial=len(keys), rule=mod.RULE, samples=show[:12], observed=notes,
                            largest_error_over_tolerance={k: float("%.4g" % x) for k, x in sorted(maxes.items())},
                            units=sorted({j["unit"] for j, _ in results}), skipped_units=sorted(skipped)),
              assumptions=mod.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(new))
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", check + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for w in sorted({k["what"] for v, k in known}):
        say("KNOWN-FINDING: property=%s %s" % (check, w))
    if new:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for i, (v, _) in enumerate(new[:5]):
            path = os.path.join(VERIF, "replays", "%s-%s-%d-%d.json" % (check, tier, seed, i))
            with open(path, "w") as f:
                json.dump(dict(v, check=check, tier=tier, seed=seed), f, indent=1)
            say("%s: [%s #%s] %s: %s" % (check, v["unit"], v["case"], v["key"], v["msg"]))
            say("VIOLATION property=%s replay=%s" % (check, path))
        if errors:
            say("also:", errors[0])
        return 1
    if errors:
        for e in errors[:2]:
            say("ERROR:", e)
        return 2
    if not evals or not keys:
        say("ERROR: nothing was observed")
        return 2
    for s in sorted(skipped):
        say("skipped", s)
    say("%s %s seed=%d: held; %d evaluations, %d distinct cases, %.1f s" % (check, tier, seed, evals, len(keys), time.time() - t0))
    return 0


_known = None


def is_known(check, v):
    global _known
    if _known is None:
        try:
            _known = json.load(open(os.path.join(VERIF, "known_findings.json")))
        except FileNotFoundError:
            _known = {"findings": []}
    for k in _known["findings"]:
        if k["property"] == check and k["unit"] == v["unit"] and k["key"] == v["key"] and k.get("contains", "") in v["msg"]:
            return k
    return None


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
