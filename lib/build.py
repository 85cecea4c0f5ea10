"""Rebuilds the extension module and the Python package from /repo/src's working tree.

    pkgdir = build("opt")     # flags of the real build
    pkgdir = build("asan")    # address + undefined sanitizers, libstdc++ assertions

The result lives in /verif/.build/<content hash>-<variant> and is reused only for identical sources."""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/vp/venv/bin/python"
ROOT = os.path.join(VERIF, ".build")
NUMPY_INC = "/opt/vp/venv/lib/python3.12/site-packages/numpy/core/include"
PY_INC = "/usr/include/python3.12"

BASE = ["-fPIC", "-w", "-fpermissive", "-DNDEBUG", "-fwrapv"]
VARIANTS = {
    "opt": {"cxx": ["-O3", "-g0"], "wrap": ["-O1", "-g0"], "ld": []},
    "asan": {"cxx": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                     "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
             "wrap": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                      "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
             "ld": ["-fsanitize=address,undefined"]},
}
# vptr clears the table pointer of destroyed objects, which Boost.Python's own holders read
# -fwrapv is what the interpreter's own CFLAGS give the real build; it would hide signed overflow from UBSan
for _k in ("asan",):
    VARIANTS[_k]["drop"] = ["-fwrapv"]
SO = "_carmcmc.cpython-312-x86_64-linux-gnu.so"
LIBS = ["-lboost_python312", "-lboost_filesystem", "-lboost_system", "-lboost_timer", "-larmadillo"]


class BuildError(Exception):
    pass


def sources():
    src = os.path.join(REPO, "src")
    files = sorted(glob.glob(src + "/*.cpp") + glob.glob(src + "/include/*") + glob.glob(src + "/carmcmc/*.py")
                   + glob.glob(src + "/*.hpp") + glob.glob(src + "/*.h"))
    aux = sorted(glob.glob(os.path.join(VERIF, "aux", "*")))
    return files, aux


def digest(variant):
    h = hashlib.sha256()
    files, aux = sources()
    for f in files + aux + [os.path.abspath(__file__)]:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    h.update(variant.encode())
    return h.hexdigest()[:20]


def _compile(job):
    cmd, tag, optional = job
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return tag, r.returncode, r.stdout, optional


def build(variant="opt", quiet=True):
    v = VARIANTS[variant]
    os.makedirs(ROOT, exist_ok=True)
    out = os.path.join(ROOT, digest(variant) + "-" + variant)
    lock = open(os.path.join(ROOT, "lock-" + variant), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(out, "OK")):
            return out
        tmp = out + ".tmp%d" % os.getpid()
        os.makedirs(os.path.join(tmp, "carmcmc"))
        src = os.path.join(REPO, "src")
        base = [f for f in BASE if f not in v.get("drop", [])]
        cxx = ["g++"]
        env_cc = shutil.which("ccache")
        if env_cc:
            os.environ["CCACHE_DIR"] = os.path.join(ROOT, "ccache")
            os.environ["CCACHE_NOHASHDIR"] = "1"
            os.environ["CCACHE_MAXSIZE"] = "2G"
            cxx = [env_cc, "g++"]
        inc = ["-I" + src + "/include", "-I" + src, "-I" + NUMPY_INC, "-I" + PY_INC, "-I" + os.path.join(VERIF, "aux")]
        jobs, objs = [], []
        files, aux = sources()
        cpps = [f for f in files if f.endswith(".cpp")]
        cpps.sort(key=lambda f: "wrapper" not in f)           # longest first
        for f in cpps:
            o = os.path.join(tmp, os.path.basename(f)[:-4] + ".o")
            flags = v["wrap"] if "wrapper" in os.path.basename(f) else v["cxx"]
            jobs.append((cxx + base + flags + inc + ["-c", f, "-o", o], o, False))
        # traced copy of the sampler assembly, entry points renamed
        tr = os.path.join(tmp, "traced_carmcmc.o")
        jobs.append((cxx + base + v["cxx"] + inc + ["-include", os.path.join(VERIF, "aux", "trace_pre.hpp"), "-c",
                                                    os.path.join(src, "carmcmc.cpp"), "-o", tr], tr, True))
        for f in aux:
            if f.endswith(".cpp"):
                o = os.path.join(tmp, "aux_" + os.path.basename(f)[:-4] + ".o")
                jobs.append((cxx + base + v["cxx"] + inc + ["-c", f, "-o", o], o, True))
        failed = []
        with ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
            for tag, rc, txt, optional in ex.map(_compile, jobs):
                if rc == 0:
                    objs.append(tag)
                elif optional:
                    failed.append((os.path.basename(tag), txt[-2000:]))
                else:
                    shutil.rmtree(tmp, ignore_errors=True)
                    raise BuildError("compile failed: %s\n%s" % (tag, txt[-4000:]))
        ext = [o for o in objs if not os.path.basename(o).startswith(("aux_", "traced_"))]
        ext.sort(key=lambda o: ("wrapper" in o, o))           # wrapper's -O1 inline copies last
        pkg = os.path.join(tmp, "carmcmc")
        so = os.path.join(pkg, SO)
        r = subprocess.run(["g++", "-shared"] + v["ld"] + ["-Wl,-soname," + SO] + ext + ["-o", so] + LIBS,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            shutil.rmtree(tmp, ignore_errors=True)
            raise BuildError("link failed\n" + r.stdout[-4000:])
        # one small library per group of entry points, so that one which no longer fits the code leaves the others usable
        for f in aux:
            name = os.path.basename(f)[:-4]
            o = os.path.join(tmp, "aux_" + name + ".o")
            if not f.endswith(".cpp") or o not in objs:
                continue
            parts = [o]
            if name == "trace":
                if tr not in objs:
                    continue
                parts = [tr, o]
            lib = os.path.join(pkg, "vx_%s.so" % name)
            r = subprocess.run(["g++", "-shared", "-Wl,-z,defs", "-Wl,-Bsymbolic"] + v["ld"] + parts + [so, "-Wl,-rpath,$ORIGIN", "-o", lib]
                               + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                failed.append((os.path.basename(lib), r.stdout[-2000:]))
                if os.path.exists(lib):
                    os.unlink(lib)
        r = subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-fno-builtin", os.path.join(VERIF, "aux", "count.c"), "-o", os.path.join(tmp, "count.so")],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            shutil.rmtree(tmp, ignore_errors=True)
            raise BuildError("heap counter failed\n" + r.stdout[-2000:])
        for f in glob.glob(src + "/carmcmc/*.py"):
            shutil.copy(f, os.path.join(tmp, "carmcmc"))
        for o in objs:
            os.unlink(o)
        with open(os.path.join(tmp, "OK"), "w") as f:
            json.dump({"failed_aux": failed}, f)
        if os.path.exists(out):
            shutil.rmtree(out)
        os.rename(tmp, out)
        return out
    finally:
        lock.close()


def failed_aux(pkgdir):
    return json.load(open(os.path.join(pkgdir, "OK")))["failed_aux"]


def child_env(variant, pkgdir):
    env = dict(os.environ)
    for k in ("PYTHONHOME", "PYTHONSTARTUP"):
        env.pop(k, None)
    env["PYTHONPATH"] = pkgdir + ":" + VERIF
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["MPLBACKEND"] = "Agg"
    env["MPLCONFIGDIR"] = os.path.join(ROOT, "mpl")
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        env[k] = "1"
    env["PYTHONHASHSEED"] = "0"
    if variant == "asan":
        libs = [subprocess.run(["gcc", "-print-file-name=" + n], stdout=subprocess.PIPE, text=True).stdout.strip()
                for n in ("libasan.so", "libubsan.so", "libstdc++.so")]
        env["LD_PRELOAD"] = " ".join(libs)
        env["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=1:"
                               "check_initialization_order=1:strict_string_checks=1:allocator_may_return_null=1:"
                               "malloc_context_size=12:max_malloc_fill_size=4096:malloc_fill_byte=203")
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    return env


if __name__ == "__main__":
    for var in sys.argv[1:] or ["opt", "asan"]:
        d = build(var)
        print(var, d, failed_aux(d))
