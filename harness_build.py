"""Builds a concrete harness against /repo's current sources and runs it in shards."""
import os, subprocess, sys, time, json, glob, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
FLAGS = "-O1 -g1 -DNDEBUG -D_GLIBCXX_ASSERTIONS -std=gnu++17 -w -fsanitize=address,undefined -fno-sanitize-recover=undefined".split()
INC = ["-I%s/%s/include" % (REPO, p) for p in ("rct_optimizations", "rct_common", "rct_image_tools")] + ["-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/opencv4", "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "props", "compat")]
LIBS = ["-lceres", "-lglog", "-lyaml-cpp", "-ldl"]
CVLIBS = ["-lopencv_core", "-lopencv_imgproc", "-lopencv_features2d", "-lopencv_calib3d", "-lopencv_aruco", "-lopencv_objdetect", "-lopencv_highgui", "-lopencv_imgcodecs", "-lboost_filesystem", "-lboost_system"]
SKIP = ("dh_chain_kinematic_calibration.cpp",)


def path(s):
    k, r = s.split(":", 1)
    return {"opt": REPO + "/rct_optimizations/src/rct_optimizations/", "img": REPO + "/rct_image_tools/src/rct_image_tools/"}[k] + r


def compile_one(src, obj, extra=()):
    r = subprocess.run(["g++"] + FLAGS + list(extra) + INC + ["-c", src, "-o", obj], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=600)
    return r.returncode == 0, r.stderr.decode(errors="replace")


def build(main, sources, work, cv=False, extra=()):
    """(exe, error)"""
    os.makedirs(work, exist_ok=True)
    objs = []

    def todo(srcs):
        jobs = []
        for s in srcs:
            o = os.path.join(work, s.replace("/", "_").replace(":", "_") + ".o")
            objs.append(o)
            jobs.append((path(s) if ":" in s else s, o))
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda j: compile_one(j[0], j[1], extra), jobs))

    mo = os.path.join(VERIF, "harness", main)
    rs = todo([mo] + list(sources))
    for ok, err in rs:
        if not ok:
            return None, err
    exe = os.path.join(work, "run")
    libs = LIBS + (CVLIBS if cv else [])

    def link():
        r = subprocess.run(["g++", "-fsanitize=address,undefined"] + objs + libs + ["-o", exe], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
        return r.returncode == 0, r.stderr.decode(errors="replace")

    ok, err = link()
    if not ok and "undefined reference" in err:
        # the code may have moved to other files of the library: link all of it
        more = []
        base = REPO + "/rct_optimizations/src/rct_optimizations/"
        for f in sorted(glob.glob(base + "**/*.cpp", recursive=True)):
            s = "opt:" + f[len(base):]
            if s not in sources and not f.endswith(SKIP):
                more.append(s)
        if cv:
            base = REPO + "/rct_image_tools/src/rct_image_tools/"
            for f in sorted(glob.glob(base + "**/*.cpp", recursive=True)):
                s = "img:" + f[len(base):]
                if s not in sources:
                    more.append(s)
        rs = todo(more)
        for o, e in rs:
            if not o:
                return None, e
        ok, err = link()
    return (exe, None) if ok else (None, err)


def env():
    e = dict(os.environ)
    e.update(GLOG_minloglevel="3", GLOG_logtostderr="1", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0:exitcode=77", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", LC_ALL="C")
    return e


def run_shard(exe, args, work, tag, timeout):
    out = os.path.join(work, "out-" + tag)
    prog = os.path.join(work, "prog-" + tag)
    scratch = os.path.join(work, "scratch-" + tag)
    os.makedirs(scratch, exist_ok=True)
    try:
        r = subprocess.run([exe] + args + ["--out", out, "--progress", prog], cwd=scratch, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, env=env())
        rc, err = r.returncode, r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        rc, err = "timeout", ""
    fails, summ = [], None
    if os.path.exists(out):
        for line in open(out, errors="replace"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if "fail" in d:
                fails.append(d)
            else:
                summ = d
    where = open(prog).read().split() if os.path.exists(prog) else []
    return dict(rc=rc, err=err, fails=fails, summary=summ, where=where)


def run(exe, work, seed, tier, shards=8, timeout=300, only=None):
    """{'evaluations', 'distinct_nontrivial', 'failures': [...], 'samples', 'incomplete': [...]}"""
    base = ["--seed", str(seed), "--tier", tier]
    if only:
        rs = [run_shard(exe, base + ["--only", only[0], str(only[1])], work, "only", timeout)]
    else:
        with ThreadPoolExecutor(shards) as ex:
            rs = list(ex.map(lambda i: run_shard(exe, base + ["--shard", str(i), str(shards)], work, str(i), timeout), range(shards)))
    res = dict(evaluations=0, distinct_nontrivial=0, failures=[], samples=[], incomplete=[])
    for i, r in enumerate(rs):
        res["failures"] += r["fails"]
        if r["summary"]:
            res["evaluations"] += r["summary"]["evaluations"]
            res["distinct_nontrivial"] += r["summary"]["distinct_nontrivial"]
            if len(res["samples"]) < 4:
                res["samples"] += r["summary"]["samples"][:1]
        elif r["rc"] == "timeout":
            # a time limit is an answer only if a single case hangs on its own
            w = r["where"]
            hang = False
            if len(w) >= 2:
                again = run_shard(exe, base + ["--only", w[0], w[1]], work, "re%d" % i, max(60, timeout / 4))
                hang = again["rc"] == "timeout"
            if hang:
                res["failures"].append({"fail": "hang:" + w[0], "stage": w[0], "case": int(w[1]), "what": "the call does not return", "input": "case %s of stage %s" % (w[1], w[0])})
            else:
                res["incomplete"].append("shard %d reached its time limit" % i)
        else:
            # the process died: does the same case die again?
            w = r["where"]
            msg = [l for l in r["err"].splitlines() if "ERROR" in l or "runtime error" in l or "Assert" in l or "terminate" in l]
            if len(w) >= 2:
                again = run_shard(exe, base + ["--only", w[0], w[1]], work, "re%d" % i, timeout)
                if again["summary"] is None and again["rc"] != "timeout":
                    m2 = [l for l in again["err"].splitlines() if "ERROR" in l or "runtime error" in l or "Assert" in l or "terminate" in l]
                    res["failures"].append({"fail": "crash:" + w[0], "stage": w[0], "case": int(w[1]), "what": "the process dies (exit %s): %s" % (again["rc"], (m2 or msg or ["no message"])[0][:400]), "input": "case %s of stage %s" % (w[1], w[0])})
                    continue
            res["incomplete"].append("shard %d ended with %s: %s" % (i, r["rc"], (msg or [r["err"][-300:]])[0]))
    return res
