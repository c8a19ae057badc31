#!/opt/veriftools/pyvenv/bin/python
"""check.py PROP [--tier quick|thorough]   decide one property of /repo's current tree
check.py --replay FILE                      run the recorded failing input again"""
import sys, os, json, time, tempfile, shutil, threading, importlib, traceback, subprocess

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.path.insert(0, os.path.join(VERIF, "props"))
import harness_build as hb


def known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == prop and k.get("status") == "open"]


def matches(k, key):
    return key == k["key"] or (k["key"].endswith("*") and key.startswith(k["key"][:-1]))


def run_harness(mod, tier, seed, work, out):
    try:
        h = getattr(mod, "HARNESS", None)
        if not h:
            return
        t0 = time.time()
        exe, err = hb.build(h, mod.SOURCES, os.path.join(work, "h"), cv=getattr(mod, "OPENCV", False))
        out["build_s"] = time.time() - t0
        if exe is None:
            out["error"] = "the harness does not build: " + err[-1500:]
            return
        out["exe"] = exe
        out["res"] = hb.run(exe, os.path.join(work, "h"), seed, tier, timeout=330 if tier == "quick" else 600)
        out["wall_s"] = time.time() - t0
    except Exception as e:
        out["error"] = "harness: %s" % traceback.format_exc()[-1500:]


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = importlib.import_module(prop.lower())
    work = tempfile.mkdtemp(prefix="rct-%s-" % prop)
    try:
        return decide(prop, mod, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def verify(mod, prop, tier, seed, work, limit):
    from ctx import Ctx, time_limit, Timeout

    ctx = Ctx(prop, tier, seed, work)
    try:
        with time_limit(limit):
            if not os.environ.get("VERIF_NOPROOF"):
                mod.prove(ctx)
                if not ctx.obs and not ctx.only:
                    ctx.undecided("verification", "no obligations were generated")
    except Timeout:
        ctx.undecided("verification", "time limit of the verification")
    except Exception as e:
        if os.environ.get("VERIF_TRACE"):
            traceback.print_exc()
        ctx.undecided("verification", "%s: %s" % (type(e).__name__, str(e)[:600]))
    return ctx


def decide(prop, mod, tier, seed, work, t0):
    conc = {}
    th = threading.Thread(target=run_harness, args=(mod, tier, seed, work, conc))
    if not os.environ.get("VERIF_NOHARNESS"):
        th.start()
    tp = time.time()
    ctx = verify(mod, prop, tier, seed, work, 420 if tier == "quick" else 560)
    if any(o["verdict"] == "undecided" for o in ctx.obs) and time.time() - tp < 200:
        # once more with a multiple of the solver time: a slow machine must not decide
        import prove as pr

        pr.SLOW = 8
        pr._dec_cache.clear()
        pr._inf_cache.clear()
        ctx2 = verify(mod, prop, tier, seed, work, 300)
        if sum(o["verdict"] == "undecided" for o in ctx2.obs) < sum(o["verdict"] == "undecided" for o in ctx.obs):
            ctx = ctx2
    prove_s = time.time() - tp
    if th.ident:
        th.join()
    res = conc.get("res") or dict(evaluations=0, distinct_nontrivial=0, failures=[], samples=[], incomplete=[])
    refuted = [o for o in ctx.obs if o["verdict"] == "refuted"]
    undec = [o for o in ctx.obs if o["verdict"] == "undecided"]
    kn = known(prop)
    listed, fresh = {}, []
    for f in res["failures"]:
        k = next((k for k in kn if matches(k, f["fail"])), None)
        if k:
            listed[k["key"]] = k
        else:
            fresh.append(f)
    # an obligation the verifier refutes or does not accept: look harder for a concrete input before giving up
    rnew = []
    for o in refuted + undec:
        k = next((k for k in kn if any(s and s in o["name"] for s in k.get("obligations", []))), None)
        if k:
            listed[k["key"]] = k
        else:
            rnew.append(o)
    if rnew and not fresh and conc.get("exe") and time.time() - t0 < 400:
        for s2 in range(1, 4):
            r2 = hb.run(conc["exe"], os.path.join(work, "h"), seed + 1000 * s2, "quick", timeout=120)
            res["evaluations"] += r2["evaluations"]
            res["distinct_nontrivial"] += r2["distinct_nontrivial"]
            new = [f for f in r2["failures"] if not any(matches(k, f["fail"]) for k in kn)]
            if new:
                for f in new:
                    f["seed"] = seed + 1000 * s2
                fresh += new
                break
    rc = 0
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    for k in listed.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if fresh:
        f = sorted(fresh, key=lambda f: (f["stage"], f["case"]))[0]
        path = os.path.join(rdir, "%s-input.json" % prop)
        keys = {}
        for g in fresh:
            keys.setdefault(g["fail"], g)
        json.dump({"property": prop, "kind": "failing input", "seed": f.get("seed", seed), "tier": tier, "stage": f["stage"], "case": f["case"], "key": f["fail"], "what": f["what"], "input": f["input"],
                   "all_failures": list(keys.values())[:40], "obligations_not_discharged": [o for o in ctx.obs if o["verdict"] != "proved"][:40],
                   "replay": "python3-vt /verif/check.py --replay " + path}, open(path, "w"), indent=1, default=str)
        print("%s: %s (stage %s, case %d, seed %s): %s" % (prop, f["fail"], f["stage"], f["case"], f.get("seed", seed), f["what"][:500]))
        for o in rnew[:10]:
            print("  failed obligation: %s" % o["name"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    elif rnew:
        o = rnew[0]
        path = os.path.join(rdir, "%s-obligation.json" % prop)
        json.dump({"property": prop, "kind": "failed obligation", "verdict": o["verdict"], "obligation": o["name"], "where": o["where"], "verifier_output": o["detail"], "all_failed": rnew[:40]}, open(path, "w"), indent=1, default=str)
        print("%s: obligation %s: %s  %s" % (prop, "refuted" if o["verdict"] == "refuted" else "not discharged", o["name"], json.dumps(o["detail"], default=str)[:600]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        rc = 1
    n, d = len(ctx.obs), sum(o["verdict"] == "proved" for o in ctx.obs)
    for o in undec[:20]:
        print("UNDECIDED %s: %s" % (o["name"], str(o["detail"])[:300]))
    if conc.get("error"):
        print("NOTE " + conc["error"][:1500])
    for x in res["incomplete"]:
        print("NOTE " + x)
    print("%s: %d obligations, %d discharged, %d refuted, %d undecided (%.0f s); bounded stand-in: %d evaluations on %d cases, %d failures" % (prop, n, d, len(refuted), len(undec), prove_s, res["evaluations"], res["distinct_nontrivial"], len(res["failures"])))
    evidence(prop, mod, tier, seed, ctx, conc, res, n, d, undec, refuted, time.time() - t0, prove_s, rc, list(listed))
    return rc


def evidence(prop, mod, tier, seed, ctx, conc, res, n, d, undec, refuted, wall, prove_s, rc, listed):
    by = {}
    for o in ctx.obs:
        if o["verdict"] == "proved":
            by[o["detail"]] = by.get(o["detail"], 0) + 1
    try:
        import prove as pr

        stats = dict(pr.STATS)
    except Exception:
        stats = {}
    level = getattr(mod, "LEVEL", "proof")
    cov = {
        "obligations": n,
        "discharged": d,
        "discharged_by_backend": by,
        "undecided": [{"obligation": o["name"], "why": str(o["detail"])[:300]} for o in undec[:60]],
        "refuted": [o["name"] for o in refuted[:60]],
        "checker_cmd": "python3-vt /verif/check.py %s --tier %s" % (prop, tier),
        "trusted_base": TRUSTED + list(getattr(mod, "TRUSTED", [])),
        "functions_under_contract": {q: h for q, h in sorted(ctx.used().items())},
        "solver_statistics": stats,
        "verification_s": round(prove_s, 2),
        "extraction_s": round(ctx.t_extract, 2),
        "bounded_stand_in": {
            "label": "bounded: concrete executions of the compiled code, never counted as proved",
            "harness": getattr(mod, "HARNESS", None),
            "evaluations": res["evaluations"],
            "distinct_nontrivial": res["distinct_nontrivial"],
            "incomplete": res["incomplete"],
            "error": conc.get("error"),
        },
        "evaluations": res["evaluations"],
        "distinct_nontrivial": res["distinct_nontrivial"],
        "rule": getattr(mod, "RULE", "a case is one randomly generated input of the stage, built from the seed; it counts when the generator produced a valid input on which every expectation of the stage is evaluated"),
        "samples": (res["samples"] or [])[:4] + [{"obligation": o["name"], "verdict": o["verdict"], "by": o["detail"] if o["verdict"] == "proved" else ""} for o in ctx.obs[:3]],
        "known_findings_seen": listed,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": ASSUME + list(getattr(mod, "ASSUMPTIONS", [])) + ctx.assumptions, "wall_s": round(wall, 2), "violations": rc}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, default=str)


TRUSTED = [
    "clang 18 front end and /verif/engine/extract (AST of the current sources, one obligation generator input per run)",
    "/verif/engine: symbolic semantics of the C++ subset, loop invariant synthesis, normal form arithmetic; z3 4.x and cvc5 1.1.2 for the rest",
    "library models in /verif/engine/lib.py for Eigen, the C++ standard library and the Ceres interface (axioms, cross-checked by the concrete harness only)",
]
ASSUME = [
    "floating point numbers are treated as real numbers in the proofs (the bounded stand-in runs the compiled doubles)",
    "Ceres: Solve leaves constant blocks alone, may put any value in the others and reports through Summary; its numerical convergence is not claimed",
]


def replay(path):
    d = json.load(open(path))
    if d["kind"] != "failing input":
        print(json.dumps(d, indent=1))
        return 1
    mod = importlib.import_module(d["property"].lower())
    work = tempfile.mkdtemp(prefix="rct-replay-")
    try:
        exe, err = hb.build(mod.HARNESS, mod.SOURCES, work, cv=getattr(mod, "OPENCV", False))
        if exe is None:
            print(err)
            return 2
        r = hb.run(exe, work, d["seed"], d["tier"], only=(d["stage"], d["case"]))
        for f in r["failures"]:
            print("%s: %s\n  input: %s" % (f["fail"], f["what"], f["input"]))
        return 1 if r["failures"] else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
