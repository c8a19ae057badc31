"""Shared contract of the multi-camera optimisers."""
from common import *


def depth_pre(q):
    return [bnot(eq(q[2], 0)), bor(lt(num(Fraction(1, 10**9)), q[2]), lt(q[2], num(-Fraction(1, 10**9))))]


def apply3(T, p):
    return T.apply(p)


def same_length(a, b):
    """precondition stated by the interface documentation"""
    return eq(a, b)


def run_one(ctx, src, ptype, label, build, assume=lambda prm: ()):
    """build(ip, prm, result) -> dict(bounds, point(R, *idx) -> camera point, intr(*idx), corr(*idx), R, R0, poses=[...])"""
    prog = ctx.program(src)
    ip = ctx.interp(prog, OPT)
    f = optimise_fn(prog, ptype)
    prm = problem_arg(ip, f)
    paths = run_entry(ip, f, [Ref(ip.new(prm, "arg"))], assume=tuple(assume(prm)))
    ok, thrown = fixed_paths(ctx, label, paths)
    for p in thrown:
        ctx.ob(label + ": no exception for any valid input", p.pc, "bool", FALSE, TRUE)
    for k, p in enumerate(ok):
        L = label if len(ok) == 1 else "%s (path %d)" % (label, k)
        o = p.val
        ctx.ob(L + ": the solver runs exactly once", p.pc, "bool", bconst(len(o.solves) == 1), TRUE)
        if len(o.solves) != 1:
            continue
        s = o.solves[0]
        d = build(ip, prm, o.val)

        def resid(R, *idx):
            q = d["point"](R, *idx)
            c = d["corr"](*idx)
            u = pix(d["intr"](*idx), q)
            return [u[k] - c.f["in_image"].at(k, 0) for k in range(2)]

        groups = d.get("groups") or [dict(name="correspondence", when=None)]
        check_problem(ctx, ip, L, s, tuple(p.pc), [SpecBlocks(g["name"], d["bounds"], resid, pre=lambda tag, R, *idx: depth_pre(d["point"](R, *idx)), when=g.get("when")) for g in groups], d["R"], d["R0"])
        check_summary(ctx, L, o.val, s, p.pc)
        for name, have, want in d.get("lengths", []):
            ctx.ob("%s: %s" % (L, name), p.pc, "eq", have, want)
        for v in d.get("values", []):
            name, have, want = v[0], v[-2], v[-1]
            facts = tuple(p.pc) + (v[1] if len(v) == 4 else ())
            ctx.obs_eq("%s: %s" % (L, name), have(facts) if callable(have) else have, want(facts) if callable(want) else want, facts)
        if "poses" in d:
            ctx.ob(L + ": one covariance call", p.pc, "bool", bconst(len(o.covs) == 1), TRUE)
            for c in o.covs:
                ctx.run(L + ": covariance labels", lambda: check_pose_labels(ctx, ip, L, p.pc, c, s["post"], d["poses"]))
                ctx.obs_eq(L + ": the result carries that covariance", o.val.f["covariance"], Struct("rct_optimizations::CovarianceResult", {"token": num(c["n"]) + var("covtoken", "I")}), p.pc)
