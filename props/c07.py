"""C07: single-camera PnP, 2D and 3D: the least-squares problem is the stated one and the returned pose is its solution."""
from common import *

HARNESS = "c07.cpp"
SOURCES = ["opt:pnp.cpp", "opt:covariance_analysis.cpp", "opt:eigen_conversions.cpp"]


def one(ctx, prog, ptype, label, spec2d):
    ip = ctx.interp(prog, OPT)
    f = optimise_fn(prog, ptype)
    prm = problem_arg(ip, f)
    n = prm.f["correspondences"].length()
    paths = run_entry(ip, f, [Ref(ip.new(prm, "arg"))])
    ok, thrown = fixed_paths(ctx, label, paths)
    for p in thrown:
        ctx.ob(label + ": no exception for any input", p.pc, "bool", FALSE, TRUE)

    def resid(T, i):
        c = prm.f["correspondences"].at(i)
        q = T.apply([c.f["in_target"].at(k, 0) for k in range(3)])
        if spec2d:
            q = pix(prm.f["intr"], q)
        return [q[k] - c.f["in_image"].at(k, 0) for k in range(len(q))]

    def front(tag, T, i):
        # the projection divides by the depth: the contract speaks about points with |z| > 1e-9
        c = prm.f["correspondences"].at(i)
        q = T.apply([c.f["in_target"].at(k, 0) for k in range(3)])
        return [bnot(eq(q[2], 0)), bor(lt(num(Fraction(1, 10**9)), q[2]), lt(q[2], num(-Fraction(1, 10**9))))] if spec2d else []

    for j, p in enumerate(ok):
        L = label if len(ok) == 1 else "%s (path %d)" % (label, j)
        o = p.val
        ctx.ob(L + ": the solver runs exactly once", p.pc, "bool", bconst(len(o.solves) == 1), TRUE)
        if len(o.solves) != 1:
            continue
        s = o.solves[0]
        R = o.val.f["camera_to_target"]
        check_problem(ctx, ip, L, s, tuple(p.pc), [SpecBlocks("correspondence", [n], resid, pre=front)], R, prm.f["camera_to_target_guess"])
        check_summary(ctx, L, o.val, s, p.pc)
        ctx.ob(L + ": one covariance call", p.pc, "bool", bconst(len(o.covs) == 1), TRUE)
        for c in o.covs:
            check_pose_labels(ctx, ip, L, p.pc, c, s["post"], [([R, R.inv()], prm.f["label_camera_to_target_guess"])])
            ctx.obs_eq(L + ": the result carries that covariance", o.val.f["covariance"], Struct("rct_optimizations::CovarianceResult", {"token": num(c["n"]) + var("covtoken", "I")}), p.pc)


def prove(ctx):
    prog = ctx.program("opt:pnp.cpp")
    ctx.run("pnp2d", lambda: one(ctx, prog, "PnPProblem", "PnP 2D", True))
    ctx.run("pnp3d", lambda: one(ctx, prog, "PnPProblem3D", "PnP 3D", False))
