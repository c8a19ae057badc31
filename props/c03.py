"""C03: hand-eye calibration (2D-3D and 3D-3D)."""
from common import *

HARNESS = "c03.cpp"
SOURCES = ["opt:extrinsic_hand_eye.cpp", "opt:covariance_analysis.cpp", "opt:eigen_conversions.cpp"]
NS = "rct_optimizations::"


def one(ctx, prog, ptype, label, d2):
    ip = ctx.interp(prog, OPT)
    f = optimise_fn(prog, ptype)
    prm = problem_arg(ip, f)
    obs = prm.f["observations"]
    n = obs.length()
    paths = run_entry(ip, f, [Ref(ip.new(prm, "arg"))])
    ok, thrown = fixed_paths(ctx, label, paths)

    def in_camera(R, i, j):
        C, Tm = R  # camera mount -> camera, target mount -> target
        o = obs.at(i)
        c = o.f["correspondence_set"].at(j)
        q = Tm.apply([c.f["in_target"].at(k, 0) for k in range(3)])
        q = o.f["to_target_mount"].apply(q)
        q = o.f["to_camera_mount"].inv().apply(q)
        return C.inv().apply(q), c

    def resid(R, i, j):
        q, c = in_camera(R, i, j)
        if d2:
            q = pix(prm.f["intr"], q)
        return [q[k] - c.f["in_image"].at(k, 0) for k in range(len(q))]

    def pre(tag, R, i, j):
        if not d2:
            return []
        q, c = in_camera(R, i, j)
        return [bnot(eq(q[2], 0)), bor(lt(num(Fraction(1, 10**9)), q[2]), lt(q[2], num(-Fraction(1, 10**9))))]

    R0 = (prm.f["camera_mount_to_camera_guess"], prm.f["target_mount_to_target_guess"])
    def behind():
        return quant("ex", n, lambda i: quant("ex", obs.at(i).f["correspondence_set"].length(), lambda j: le(in_camera(R0, i, j)[0][2], ZERO)))

    for p in thrown:
        if not d2:
            ctx.ob(label + ": no exception for any input", p.pc, "bool", FALSE, TRUE)
            continue
        ctx.ob(label + ": the exception is a std::runtime_error", p.pc, "bool", bconst(p.val.ty == "std::runtime_error"), TRUE)
        ctx.ob(label + ": an exception is thrown only when some target point lies behind the camera at the guess", p.pc, "bool", behind(), TRUE)
    for k, p in enumerate(ok):
        L = label if len(ok) == 1 else "%s (path %d)" % (label, k)
        o = p.val
        ctx.ob(L + ": the solver runs exactly once", p.pc, "bool", bconst(len(o.solves) == 1), TRUE)
        if len(o.solves) != 1:
            continue
        s = o.solves[0]
        R = (o.val.f["camera_mount_to_camera"], o.val.f["target_mount_to_target"])
        check_problem(ctx, ip, L, s, tuple(p.pc), [SpecBlocks("correspondence", [n, lambda i: obs.at(i).f["correspondence_set"].length()], resid, pre=pre)], R, R0)
        check_summary(ctx, L, o.val, s, p.pc)
        if d2:
            ctx.ob(L + ": without an exception every target point is in front of the camera at the guess", p.pc, "bool", bnot(behind()), TRUE)
        ctx.ob(L + ": one covariance call", p.pc, "bool", bconst(len(o.covs) == 1), TRUE)
        for c in o.covs:
            check_pose_labels(ctx, ip, L, p.pc, c, s["post"], [([R[0], R[0].inv()], prm.f["label_camera_mount_to_camera"]), ([R[1], R[1].inv()], prm.f["label_target_mount_to_target"])])
            ctx.obs_eq(L + ": the result carries that covariance", o.val.f["covariance"], Struct(NS + "CovarianceResult", {"token": num(c["n"]) + var("covtoken", "I")}), p.pc)


def prove(ctx):
    prog = ctx.program("opt:extrinsic_hand_eye.cpp")
    ctx.run("2D", lambda: one(ctx, prog, "ExtrinsicHandEyeProblem2D3D", "hand-eye 2D", True))
    ctx.run("3D", lambda: one(ctx, prog, "ExtrinsicHandEyeProblem3D3D", "hand-eye 3D", False))
