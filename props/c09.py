"""C09: intrinsic calibration: the least-squares problem is the stated one and the result is its solution."""
from common import *
from pnpc import *
import prove as prove_

HARNESS = "c09.cpp"
SOURCES = ["opt:camera_intrinsic.cpp", "opt:pnp.cpp", "opt:covariance_analysis.cpp", "opt:eigen_conversions.cpp"]
NS = "rct_optimizations::"


def distorted(v, q):
    """pinhole camera with radial (k1 k2 k3) and tangential (p1 p2) distortion; v = fx fy cx cy k1 k2 p1 p2 k3"""
    fx, fy, cx, cy, k1, k2, p1, p2, k3 = v
    x, y = q[0] / q[2], q[1] / q[2]
    r2 = x * x + y * y
    g = num(1) + k1 * r2 + k2 * r2 * r2 + k3 * r2 * r2 * r2
    xd = x * g + 2 * p1 * x * y + p2 * (r2 + 2 * x * x)
    yd = y * g + p1 * (r2 + 2 * y * y) + 2 * p2 * x * y
    return [fx * xd + cx, fy * yd + cy]


def prove(ctx):
    prog = ctx.program("opt:camera_intrinsic.cpp")

    def main():
        L = "intrinsic calibration"
        C = dict(OPT)
        C[NS + "optimize"] = c_pnp
        ip = ctx.interp(prog, C)
        f = optimise_fn(prog, "IntrinsicEstimationProblem")
        prm = problem_arg(ip, f)
        img = prm.f["image_observations"]
        n = img.length()
        paths = run_entry(ip, f, [Ref(ip.new(prm, "arg"))])
        ok, thrown = fixed_paths(ctx, L, paths)
        pnp = lambda i: pnp_solution(pnp_key(img.at(i), prm.f["intrinsics_guess"]))
        usable = lambda i: pnp(i)[0]
        some = quant("ex", n, usable)
        for p in thrown:
            ctx.ob(L + ": an exception only when no image has a PnP solution", p.pc, "bool", some, FALSE)
            ctx.ob(L + ": the exception is a std::runtime_error", p.pc, "bool", bconst(getattr(p.val, "ty", "") == "std::runtime_error"), TRUE)

        def cam_point(R, i, j):
            T = R[0](i)
            c = img.at(i).at(j)
            return T.apply([c.f["in_target"].at(k, 0) for k in range(3)]), c

        def resid(R, i, j):
            q, c = cam_point(R, i, j)
            px = distorted(R[1:], q)
            return [px[k] - c.f["in_image"].at(k, 0) for k in range(2)]

        def pre(tag, R, i, j):
            q, c = cam_point(R, i, j)
            return [bnot(eq(q[2], 0)), bor(lt(num(Fraction(1, 10**9)), q[2]), lt(q[2], num(-Fraction(1, 10**9))))]

        R0 = (lambda i: pnp(i)[1],) + tuple(prm.f["intrinsics_guess"].f["values"].v) + (ZERO,) * 5
        for k, p in enumerate(ok):
            LL = L if len(ok) == 1 else "%s (path %d)" % (L, k)
            pc = tuple(p.pc)
            o = p.val
            ctx.ob(LL + ": some image has a PnP solution", pc, "bool", some, TRUE)
            ctx.ob(LL + ": the final optimisation runs exactly once", pc, "bool", bconst(len(o.solves) == 1), TRUE)
            if len(o.solves) != 1:
                continue
            s = o.solves[0]
            ctx.ob(LL + ": one target pose per image", pc, "eq", o.val.f["target_transforms"].length(), n)
            R = (lambda i: o.val.f["target_transforms"].at(i),) + tuple(o.val.f["intrinsics"].f["values"].v) + tuple(o.val.f["distortions"].v)
            check_problem(ctx, ip, LL, s, pc, [SpecBlocks("correspondence", [n, lambda i: img.at(i).length()], resid, when=lambda i, j: usable(i), pre=pre)], R, R0)
            check_summary(ctx, LL, o.val, s, p.pc)
            ctx.ob(LL + ": one covariance call", pc, "bool", bconst(len(o.covs) == 1), TRUE)
            for c in o.covs:
                labels(ctx, ip, LL, pc, c, s["post"], R, n, usable)
                ctx.obs_eq(LL + ": the result carries that covariance", o.val.f["covariance"], Struct(NS + "CovarianceResult", {"token": num(c["n"]) + var("covtoken", "I")}), pc)

    ctx.run("intrinsic", main)


INTR = ("fx", "fy", "cx", "cy", "k1", "k2", "p1", "p2", "k3")


def labels(ctx, ip, L, pc, cov, mem, R, n, usable):
    smem = ip.mem
    ip.mem = dict(mem)
    fam = 0
    cam = 0
    try:
        for sg in cov["blocks"].segs:
            if isinstance(sg, Items):
                ptrs = [(q, (), None) for q in sg.v]
            else:
                k = fresh("idx")
                b = sg.f(k) if isinstance(sg, Gen) else Seq([Items([sg.cell(k)])])
                cond = TRUE
                while len(b.segs) == 1 and isinstance(b.segs[0], If):
                    cond = band(cond, b.segs[0].c)
                    b = b.segs[0].s
                if len(b.segs) != 1 or not isinstance(b.segs[0], Items):
                    raise Unsupported("covariance blocks")
                ctx.ob(L + ": covariance blocks range over the images", pc, "eq", num(sg.n), n)
                ctx.ob(L + ": covariance blocks: the poses of the images with a PnP solution", pc + (lt(k, n),), "bool", cond, usable(k))
                ptrs = [(q, (lt(k, n), usable(k)), k) for q in b.segs[0].v]
            for q, facts, k in ptrs:
                full = pc + facts
                found, ls = lib.map_lookup(ip, cov["labels"], q)
                ctx.ob(L + ": a covariance block has labels", full, "bool", found, TRUE)
                if isinstance(ls, Arr):
                    ls = Seq([Items(ls.v)])
                el = lambda e: prove_.resolve(num(ip.load(Ref(q.loc, q.path + (("i", (q.off if q.off is not None else ZERO) + num(e)),)))), full)
                if k is None:
                    cam += 1
                    ctx.ob(L + ": number of camera parameter labels", full, "eq", ls.length(), num(9))
                    for e in range(9):
                        ctx.ob(L + ": camera parameter %d" % e, full, "eq", el(e), R[1 + INTR.index(INTR[e])])
                        ctx.ob(L + ": label of camera parameter %d" % e, full, "str", ls.at(e), Str([INTR[e]]))
                else:
                    fam += 1
                    ctx.ob(L + ": number of pose labels", full, "eq", ls.length(), num(6))
                    T = resolved(R[0](k), full)
                    for e in range(6):
                        x = el(e)
                        c = pose_component(x, T) or pose_component(x, T.inv())
                        if c is None:
                            ctx.undecided(L + ": label of pose parameter %d" % e, "the parameter is not recognised as a component of the pose")
                            continue
                        ctx.ob(L + ": label of pose parameter %d" % e, full, "str", ls.at(e), Str(["pose"]) + to_string(k) + Str(["_" + c]))
    finally:
        ip.mem = smem
    ctx.ob(L + ": one camera block and one family of pose blocks", pc, "bool", bconst(cam == 1 and fam == 1), TRUE)
