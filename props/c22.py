"""C22: circle fit and prior (maximum likelihood) costs."""
from common import *

HARNESS = "c22.cpp"
SOURCES = ["opt:circle_fit.cpp", "opt:covariance_analysis.cpp"]
ASSUMPTIONS = ["circle fit: the guess of the radius is not negative"]
NS = "rct_optimizations::"


def c_results(ip, f, args, this):
    """C10: recorded; the result is an abstract token"""
    ip.res_log.append([ip.load(x) for x in args])
    return Struct(NS + "CovarianceResult", {"token": num(len(ip.res_log)) + var("restoken", "I")})


def c_cov(ip, f, args, this):
    """C11: the covariance of the parameter blocks, its matrix symbolic"""
    c_computeCovariance(ip, f, args, this)
    n = num(3)
    return Struct(NS + "CovarianceResult", {"token": var("covtoken", "I"), "covariance_matrix": DMat(n, n, lambda i, j: app("covm", (i, j)))})


def prove(ctx):
    prog = ctx.program("opt:circle_fit.cpp", "drv:c22.cpp")

    def fit():
        L = "circle fit"
        con = dict(OPT)
        con[NS + "computeCovariance"] = c_cov
        con[NS + "computeCovarianceResults"] = c_results
        ip = ctx.interp(prog, con)
        ip.res_log = []
        f = optimise_fn(prog, "CircleFitProblem")
        prm = problem_arg(ip, f)
        P = prm.f
        n = P["observations"].length()
        pos = le(0, P["radius_initial"])

        def resid(R, i):
            o = P["observations"].at(i)
            dx, dy = o.at(0, 0) - R[0], o.at(1, 0) - R[1]
            return [R[2] * R[2] - dx * dx - dy * dy]

        paths = run_entry(ip, f, [Ref(ip.new(prm, "arg"))], None, (pos,))
        for p in paths:
            if p.kind == "throw":
                ctx.ob(L + ": no exception for any input", p.pc, "bool", FALSE, TRUE)
                continue
            o = p.val
            pc = tuple(p.pc) + (pos,)
            ctx.ob(L + ": the solver runs exactly once", pc, "bool", bconst(len(o.solves) == 1), TRUE)
            if len(o.solves) != 1:
                continue
            s = o.solves[0]
            V = o.val.f
            R = (V["x_center"], V["y_center"], V["radius"])
            R0 = (P["x_center_initial"], P["y_center_initial"], P["radius_initial"])
            check_problem(ctx, ip, L, s, pc, [SpecBlocks("observation", [n], resid)], R, R0)
            check_summary(ctx, L, o.val, s, pc)
            ctx.ob(L + ": one covariance call", pc, "bool", bconst(len(o.covs) == 1 and len(ip.res_log) > 0), TRUE)
            if len(o.covs) == 1 and ip.res_log:
                c = o.covs[0]
                prs = map_pairs(ip, c["labels"])
                ctx.ob(L + ": the covariance of one block", pc, "bool", bconst(len(prs) == 1 and isinstance(prs[0][0], Ptr)), TRUE)
                blk = prs[0][0]
                smem, ip.mem = ip.mem, dict(s["post"])
                try:
                    el = [num(ip.load(Ref(blk.loc, blk.path + (("i", (blk.off if blk.off is not None else ZERO) + num(k)),)))) for k in range(3)]
                finally:
                    ip.mem = smem
                for k, (e, w) in enumerate(zip(el[:2], R)):
                    ctx.ob(L + ": the covariance block holds the %s of the centre" % "xy"[k], pc, "eq", e, w)
                ctx.ob(L + ": the covariance block holds the square root of the radius", pc, "eq", el[2] * el[2], R[2])
                M, names = to_dmat(ip.res_log[-1][0]), ip.res_log[-1][1]
                d = [ONE, ONE, num(2) * el[2]]
                for i in range(3):
                    for j in range(3):
                        ctx.ob(L + ": the reported covariance is that of (x, y, radius) [%d,%d]" % (i, j), pc, "eq", M.cell(num(i), num(j)), app("covm", (num(i), num(j))) * d[i] * d[j])
                ctx.obs_eq(L + ": it is reported under the labels", names, P["labels"], pc)
                ctx.obs_eq(L + ": the result carries that covariance", V["covariance"], Struct(NS + "CovarianceResult", {"token": num(len(ip.res_log)) + var("restoken", "I")}), pc)
            ctx.ob(L + ": the radius is not negative", pc, "bool", le(0, R[2]), TRUE)

    ctx.run("circle fit", fit)

    def functors():
        for n in (1, 3):
            L = "CircleDistCost (%d blocks)" % n
            f = prog.find(NS + "drvCircle%d" % n)[0]
            ip = ctx.interp(prog, {})
            if n == 1:
                x = [var("x"), var("y"), var("s")]
                ptr = [Ptr(ip.new(Arr(x), "keep:p"), (), ZERO)]
            else:
                x = [var("x"), var("y"), var("s")]
                ptr = [Ptr(ip.new(Arr([v]), "keep:p"), (), ZERO) for v in x]
            rl = ip.new(Arr([Undef()]), "keep:residual")
            px, py = var("px"), var("py")
            args = [Ref(ip.new(px, "arg")), Ref(ip.new(py, "arg"))] + ptr + [Ptr(rl, (), ZERO)]
            for p in run_entry(ip, f, args):
                if p.kind == "throw":
                    ctx.ob(L + ": no exception", p.pc, "bool", FALSE, TRUE)
                    continue
                ctx.ob(L + ": the evaluation succeeds", p.pc, "bool", p.val.val if isinstance(p.val.val, B) else bnot(eq(p.val.val, 0)), TRUE)
                r = x[2] * x[2]
                ctx.ob(L + ": the residual is the squared radius less the squared distance", p.pc, "eq", num(p.mem[rl].v[0]), r * r - (px - x[0]) * (px - x[0]) - (py - x[1]) * (py - x[1]))

    ctx.run("functors", functors)

    def likelihood():
        L = "MaximumLikelihood"
        f = prog.find(NS + "drvLikelihood")[0]
        ip = ctx.interp(prog, {})
        M, S = [DMat(var("len:%s.rows" % k, "I"), var("len:%s.cols" % k, "I"), lambda i, j, k=k: app(k, (i, j))) for k in ("mean", "stdev")]
        n = M.r * M.c
        pl = ip.new(Seq([Fun(n, lambda k: app("param", (k,)))]), "keep:param")
        pp = ip.new(Arr([Ptr(pl, (), ZERO)]), "keep:params")
        rl = ip.new(Seq([Fun(n, lambda k: app("res0", (k,)))]), "keep:residual")
        args = [Ref(ip.new(lib.ArrV(M), "arg")), Ref(ip.new(lib.ArrV(S), "arg")), Ptr(pp, (), ZERO), Ptr(rl, (), ZERO)]
        shape = band(eq(M.r, S.r), eq(M.c, S.c))
        for p in run_entry(ip, f, args):
            if p.kind == "throw":
                ctx.ob(L + ": throws only for arrays of different shapes", p.pc, "bool", shape, FALSE)
                ctx.ob(L + ": throws OptimizationException", p.pc, "bool", bconst(p.val.ty == NS + "OptimizationException"), TRUE)
                continue
            ctx.ob(L + ": refuses arrays of different shapes", p.pc, "bool", shape, TRUE)
            ctx.ob(L + ": the evaluation succeeds", p.pc, "bool", p.val.val if isinstance(p.val.val, B) else bnot(eq(p.val.val, 0)), TRUE)
            k = fresh("idx")
            pc = tuple(p.pc) + (le(0, k), lt(k, n))
            i, j = imod(k, M.r), idiv(k, M.r)
            ctx.ob(L + ": each residual is the parameter's distance from its mean in standard deviations", pc, "eq", num(p.mem[rl].at(k)), (app("param", (k,)) - M.cell(i, j)) / S.cell(i, j))

    ctx.run("likelihood", likelihood)
