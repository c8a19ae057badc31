"""C10: standard deviations and correlations of a covariance matrix, named lists over its upper triangle, threshold filter."""
from common import *

HARNESS = "c10.cpp"
SOURCES = ["opt:covariance_analysis.cpp"]
EPS = Fraction(1, 2**52)


def sd(C, i):
    return sqrt(eabs(C.at(i, i) if hasattr(C, "at") else C.cell(i, i)))


def cell(C, i, j):
    return to_dmat(C).cell(num(i), num(j))


def corr(C, i, j):
    """off-diagonal correlation; a vanishing standard deviation counts as one in the denominator"""
    s = lambda k: sqrt(eabs(cell(C, k, k)))
    g = lambda x: ite(lt(x, num(EPS)), ONE, x)
    return ite(eq(i, j), s(i), cell(C, i, j) / (g(s(i)) * g(s(j))))


def prove(ctx):
    prog = ctx.program("opt:covariance_analysis.cpp")
    ip = ctx.interp(prog, {})
    fn = lambda n: prog.find("rct_optimizations::" + n)[0]

    def paths(n):
        f = fn(n)
        a = args_of(ip, f)
        vals = [ip.load(x) for x in a]
        return vals, run_entry(ip, f, a)

    def exceptions(L, C, ps):
        sq = eq(C.r, C.c)
        for p in ps:
            if p.kind == "throw":
                ctx.ob(L + ": throws only for a matrix that is not square", p.pc, "bool", bnot(sq), TRUE)
                ctx.ob(L + ": throws CovarianceException", p.pc, "bool", bconst(p.val.ty == "rct_optimizations::CovarianceException"), TRUE)
        return [p for p in ps if p.kind in ("normal", "return")]

    def correlations():
        L = "computeCorrelationsFromCovariance"
        (C,), ps = paths(L)
        C = to_dmat(C)
        for p in exceptions(L, C, ps):
            v = getattr(p.val, "val", p.val)
            ctx.ob(L + ": refuses a matrix that is not square", p.pc, "bool", eq(C.r, C.c), TRUE)
            v = ip.load(v) if isinstance(v, (Ref,)) else v
            ctx.ob(L + ": rows", p.pc, "eq", v.r if isinstance(v, DMat) else num(v.r), C.r)
            ctx.ob(L + ": columns", p.pc, "eq", v.c if isinstance(v, DMat) else num(v.c), C.c)
            i, j = fresh("idx"), fresh("idx")
            inr = (lt(i, C.r), lt(j, C.r), le(0, i), le(0, j))
            ctx.ob(L + ": the diagonal holds the standard deviations", tuple(p.pc) + inr, "eq", cell(v, i, i), sqrt(eabs(cell(C, i, i))))
            ctx.ob(L + ": off the diagonal the correlation coefficients", tuple(p.pc) + inr + (bnot(eq(i, j)),), "eq", cell(v, i, j), corr(C, i, j))
            ctx.ob(L + ": symmetric for a symmetric matrix", tuple(p.pc) + inr + (bnot(eq(i, j)), eq(cell(C, i, j) - cell(C, j, i), 0)), "eq", cell(v, i, j), cell(v, j, i))

    def results():
        L = "computeCovarianceResults"
        (C, names), ps = paths(L)
        C = to_dmat(C)
        n = C.r
        NP = lambda a, b, v: Struct("rct_optimizations::NamedParam", {"names": Struct("std::pair", {"first": a, "second": b}), "value": v})
        for p in exceptions(L, C, ps):
            v = getattr(p.val, "val", p.val)
            pc = tuple(p.pc) + (eq(names.length(), n),)
            ctx.obs_eq(L + ": the covariance matrix is the input", v.f["covariance_matrix"], C, pc)
            i, j = fresh("idx"), fresh("idx")
            inr = (lt(i, C.r), lt(j, C.r), le(0, i), le(0, j))
            ctx.ob(L + ": the correlation matrix", pc + inr, "eq", cell(v.f["correlation_matrix"], i, j), corr(C, i, j))
            ctx.obs_eq(L + ": one standard deviation per parameter, in order", v.f["standard_deviations"], Seq([Fun(n, lambda i: NP(names.at(i), Str(()), sqrt(eabs(cell(C, i, i)))))]), pc)
            tri = lambda g: Seq([Gen(n, lambda i: Seq([Fun(n - i - 1, lambda j: NP(names.at(i), names.at(i + j + 1), g(i, i + j + 1)))]))])
            ctx.obs_eq(L + ": correlations over the upper triangle", v.f["correlation_coeffs"], tri(lambda i, j: corr(C, i, j)), pc)
            ctx.obs_eq(L + ": covariances over the upper triangle", v.f["covariances"], tri(lambda i, j: cell(C, i, j)), pc)

    def outside():
        L = "getCorrelationCoeffOutsideThreshold"
        pr = ctx.program("drv:c10.cpp")
        ip2 = ctx.interp(pr, {})
        f = pr.find("rct_optimizations::drvOutside")[0]
        a = args_of(ip2, f)
        res, t = ip2.load(a[0]), num(ip2.load(a[1]))
        src = res.f["correlation_coeffs"]
        want = Seq([Gen(src.length(), lambda k: Seq([If(lt(t, eabs(src.at(k).f["value"])), Seq([Items([src.at(k)])]))]))])
        for p in run_entry(ip2, f, a):
            if p.kind not in ("normal", "return"):
                ctx.ob(L + ": no exception", p.pc, "bool", FALSE, TRUE)
                continue
            o = p.val
            got = o.val
            ctx.ob(L + ": the result is what was sorted last", p.pc, "bool", bconst(len(o.sorts) >= 1 and isinstance(got, Seq) and same(got, o.sorts[-1]["after"])), TRUE)
            if not o.sorts:
                continue
            s = o.sorts[-1]
            ctx.obs_eq(L + ": exactly the coefficients of larger magnitude", s["before"], want, p.pc)
            x, y, r = s["rel"]
            ctx.ob(L + ": in decreasing magnitude", p.pc, "bool", r, lt(eabs(y.f["value"]), eabs(x.f["value"])))

    ctx.run("threshold", outside)
    ctx.run("correlations", correlations)
    ctx.run("results", results)
