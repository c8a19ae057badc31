"""C14: noise qualification reports the statistics of the solutions that converged."""
from common import *
from pnpc import *
import lib as lib_

HARNESS = "c14.cpp"
SOURCES = ["opt:validation/noise_qualification.cpp"]
TRUSTED = ["Eigen: the first left singular vector of JacobiSVD belongs to the largest singular value; Boost.Accumulators: mean and (population) variance"]
ASSUMPTIONS = ["the solution of one PnP problem is an abstract function of that problem (verified in C07)"]
NS = "rct_optimizations::"


def qmean(total):
    """coefficients of the unit vector that maximises the sum of squared inner products with the quaternions"""
    M = Mat(4, 4, [total(lambda q: q.coeffs()[i] * q.coeffs()[j]) for i in range(4) for j in range(4)])
    return [app("svdU", lib_.matkey(M) + (num(i), ZERO)) for i in range(4)]


def qdist2(mean, q):
    d = Quat(None, tuple(mean))
    o = q
    if d.rot() is not None and o.rot() is not None:
        x = lib_.angdist(d.rot(), o.rot())
    else:
        x = app("qangdist", tuple(d.coeffs()) + tuple(o.coeffs()))
    return x * x


def pmone(ctx, name, pc, got, want):
    """equal quaternions up to the common sign"""
    both = [("bool", band(*[eq(got[i], s * want[i]) for i in range(4)]), TRUE) for s in (ONE, -ONE)]
    ctx.ob_alt(name, pc, both)


def abstract(ps):
    """optimize(problem) for an element k of the given list is an abstract function of k"""

    def contract(ip, f, args, this):
        t = strip_ref(ip.prog.param_types(f)[0])
        if not (t.endswith("PnPProblem") or t.endswith("PnPProblem3D")):
            return NotImplemented
        p = ip.load(args[0])
        a = the_atom(p.f["correspondences"].length())
        k = a.args[1][0] if a is not None and a.kind == "app" and len(a.args[1]) == 1 else None
        if k is None or not same(p, ps.at(k)):
            return c_pnp_g(ip, f, args, this)
        ok, T = pnp_solution(app("pnpkey", (k,)))
        return Struct("rct_optimizations::PnPResult", {"converged": ok, "initial_cost_per_obs": app("pnp_c0", (k,)), "final_cost_per_obs": app("pnp_c1", (k,)), "camera_to_target": T, "covariance": Struct("rct_optimizations::CovarianceResult", {"token": app("pnp_cov", (k,), "I")})})

    return contract


def prove(ctx):
    prog = ctx.program("opt:validation/noise_qualification.cpp")

    def mean():
        ip = ctx.interp(prog, {})
        f = prog.find(NS + "computeQuaternionMean")[0]
        qs = sym(ip, prog.param_types(f)[0].replace("&", "").replace("const ", ""), "q")
        want = qmean(lambda f: lib_.seq_sum(qs, f))
        for p in run_entry(ip, f, [Ref(ip.new(qs, "arg"))]):
            if p.kind == "throw":
                ctx.ob("mean rotation: no exception", p.pc, "bool", FALSE, TRUE)
                continue
            pmone(ctx, "mean rotation: the quaternion closest to all given ones", p.pc, p.val.val.coeffs(), want)

    def c_mean(ip, f, args, this):
        qs = ip.load(args[0])
        return Quat(None, tuple(qmean(lambda f: lib_.seq_sum(qs, f))))

    def stats():
        ip = ctx.interp(prog, {NS + "computeQuaternionMean": c_mean})
        f = prog.find(NS + "computeQuaternionStats")[0]
        qs = sym(ip, prog.param_types(f)[0].replace("&", "").replace("const ", ""), "q")
        n = qs.length()
        m = qmean(lambda f: lib_.seq_sum(qs, f))
        for p in run_entry(ip, f, [Ref(ip.new(qs, "arg"))]):
            if p.kind == "throw":
                ctx.ob("rotation statistics: no exception", p.pc, "bool", FALSE, TRUE)
                continue
            pc = tuple(p.pc) + (lt(1, n),)
            v = p.val.val
            pmone(ctx, "rotation statistics: mean", pc, v.f["mean"].coeffs(), m)
            ctx.ob("rotation statistics: standard deviation of the angular distances", pc, "eq", v.f["stdev"], sqrt(lib_.seq_sum(qs, lambda q: qdist2(m, q)) / (n - 1)))

    def c_stats(ip, f, args, this):
        qs = ip.load(args[0])
        n = qs.length()
        m = qmean(lambda f: lib_.seq_sum(qs, f))
        return Struct(NS + "QuaternionStats", {"mean": Quat(None, tuple(m)), "stdev": sqrt(lib_.seq_sum(qs, lambda q: qdist2(m, q)) / (n - 1))})

    def qualify(d):
        L = "%s noise" % d
        f = prog.find(NS + "qualifyNoise" + d)[0]
        ip = ctx.interp(prog, {NS + "computeQuaternionStats": c_stats})
        ps = sym(ip, prog.param_types(f)[0].replace("&", "").replace("const ", ""), "p")
        ip.contracts[NS + "optimize"] = abstract(ps)
        n = ps.length()
        sol = lambda k: pnp_solution(app("pnpkey", (k,)))
        ind = lambda k, x=ONE: ite(sol(k)[0], x, ZERO)
        cnt = summ(n, ind)
        q = lambda k: Quat(sol(k)[1].lin().rot)
        for p in run_entry(ip, f, [Ref(ip.new(ps, "arg"))]):
            if p.kind == "throw":
                ctx.ob(L + ": no exception", p.pc, "bool", FALSE, TRUE)
                continue
            pc = tuple(p.pc) + (lt(1, cnt),)
            v = p.val.val
            for c in range(3):
                t = lambda k: sol(k)[1].trans()[c]
                m = summ(n, lambda k: ind(k, t(k))) / cnt
                ctx.ob(L + ": mean position (%s)" % "xyz"[c], pc, "eq", v.f["p_stat"].f["mean"].at(c, 0), m)
                ctx.ob(L + ": standard deviation of the position (%s)" % "xyz"[c], pc, "eq", v.f["p_stat"].f["stdev"].at(c, 0), sqrt(summ(n, lambda k: ind(k, t(k) * t(k))) / cnt - m * m))
            mean = qmean(lambda f: summ(n, lambda k: ind(k, f(q(k)))))
            pmone(ctx, L + ": mean rotation", pc, v.f["q_stat"].f["mean"].coeffs(), mean)
            ctx.ob(L + ": standard deviation of the rotation", pc, "eq", v.f["q_stat"].f["stdev"], sqrt(summ(n, lambda k: ind(k, qdist2(mean, q(k)))) / (cnt - 1)))

    ctx.run("mean", mean)
    ctx.run("stats", stats)
    ctx.run("2D", lambda: qualify("2D"))
    ctx.run("3D", lambda: qualify("3D"))
