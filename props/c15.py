"""C15: intrinsic calibration validation reports the statistics of the stated errors."""
from common import *
from pnpc import *
import lib as lib_

HARNESS = "c15.cpp"
SOURCES = ["opt:validation/camera_intrinsic_calibration_validation.cpp"]
TRUSTED = ["Boost.Accumulators: mean and (population) variance"]
ASSUMPTIONS = ["the solution of one PnP problem is an abstract function of that problem (verified in C07)"]
NS = "rct_optimizations::"


def half(corr, k):
    h = idiv(corr.length(), num(2))
    lo, n = (ZERO, h) if k == 0 else (h, corr.length() - h)
    return Seq([Fun(n, lambda j: corr.at(lo + j))], corr.ety)


def pnp(corr, intr, guess):
    key = pnp_key(corr, intr, guess)
    ok, T = pnp_solution(key)
    return ok, app("pnp_c1", (key,)), T


def virtual(corr, intr, guess, thr):
    """(acceptable, positional error, angular error, transform between the poses of the two halves)"""
    ok1, c1, T1 = pnp(half(corr, 0), intr, guess)
    ok2, c2, T2 = pnp(half(corr, 1), intr, guess)
    D = T1.inv() * T2
    good = band(ok1, le(c1, thr), ok2, le(c2, thr))
    return good, sqrt(sum_([t * t for t in D.trans()])), lib_.angdist(T1.lin().rot, T2.lin().rot), D


def prove(ctx):
    prog = ctx.program("opt:validation/camera_intrinsic_calibration_validation.cpp")

    def diff():
        L = "virtual target difference"
        ip = ctx.interp(prog, {NS + "optimize": c_pnp_g})
        f = prog.find(NS + "measureVirtualTargetDiff")[0]
        a = [sym(ip, strip_ref(t), p["n"]) for t, p in zip(prog.param_types(f), f["params"])]
        good, pos, ang, D = virtual(*a)
        for p in run_entry(ip, f, [Ref(ip.new(x, "arg")) for x in a]):
            pc = tuple(p.pc)
            if p.kind == "throw":
                ctx.ob(L + ": an exception only when PnP does not converge within the threshold for a half", pc, "bool", good, FALSE)
                ctx.ob(L + ": the exception is a std::runtime_error", pc, "bool", bconst("runtime_error" in getattr(p.val, "ty", "")), TRUE)
                continue
            v = p.val.val
            ctx.ob(L + ": both halves converge within the threshold", pc, "bool", good, TRUE)
            ctx.obs_eq(L + ": transform from the first to the second virtual target", v.f["t1_to_t2"], D, pc)
            ctx.ob(L + ": positional error", pc, "eq", v.f["positional_error"], pos)
            ctx.ob(L + ": angular error", pc, "eq", v.f["angular_error"], ang)

    def c_diff(ip, f, args, this):
        a = [ip.load(x) for x in args]
        key = [half(a[0], 0).length(), half(a[0], 1).length()] + list(virtual_key(a))
        if not ip.branch(pred("vt_good", *key)):
            raise ThrowEx(Struct("std::runtime_error", {}))
        T = iso_rt(rotmat(raa(*[app("vt_w", tuple(key) + (num(k),)) for k in range(3)])), [app("vt_t", tuple(key) + (num(k),)) for k in range(3)])
        return Struct(NS + "VirtualCorrespondenceResult", {"t1_to_t2": T, "positional_error": app("vt_pos", tuple(key)), "angular_error": app("vt_ang", tuple(key))})

    def virtual_key(a):
        return [pnp_key(a[0], a[1], a[2]), num(a[3])]

    def accuracy():
        L = "accuracy"
        ip = ctx.interp(prog, {NS + "measureVirtualTargetDiff": c_diff})
        f = prog.find(NS + "measureIntrinsicCalibrationAccuracy")[0]
        names = [p["n"] for p in f["params"]]
        a = [sym(ip, strip_ref(t), p["n"]) for t, p in zip(prog.param_types(f), f["params"])]
        obs, intr, cam, tgt, base, thr = a
        n = obs.length()

        def key(k):
            o = obs.at(k)
            g = (o.f["to_camera_mount"] * cam).inv() * (base * o.f["to_target_mount"] * tgt)
            c = o.f["correspondence_set"]
            return [half(c, 0).length(), half(c, 1).length()] + virtual_key([c, intr, g, thr])

        same_n = quant("all", n - 1, lambda k: eq(obs.at(k).f["correspondence_set"].length(), obs.at(k + 1).f["correspondence_set"].length()))
        allgood = quant("all", n, lambda k: pred("vt_good", *key(k)))
        for p in run_entry(ip, f, [Ref(ip.new(x, "arg")) for x in a]):
            pc = tuple(p.pc)
            if p.kind == "throw":
                t = getattr(p.val, "ty", "")
                ctx.ob(L + ": an exception only for no observations, different numbers of correspondences or a failing measurement", pc, "bool", band(lt(0, n), same_n, allgood), FALSE)
                continue
            v = p.val.val
            ctx.ob(L + ": there are observations", pc, "bool", lt(0, n), TRUE)
            ctx.ob(L + ": all observations have the same number of correspondences", pc, "bool", same_n, TRUE)
            ctx.ob(L + ": every measurement succeeded", pc, "bool", allgood, TRUE)
            for fld, e in (("pos_error", "vt_pos"), ("ang_error", "vt_ang")):
                x = lambda k: app(e, tuple(key(k)))
                m = summ(n, x) / n
                ctx.ob(L + ": mean of %s" % fld, pc, "eq", v.f[fld].f["first"], m)
                ctx.ob(L + ": standard deviation of %s" % fld, pc, "eq", v.f[fld].f["second"], sqrt(summ(n, lambda k: x(k) * x(k)) / n - m * m))

    ctx.run("difference", diff)
    ctx.run("accuracy", accuracy)
