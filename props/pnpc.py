"""The PnP solution as an abstract function of the problem (C07 is where its body is verified)."""
from common import *


def pnp_key(corr, intr, guess=None):
    """an abstract value that depends on the correspondences and the camera (the guess is the code's business)"""
    c = lambda j: corr.at(j)
    mix = summ(corr.length(), lambda j: app("pnpmix", (num(j),) + tuple(c(j).f[k].at(q, 0) for k in ("in_image", "in_target") for q in range(c(j).f[k].r))))
    return app("pnpkey" if intr is not None else "pnpkey3", (corr.length(), mix) + (tuple(intr.f["values"].v) if intr is not None else ()) + (tuple(guess.rows()) if guess is not None else ()))


def pnp_solution(key):
    return pred("pnp_ok", key), iso_rt(rotmat(raa(*[app("pnp_w", (key, num(k))) for k in range(3)])), [app("pnp_t", (key, num(k))) for k in range(3)])


def c_pnp(ip, f, args, this, guess=False):
    """C07: a pose and a flag that depend on the problem only"""
    t = strip_ref(ip.prog.param_types(f)[0])
    if not (t.endswith("PnPProblem") or t.endswith("PnPProblem3D")):
        return NotImplemented
    p = ip.load(args[0])
    key = pnp_key(p.f["correspondences"], p.f.get("intr"), p.f["camera_to_target_guess"] if guess else None)
    ok, T = pnp_solution(key)
    return Struct("rct_optimizations::PnPResult", {"converged": ok, "initial_cost_per_obs": app("pnp_c0", (key,)), "final_cost_per_obs": app("pnp_c1", (key,)), "camera_to_target": T, "covariance": Struct("rct_optimizations::CovarianceResult", {"token": app("pnp_cov", (key,), "I")})})


def c_pnp_g(ip, f, args, this):
    """the same, with the initial guess as part of the problem"""
    return c_pnp(ip, f, args, this, True)


def problem_key(p):
    return pnp_key(p.f["correspondences"], p.f.get("intr"), p.f["camera_to_target_guess"])
