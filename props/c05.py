"""C05: static cameras, static target at several poses."""
from common import *
import multicam

HARNESS = "c05.cpp"
SOURCES = ["opt:extrinsic_multi_static_camera_only.cpp", "opt:covariance_analysis.cpp", "opt:eigen_conversions.cpp"]
ASSUMPTIONS = ["the per-camera and per-pose vectors of the problem have matching lengths (interface documentation)"]


def build(ip, prm, res):
    F = prm.f
    tgt = lambda i, c, j: [F["image_observations"].at(c).at(i).at(j).f["in_target"].at(k, 0) for k in range(3)]
    R = (lambda c: res.f["base_to_camera"].at(c), lambda i: res.f["base_to_target"].at(i))
    R0 = (lambda c: F["base_to_camera_guess"].at(c), lambda i: F["base_to_target_guess"].at(i))
    n, m = F["base_to_camera_guess"].length(), F["base_to_target_guess"].length()
    fx = F["fix_first_camera"] if isinstance(F["fix_first_camera"], B) else bnot(eq(F["fix_first_camera"], 0))
    fixed = lambda i, c, j: band(fx, eq(c, 0))
    return dict(
        bounds=[m, n, lambda i, c: F["image_observations"].at(c).at(i).length()],
        corr=lambda i, c, j: F["image_observations"].at(c).at(i).at(j),
        intr=lambda i, c, j: F["intr"].at(c),
        point=lambda R, i, c, j: R[0](c).inv().apply(R[1](i).apply(tgt(i, c, j))),
        R=R,
        R0=R0,
        groups=[dict(name="free camera", when=lambda i, c, j: bnot(fixed(i, c, j))), dict(name="fixed camera", when=fixed)],
        lengths=[("one camera pose per camera", res.f["base_to_camera"].length(), n), ("one target pose per pose", res.f["base_to_target"].length(), m)],
        values=[("the fixed first camera keeps its guess", (fx, lt(0, n)), lambda facts: resolved(res.f["base_to_camera"].at(0), facts), lambda facts: F["base_to_camera_guess"].at(0))],
    )


def assume(prm):
    F = prm.f
    n, m = F["base_to_camera_guess"].length(), F["base_to_target_guess"].length()
    return (eq(F["intr"].length(), n), eq(F["image_observations"].length(), n), bnot(quant("ex", n, lambda c: bnot(eq(F["image_observations"].at(c).length(), m)))))


def prove(ctx):
    ctx.run("optimize", lambda: multicam.run_one(ctx, SOURCES[0], "StaticCameraOnlyProblem", "static cameras", build, assume))
