"""C08: multi-camera PnP."""
from common import *
import multicam

HARNESS = "c08.cpp"
SOURCES = ["opt:multi_camera_pnp.cpp", "opt:covariance_analysis.cpp", "opt:eigen_conversions.cpp"]
ASSUMPTIONS = ["the per-camera vectors of the problem have the same length (interface documentation)"]


def build(ip, prm, res):
    F = prm.f
    tgt = lambda c, i: [F["image_observations"].at(c).at(i).f["in_target"].at(k, 0) for k in range(3)]
    return dict(
        bounds=[F["base_to_camera"].length(), lambda c: F["image_observations"].at(c).length()],
        corr=lambda c, i: F["image_observations"].at(c).at(i),
        intr=lambda c, i: F["intr"].at(c),
        point=lambda R, c, i: F["base_to_camera"].at(c).inv().apply(R.apply(tgt(c, i))),
        R=res.f["base_to_target"],
        R0=F["base_to_target_guess"],
    )


def assume(prm):
    n = prm.f["base_to_camera"].length()
    return (eq(prm.f["intr"].length(), n), eq(prm.f["image_observations"].length(), n))


def prove(ctx):
    ctx.run("optimize", lambda: multicam.run_one(ctx, "opt:multi_camera_pnp.cpp", "MultiCameraPnPProblem", "multi-camera PnP", build, assume))
