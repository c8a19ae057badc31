"""C04: static cameras, moving target."""
from common import *
import multicam

HARNESS = "c04.cpp"
SOURCES = ["opt:extrinsic_multi_static_camera.cpp", "opt:covariance_analysis.cpp", "opt:eigen_conversions.cpp"]
ASSUMPTIONS = ["the per-camera and per-image vectors of the problem have matching lengths (interface documentation)"]


def build(ip, prm, res):
    F = prm.f
    tgt = lambda c, i, j: [F["image_observations"].at(c).at(i).at(j).f["in_target"].at(k, 0) for k in range(3)]
    R = (lambda c: res.f["base_to_camera"].at(c), res.f["wrist_to_target"])
    R0 = (lambda c: F["base_to_camera_guess"].at(c), F["wrist_to_target_guess"])
    n = F["base_to_camera_guess"].length()
    return dict(
        bounds=[n, lambda c: F["wrist_poses"].at(c).length(), lambda c, i: F["image_observations"].at(c).at(i).length()],
        corr=lambda c, i, j: F["image_observations"].at(c).at(i).at(j),
        intr=lambda c, i, j: F["intr"].at(c),
        point=lambda R, c, i, j: R[0](c).inv().apply(F["wrist_poses"].at(c).at(i).apply(R[1].apply(tgt(c, i, j)))),
        R=R,
        R0=R0,
        lengths=[("one camera pose per camera", res.f["base_to_camera"].length(), n)],
        poses=[((R[0], n), F["label_base_to_camera"]), ([R[1], R[1].inv()], F["label_wrist_to_target"])],
    )


def assume(prm):
    F = prm.f
    n = F["base_to_camera_guess"].length()
    return (eq(F["intr"].length(), n), eq(F["image_observations"].length(), n), eq(F["wrist_poses"].length(), n), bnot(quant("ex", n, lambda c: bnot(eq(F["image_observations"].at(c).length(), F["wrist_poses"].at(c).length())))))


def prove(ctx):
    ctx.run("optimize", lambda: multicam.run_one(ctx, SOURCES[0], "MovingTargetProblem", "moving target", build, assume))
