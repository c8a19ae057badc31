"""Contracts of callees that several properties use (each is discharged in the property named in its docstring)."""
from terms import *
from values import *
from interp import *
import lib, prove
from spec import *
from optim import *


def c_poseCalToEigen(ip, f, args, this):
    """C01: the isometry with rotation exp([rx ry rz]) and translation [x y z]"""
    p = ip.load(args[0]).f["values"].v
    return iso_rt(rotmat(raa(p[0], p[1], p[2])), p[3:6])


def c_poseEigenToCal(ip, f, args, this):
    """C01: an angle-axis vector whose exponential is the rotation, followed by the translation"""
    T = ip.load(args[0])
    L = T.lin()
    if L.rot is None:
        raise Unsupported("logarithm of a matrix that is not known to be a rotation")
    w = [app("aangle", (L.rot,)) * app("aaxis", (L.rot, k)) for k in range(3)]
    return Struct("rct_optimizations::Pose6d", {"values": Arr(w + list(T.trans()))})


def c_computeCovariance(ip, f, args, this):
    """C11: recorded; the result is an abstract token that depends on the call"""
    n = len(ip.cov_log)
    a = [ip.load(x) for x in args]
    # distinguish the overloads by their parameter types
    pt = ip.prog.param_types(f)
    ent = {"n": n, "blocks": None, "labels": None, "masks": None}
    for t, v in zip(pt[1:], a[1:]):
        if "std::vector<const double *" in clean(t) and "map" not in clean(t):
            ent["blocks"] = v
        elif "basic_string" in t or "std::string" in t:
            ent["labels"] = v
        elif "std::map" in t:
            ent["masks"] = v
    ip.cov_log.append(ent)
    return Struct("rct_optimizations::CovarianceResult", {"token": num(n) + var("covtoken", "I")})


POSE = {
    "rct_optimizations::poseCalToEigen": c_poseCalToEigen,
    "rct_optimizations::poseEigenToCal": c_poseEigenToCal,
}
OPT = dict(POSE)
OPT["rct_optimizations::computeCovariance"] = c_computeCovariance


def pix(intr, p):
    """pinhole projection with the values (fx, fy, cx, cy)"""
    k = intr.f["values"].v
    return [k[0] * p[0] / p[2] + k[2], k[1] * p[1] / p[2] + k[3]]


def apply(T, p):
    """isometry (or 4x4 rows) applied to a 3-vector (list of 3)"""
    m = T * Mat(3, 1, list(p)) if isinstance(p, (list, tuple)) else T * p
    return [m.at(i, 0) for i in range(3)]


def args_of(ip, f, names=None):
    return [Ref(ip.new(sym(ip, t, nn["n"]), "arg")) for t, nn in zip(ip.prog.param_types(f), f["params"])]


def where(f):
    return "%s:%s" % (f["tu"].name if hasattr(f["tu"], "name") else "", f.get("line", ""))


def problem_arg(ip, f, k=0, labels_default=True):
    """arbitrary problem struct; its label fields have their default values"""
    t = ip.prog.param_types(f)[k]
    v = sym(ip, t, f["params"][k]["n"])
    if labels_default:
        d = ip.default_struct(v.ty)
        v = Struct(v.ty, {n: (d.f[n] if n.startswith("label") else x) for n, x in v.f.items()})
    return v


def optimise_fn(prog, ptype):
    fs = [f for f in prog.find("rct_optimizations::optimize") if any(strip_ref(t).endswith(ptype) for t in prog.param_types(f))]
    if not fs:
        raise Unsupported("no function optimize(%s)" % ptype)
    return fs[0]


def strip_ref(t):
    return clean(t).replace("&", "").replace("const ", "").strip()


def fixed_paths(ctx, label, paths, where=""):
    """normal paths; every other outcome is reported as an obligation by the caller"""
    return [p for p in paths if p.kind in ("normal", "return")], [p for p in paths if p.kind == "throw"]
