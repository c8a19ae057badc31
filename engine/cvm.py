"""Assumed contracts of OpenCV types as far as the image tools use them: boards are records of what their accessors return."""
from terms import *
from values import *
import lib

H = lib.LIBHOOK


def field(name):
    def h(ip, q, fref, obj, args, node):
        v = ip.load(obj)
        if not isinstance(v, Struct) or name not in v.f:
            return NotImplemented
        return v.f[name]

    return h


for cls in ("cv::aruco::GridBoard", "cv::aruco::CharucoBoard"):
    for acc, name in (("getGridSize", "size"), ("getChessboardSize", "size"), ("getMarkerLength", "markerLength"), ("getMarkerSeparation", "markerSeparation"), ("getSquareLength", "squareLength")):
        H[cls + "::" + acc] = field(name)


def create(names, cls):
    """a board: its dimensions are the arguments, the layout of its points is a function of them (OpenCV's)"""

    def h(ip, q, fref, obj, args, node):
        a = [ip.load(x) for x in args]
        x, y, l1, l2 = [num(v) for v in a[:4]]
        key = (x, y, l1, l2) + tuple(num(v) for v in a[5:])
        f = {"size": Struct("cv::Size_<int>", {"width": x, "height": y}), "dictionary": a[4], names[0]: l1, names[1]: l2}
        p3 = lambda n, *k: Struct("cv::Point3_<float>", {c: app("%s:%s.%s" % (cls, n, c), key + tuple(k)) for c in "xyz"})
        n = app("len:" + cls, key, "I")
        f["ids"] = Seq([Fun(n, lambda k: app("inj:" + cls, (num(k),), "I"))], "int")
        f["objPoints"] = Seq([Fun(n, lambda k: Seq([Fun(num(4), lambda j: p3("obj", num(k), num(j)))], "cv::Point3_<float>"))])
        f["chessboardCorners"] = Seq([Fun(app("len:%s:corners" % cls, key, "I"), lambda k: p3("corner", num(k)))], "cv::Point3_<float>")
        return Ptr(ip.new(Struct(cls, f), "keep:board"))

    return h


H["cv::aruco::GridBoard::create"] = create(("markerLength", "markerSeparation"), "cv::aruco::GridBoard")
H["cv::aruco::CharucoBoard::create"] = create(("squareLength", "markerLength"), "cv::aruco::CharucoBoard")
H["cv::aruco::getPredefinedDictionary"] = lambda ip, q, fref, obj, args, node: app("dictionary", (num(ip.load(args[0])),), "I")


def board(ip, cls, name):
    """an arbitrary board (distinct ids)"""
    p3 = lambda n, *k: Struct("cv::Point3_<float>", {c: app("%s:%s.%s" % (name, n, c), tuple(k)) for c in "xyz"})
    sz = Struct("cv::Size_<int>", {"width": var(name + ".w", "I"), "height": var(name + ".h", "I")})
    n = var("len:" + name + ".ids", "I")
    f = {"size": sz, "dictionary": var(name + ".dict", "I")}
    for k in ("markerLength", "markerSeparation", "squareLength"):
        f[k] = var(name + "." + k)
    f["ids"] = Seq([Fun(n, lambda k: app("inj:%s.ids" % name, (num(k),), "I"))], "int")
    f["objPoints"] = Seq([Fun(n, lambda k: Seq([Fun(app("len:%s.obj" % name, (num(k),), "I"), lambda j: p3("obj", num(k), num(j)))], "cv::Point3_<float>"))])
    f["chessboardCorners"] = Seq([Fun(var("len:%s.corners" % name, "I"), lambda k: p3("corner", num(k)))], "cv::Point3_<float>")
    return Struct(cls, f)


# ---------------------------------------------------------------------------------------------------------------- detection
def target(ip, a):
    """the variable that an output argument refers to"""
    v = ip.load(a)
    return v.f["of"] if isinstance(v, Struct) and v.ty == "cv::ref" else a


def assign(ip, a, v):
    r = target(ip, a)
    ip.store(Ref(r.loc, r.path) if isinstance(r, Ptr) else ip.lval(r), v)


def p2(name, *k):
    return Struct("cv::Point_<float>", {c: app(name + "." + c, tuple(k)) for c in "xy"})


def markers(name):
    """(corners, ids): some markers, each with four corners, no id twice"""
    n = var("len:" + name, "I")
    c = Seq([Fun(n, lambda k: Seq([Fun(num(4), lambda j: p2(name + ":corner", num(k), num(j)))], "cv::Point_<float>"))])
    return c, Seq([Fun(n, lambda k: app("inj:%s:id" % name, (num(k),), "I"))], "int")


def h_detect(ip, q, fref, obj, args, node):
    ip.detect_log = getattr(ip, "detect_log", []) + [[ip.load(a) for a in args]]
    c, i = markers("detected")
    assign(ip, args[2], c)
    assign(ip, args[3], i)
    return None


def h_refine(ip, q, fref, obj, args, node):
    """may add or move markers"""
    ip.refine_log = getattr(ip, "refine_log", []) + [[ip.load(a) for a in args]]
    c, i = markers("refined")
    assign(ip, args[2], c)
    assign(ip, args[3], i)
    return None


def corners():
    n = var("len:charuco", "I")
    return n, Seq([Fun(n, lambda k: p2("charuco:corner", num(k)))], "cv::Point_<float>"), Seq([Fun(n, lambda k: app("inj:charuco:id", (num(k),), "I"))], "int")


def h_charuco(ip, q, fref, obj, args, node):
    ip.charuco_log = getattr(ip, "charuco_log", []) + [[ip.load(a) for a in args]]
    n, c, i = corners()
    assign(ip, args[4], c)
    assign(ip, args[5], i)
    return n


def construct(ip, t, args, A, node):
    if t in ("cv::_InputArray", "cv::_OutputArray", "cv::_InputOutputArray"):
        if not args:
            return NULL
        a = args[0]
        if isinstance(a, Ref):
            return Struct("cv::ref", {"of": Ptr(a.loc, a.path)})
        return A[0] if isinstance(A[0], Struct) and A[0].ty == "cv::ref" else Struct("cv::ref", {"of": A[0]})
    if t == "cv::Mat":
        if not A:
            return Struct(t, {})
        if isinstance(A[0], Struct) and A[0].ty == t:
            return A[0]
        if isinstance(A[0], Seq):
            return Struct(t, {"of": A[0]})
    if t.startswith("cv::Scalar_<"):
        return Arr([num(x) for x in A] + [ZERO] * (4 - len(A)))
    if t == "cv::Rect_<int>":
        if len(A) == 4:
            return Struct(t, dict(zip(("x", "y", "width", "height"), [num(x) for x in A])))
        if len(A) == 2 and "width" in A[1].f:
            return Struct(t, {"x": A[0].f["x"], "y": A[0].f["y"], "width": A[1].f["width"], "height": A[1].f["height"]})
    if t == "cv::KeyPoint" and len(A) >= 2 and isinstance(A[0], Struct) and A[0].ty.startswith("cv::Point_<"):
        rest = [num(x) for x in A[1:]] + [num(-1), ZERO, ZERO, num(-1)][len(A) - 2 :]
        return Struct(t, dict(zip(("pt", "size", "angle", "response", "octave", "class_id"), [A[0]] + rest)))
    if t == "cv::aruco::DetectorParameters":
        return Struct(t, {})
    return NotImplemented


H["cv::aruco::detectMarkers"] = h_detect
H["cv::aruco::refineDetectedMarkers"] = h_refine
H["cv::aruco::interpolateCornersCharuco"] = h_charuco
H["cv::aruco::DetectorParameters::create"] = lambda ip, q, fref, obj, args, node: Ptr(ip.new(Struct("cv::aruco::DetectorParameters", {}), "keep:par"))
# ----------------------------------------------------------------------------------------------------------------- points
def ptype(ip, node):
    import interp

    return interp.clean(ip.tu.types[node["t"]]) if isinstance(node, dict) and "t" in node else ""


def conv(p, t):
    """a point converted to the point type t (to integers by rounding)"""
    if t.endswith("<int>") and not p.ty.endswith("<int>"):
        return Struct(t, {k: app("round", (x,), "I") for k, x in p.f.items()})
    return Struct(t or p.ty, dict(p.f))


def h_conv(ip, q, fref, obj, args, node):
    return conv(ip.load(obj), ptype(ip, node))


def arith(sign):
    def h(ip, q, fref, obj, args, node):
        a = [ip.load(x) for x in ([obj] if obj is not None else []) + list(args)]
        if len(a) != 2 or not all(isinstance(x, Struct) and x.f.keys() == a[0].f.keys() for x in a):
            return NotImplemented
        return Struct(a[0].ty, {k: num(x) + sign * num(a[1].f[k]) for k, x in a[0].f.items()})

    return h


def scale_(ip, q, fref, obj, args, node):
    a = [ip.load(x) for x in ([obj] if obj is not None else []) + list(args)]
    p = [x for x in a if isinstance(x, Struct)]
    c = [x for x in a if isinstance(x, E)]
    if len(a) != 2 or len(p) != 1 or len(c) != 1 or "x" not in p[0].f or p[0].ty.endswith("<int>"):
        return NotImplemented
    return Struct(p[0].ty, {k: x * c[0] for k, x in p[0].f.items()})


def divide_(ip, q, fref, obj, args, node):
    a = [ip.load(x) for x in ([obj] if obj is not None else []) + list(args)]
    if len(a) != 2 or not isinstance(a[0], Struct) or not isinstance(a[1], E) or a[0].ty.endswith("<int>"):
        return NotImplemented
    return Struct(a[0].ty, {k: x / a[1] for k, x in a[0].f.items()})


def assigning(f):
    def h(ip, q, fref, obj, args, node):
        v = f(ip, q, fref, obj, args, node)
        if v is NotImplemented:
            return v
        to = obj if obj is not None else args[0]
        old = ip.load(to)
        ip.store(to, conv(v, old.ty))
        return to

    return h


def h_norm(ip, q, fref, obj, args, node):
    a = ip.load(args[0])
    if len(args) != 1 or not isinstance(a, Struct) or "x" not in a.f:
        return NotImplemented
    return sqrt(sum_(x * x for x in a.f.values()))


def pairwise(f):
    def h(ip, q, fref, obj, args, node):
        a, b = ip.load(obj), ip.load(args[0])
        return f([num(a.f[k]) for k in a.f], [num(b.f[k]) for k in b.f])

    return h


H["cv::Point_::cross"] = pairwise(lambda a, b: a[0] * b[1] - a[1] * b[0])
H["cv::Point_::dot"] = H["cv::Point_::ddot"] = H["cv::Point3_::dot"] = pairwise(lambda a, b: sum_(x * y for x, y in zip(a, b)))
for c in ("cv::Point_", "cv::Point3_"):
    H[c + "::operator Point_"] = H[c + "::operator Point3_"] = h_conv
H["cv::operator-"], H["cv::operator+"], H["cv::operator*"], H["cv::operator/"] = arith(-1), arith(1), scale_, divide_
H["cv::operator-="], H["cv::operator+="], H["cv::operator*="], H["cv::operator/="] = assigning(arith(-1)), assigning(arith(1)), assigning(scale_), assigning(divide_)
H["cv::norm"] = h_norm


def h_contains(ip, q, fref, obj, args, node):
    r, p = ip.load(obj), ip.load(args[0])
    x, y = p.f["x"] - r.f["x"], p.f["y"] - r.f["y"]
    return band(le(0, x), lt(x, r.f["width"]), le(0, y), lt(y, r.f["height"]))


H["cv::Rect_::contains"] = h_contains
H["cv::noArray"] = lambda ip, q, fref, obj, args, node: NULL
