"""C17: back-projection onto the target plane and the 3D projection error."""
from common import *

HARNESS = "c17.cpp"
SOURCES = ["opt:validation/projection.cpp"]
ASSUMPTIONS = ["project3D: the camera matrix has the pinhole form (fx, skew, cx; 0, fy, cy; 0, 0, 1) with fx, fy nonzero, as at its call sites"]
NS = "rct_optimizations::"
EPS = Fraction(1e-6)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def v3(m):
    return [m.at(i, 0) if m.c == 1 else m.at(0, i) for i in range(3)]


def c_intersect(ip, f, args, this):
    """C17: a parallel line is refused; otherwise the point of the line in the plane"""
    a = [ip.load(x) for x in args]
    n, p, l, o = [v3(x) for x in a[:4]]
    dp = dot(l, n)
    if ip.branch(lt(eabs(dp), a[4])):
        raise ThrowEx(Struct("std::runtime_error", {}))
    d = dot([p[k] - o[k] for k in range(3)], n) / dp
    return Mat(3, 1, [o[k] + l[k] * d for k in range(3)])


def prove(ctx):
    prog = ctx.program("opt:validation/projection.cpp")

    def entry(name, contracts, pick=None, args=None):
        f = [x for x in prog.find(NS + name) if pick is None or pick(prog.param_types(x))][0]
        ip = ctx.interp(prog, contracts)
        a = args_of(ip, f) if args is None else args(ip, f)
        return ip, f, [ip.load(x) for x in a], run_entry(ip, f, a)

    def intersection():
        L = "computeLinePlaneIntersection"
        ip, f, a, ps = entry(L, {})
        n, p, l, o = [v3(x) for x in a[:4]]
        par = lt(eabs(dot(l, n)), a[4])
        for q in ps:
            if q.kind == "throw":
                ctx.ob(L + ": throws only for a line parallel to the plane", q.pc, "bool", par, TRUE)
                ctx.ob(L + ": throws std::runtime_error", q.pc, "bool", bconst(q.val.ty == "std::runtime_error"), TRUE)
                continue
            x = v3(ip.load(q.val.val))
            pc = tuple(q.pc) + (lt(0, a[4]),)
            ctx.ob(L + ": refuses a line parallel to the plane", q.pc, "bool", par, FALSE)
            ctx.ob(L + ": the point lies on the plane", pc, "eq", dot([x[k] - p[k] for k in range(3)], n), ZERO)
            for k, (i, j) in enumerate(((1, 2), (2, 0), (0, 1))):
                ctx.ob(L + ": the point lies on the line (%d)" % k, pc, "eq", (x[i] - o[i]) * l[j], (x[j] - o[j]) * l[i])

    ctx.run("intersection", intersection)

    def pinhole(name):
        f = [var("%s.%s" % (name, x)) for x in ("fx", "skew", "cx", "fy", "cy")]
        return f, Mat(3, 3, [f[0], f[1], f[2], ZERO, f[3], f[4], ZERO, ZERO, ONE])

    def ray(k, u, v):
        """viewing direction of a pixel: K times it is (u, v, 1)"""
        y = (v - k[4]) / k[3]
        return [(u - k[2] - k[1] * y) / k[0], y, ONE]

    def parallel(T, d):
        nrm = sqrt(dot(d, d))
        n = [T.lin().at(i, 2) for i in range(3)]
        return lt(eabs(dot(d, n) / nrm), num(EPS))

    def projection():
        L = "project3D"
        k, K = pinhole("k")
        f = prog.find(NS + L)[0]
        ip = ctx.interp(prog, {NS + "computeLinePlaneIntersection": c_intersect})
        S, T = sym(ip, prog.param_types(f)[0], "source"), iso_var("T", ())
        ps = run_entry(ip, f, [Ref(ip.new(x, "arg")) for x in (S, T, K)], None, (bnot(eq(k[0], 0)), bnot(eq(k[3], 0))))
        n = S.r
        dirn = lambda i: ray(k, S.cell(i, ZERO), S.cell(i, ONE))
        par = quant("ex", n, lambda i: parallel(T, dirn(i)))
        ok = 0
        for q in ps:
            if q.kind == "throw":
                ctx.ob(L + ": throws only for a viewing ray parallel to the plane", q.pc, "bool", par, TRUE)
                ctx.ob(L + ": throws std::runtime_error", q.pc, "bool", bconst(q.val.ty == "std::runtime_error"), TRUE)
                continue
            ok += 1
            R = to_dmat(ip.load(q.val.val))
            pc = tuple(q.pc) + (bnot(eq(k[0], 0)), bnot(eq(k[3], 0)))
            ctx.ob(L + ": refuses a viewing ray parallel to the plane", pc, "bool", par, FALSE)
            ctx.ob(L + ": one point per pixel", pc, "eq", R.r, n)
            i = fresh("idx")
            pc += (le(0, i), lt(i, n), bnot(parallel(T, dirn(i))))
            x = [R.cell(i, num(j)) for j in range(3)]
            ctx.ob(L + ": the point lies on the plane", pc, "eq", x[2], ZERO)
            c = T.apply(x)
            d = dirn(i)
            for j, (a, b) in enumerate(((1, 2), (2, 0), (0, 1))):
                ctx.ob(L + ": the point lies on the viewing ray (%d)" % j, pc, "eq", c[a] * d[b], c[b] * d[a])
            nz = pc + (bnot(eq(c[2], 0)),)
            ctx.ob(L + ": projecting the point gives the pixel (u)", nz, "eq", (k[0] * c[0] + k[1] * c[1]) / c[2] + k[2], S.cell(i, ZERO))
            ctx.ob(L + ": projecting the point gives the pixel (v)", nz, "eq", k[3] * c[1] / c[2] + k[4], S.cell(i, ONE))
        ctx.ob(L + ": some input yields a result", (), "bool", bconst(ok > 0), TRUE)

    ctx.run("projection", projection)

    def bkey(K, T, u, v):
        """back-projection is a function of the matrix, the pose and the pixel"""
        return tuple(K.at(i, j) for i in range(3) for j in range(3)) + tuple(T.rows()) + (u, v)

    def pixel(c):
        return c.f["in_image"].at(0, 0), c.f["in_image"].at(1, 0)

    def refused(a, o):
        K, T, cs = matrix(a[1]), pose(o, a), o.f["correspondence_set"]
        return quant("ex", cs.length(), lambda i: pred("backproject_parallel", *bkey(K, T, *pixel(cs.at(i)))))

    def c_project(ip, f, args, this):
        """C17 (project3D above): refuses parallel rays, else row i is the back-projection of pixel i with this pose and matrix"""
        S, T, K = [ip.load(x) for x in args]
        ip.proj_log.append((S, T, K))
        if ip.branch(quant("ex", S.r, lambda i: pred("backproject_parallel", *bkey(K, T, S.cell(i, ZERO), S.cell(i, ONE))))):
            raise ThrowEx(Struct("std::runtime_error", {}))
        return DMat(S.r, num(3), lambda i, j: app("backproject", bkey(K, T, S.cell(i, ZERO), S.cell(i, ONE)) + (j,)))

    def matrix(intr):
        v = intr.f["values"].v
        return Mat(3, 3, [v[0], ZERO, v[2], ZERO, v[1], v[3], ZERO, ZERO, ONE])

    def pose(o, a):
        return a[2].inv() * o.f["to_camera_mount"].inv() * o.f["to_target_mount"] * a[3]

    def err(o, a, i):
        c = o.f["correspondence_set"].at(i)
        K, T = matrix(a[1]), pose(o, a)
        b = [app("backproject", bkey(K, T, *pixel(c)) + (num(j),)) for j in range(3)]
        d = [c.f["in_target"].at(j, 0) - b[j] for j in range(3)]
        return sqrt(dot(d, d))

    def error():
        L = "compute3DProjectionError"
        f = [x for x in prog.find(NS + L) if "vector" not in clean(prog.param_types(x)[0])][0]
        ip = ctx.interp(prog, {NS + "project3D": c_project})
        a = args_of(ip, f)
        ip.proj_log = []
        ps = run_entry(ip, f, a)
        a = [ip.load(x) for x in a]
        cs = a[0].f["correspondence_set"]
        n = cs.length()
        for q in ps:
            if q.kind == "throw":
                ctx.ob(L + ": refuses only what the back-projection refuses", q.pc, "bool", refused(a, a[0]), TRUE)
                continue
            R = to_dmat(ip.load(q.val.val))
            ctx.ob(L + ": one error per correspondence", q.pc, "eq", R.r, n)
            i = fresh("idx")
            ctx.ob(L + ": error i is the distance of the back-projected image point i to target point i", tuple(q.pc) + (le(0, i), lt(i, n)), "eq", R.cell(i, ZERO), err(a[0], a, i))

    def c_error(ip, f, args, this):
        """C17 (one observation, above)"""
        if "vector" in clean(ip.prog.param_types(f)[0]):
            return NotImplemented
        a = [ip.load(x) for x in args]
        n = a[0].f["correspondence_set"].length()
        if ip.branch(refused(a, a[0])):
            raise ThrowEx(Struct("std::runtime_error", {}))
        return DMat(n, ONE, lambda i, j: err(a[0], a, i))

    def error_set():
        L = "compute3DProjectionError(set)"
        f = [x for x in prog.find(NS + "compute3DProjectionError") if "vector" in clean(prog.param_types(x)[0])][0]
        ip = ctx.interp(prog, {NS + "compute3DProjectionError": c_error})
        a = args_of(ip, f)
        ps = run_entry(ip, f, a)
        a = [ip.load(x) for x in a]
        obs = a[0]
        want = Seq([Gen(obs.length(), lambda o: Seq([Fun(obs.at(o).f["correspondence_set"].length(), lambda i: err(obs.at(o), a, i))]))])
        for q in ps:
            if q.kind == "throw":
                ctx.ob(L + ": refuses only what the back-projection refuses", q.pc, "bool", quant("ex", obs.length(), lambda o: refused(a, obs.at(o))), TRUE)
                continue
            R = to_dmat(ip.load(q.val.val))
            ctx.ob(L + ": one error per correspondence", q.pc, "eq", R.r, want.length())
            p = fresh("idx")
            ctx.ob(L + ": the errors of the observations one after the other, in order", tuple(q.pc) + (le(0, p), lt(p, want.length())), "eq", R.cell(p, ZERO), want.at(p))

    ctx.run("error", error)
    ctx.run("error of a set", error_set)
