"""C02: points are transformed and projected by the stated camera model."""
from common import *

HARNESS = "c02.cpp"
SOURCES = []
OPENCV = True
ASSUMPTIONS = ["projection: the contract speaks about points whose depth is not within 1e-9 of zero"]


def arr_arg(ip, name, n):
    return Ptr(ip.new(Arr([var("%s%d" % (name, i)) for i in range(n)]), "keep:" + name), (), ZERO)


def depth_ok(z):
    return [bor(lt(num(Fraction(1, 10**9)), z), lt(z, num(-Fraction(1, 10**9))))]


def tag(t):
    return "Jet" if "Jet" in t else "double"


def prove(ctx):
    prog = ctx.program("drv:c02.cpp")
    NS = "rct_optimizations::"

    def each(name, fn):
        fs = [f for f in prog.find(NS + name) if "body" in f]
        if not fs:
            ctx.undecided(name, "the function is not there any more")
        for f in fs:
            L = "%s<%s>%s" % (name, tag(" ".join(prog.param_types(f))), " (vector)" if "Matrix" in " ".join(prog.param_types(f)) else "")
            ctx.run(L, lambda: fn(ctx.interp(prog), f, L))

    def returns(L, p):
        if p.kind in ("normal", "return"):
            return True
        ctx.ob(L + ": returns", p.pc, "bool", FALSE, TRUE)
        return False

    def transform(ip, f, L):
        aa, t, pt, out = [arr_arg(ip, n, 3) for n in ("aa", "t", "p", "o")]
        v = lambda q: [var("%s%d" % (q, i)) for i in range(3)]
        R = rotmat(raa(*v("aa")))
        for p in ip.explore(lambda: ip.call_fn(f, [aa, t, pt, out])):
            if returns(L, p):
                for i in range(3):
                    ctx.ob("%s: component %d is (R p + t)" % (L, i), p.pc, "eq", p.mem[out.loc].v[i], sum_(R.at(i, j) * v("p")[j] for j in range(3)) + v("t")[i])

    def poset(ip, f, L):
        P = Struct(NS + "Pose6d", {"values": Arr([var("q%d" % i) for i in range(6)])})
        pt, out = arr_arg(ip, "p", 3), arr_arg(ip, "o", 3)
        q = P.f["values"].v
        R = rotmat(raa(*q[:3]))
        for p in ip.explore(lambda: ip.call_fn(f, [Ref(ip.new(P, "keep:pose")), pt, out])):
            if returns(L, p):
                for i in range(3):
                    ctx.ob("%s: component %d is (R p + t)" % (L, i), p.pc, "eq", p.mem[out.loc].v[i], sum_(R.at(i, j) * var("p%d" % j) for j in range(3)) + q[3 + i])

    def project(ip, f, L):
        intr = sym(ip, NS + "CameraIntrinsics", "intr")
        c = [var("p%d" % i) for i in range(3)]
        want = pix(intr, c)
        I = Ref(ip.new(intr, "keep:intr"))
        vec = "Matrix" in prog.param_types(f)[1]
        out = arr_arg(ip, "o", 2)
        a = [I, Ref(ip.new(Mat(3, 1, c), "keep:p"))] if vec else [I, arr_arg(ip, "p", 3), out]
        for j, p in enumerate(ip.explore(lambda: ip.call_fn(f, a))):
            if returns(L, p):
                got = [p.val.at(k, 0) for k in range(2)] if vec else p.mem[out.loc].v
                for k in range(2):
                    ctx.ob("%s: %s = f * %s/z + c (path %d)" % (L, "uv"[k], "xy"[k], j), tuple(p.pc) + tuple(depth_ok(c[2])), "eq", got[k], want[k])

    def reproj():
        ip = ctx.interp(prog)
        f = prog.find("rct_image_tools::getReprojections")[0]
        ty = prog.param_types(f)
        T, intr, pts = iso_var("T"), sym(ip, NS + "CameraIntrinsics", "intr"), sym(ip, ty[2], "pts")
        L = "getReprojections"
        for j, p in enumerate(ip.explore(lambda: ip.call_fn(f, [Ref(ip.new(T, "keep:T")), Ref(ip.new(intr, "keep:intr")), Ref(ip.new(pts, "keep:pts"))]))):
            if not returns(L, p):
                continue
            ctx.ob(L + ": one pixel per point", p.pc, "eq", p.val.length(), pts.length())
            i = fresh("i", "I")
            q = T.apply([pts.at(i).at(k, 0) for k in range(3)])
            w = pix(intr, q)
            facts = tuple(p.pc) + (lt(i, pts.length()),) + tuple(depth_ok(q[2]))
            e = p.val.at(i)
            ctx.ob(L + ": u of point i", facts, "eq", e.f["x"], w[0])
            ctx.ob(L + ": v of point i", facts, "eq", e.f["y"], w[1])

    each("transformPoint", transform)
    each("poseTransformPoint", poset)
    each("projectPoint", project)
    ctx.run("getReprojections", reproj)
