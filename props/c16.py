"""C16: homography validation: samplers, the homography of the samples, the errors under it."""
from common import *
import lib as lib_

HARNESS = "c16.cpp"
SOURCES = ["opt:validation/homography_validation.cpp"]
TRUSTED = ["std::shuffle permutes the elements", "Eigen::FullPivLU::solve on a consistent system of full column rank"]
ASSUMPTIONS = [
    "the solution of the linear system is an abstract function of the system (Eigen's LU is trusted); exactness for four points in general position and for samples of a true homography is checked by the bounded harness",
    "indices and sizes are mathematical integers",
]
NS = "rct_optimizations::"
MIN = 4


def prove(ctx):
    prog = ctx.program("opt:validation/homography_validation.cpp")

    def member(cls, name):
        return [f for f in prog.find(NS + cls + "::" + name) if f.get("body")][0]

    def grid():
        L = "grid sampler"
        ip = ctx.interp(prog, {})
        f = member("GridCorrespondenceSampler", "getSampleCorrespondenceIndices")
        r, c, s = [var(x, "I") for x in ("rows", "cols", "stride")]
        this = Struct(NS + "GridCorrespondenceSampler", {"rows": r, "cols": c, "stride": s})
        pre = (le(1, r), le(1, c), le(1, s))
        enough = le(num(2 * MIN), r * c)
        for p in run_entry(ip, f, [], Ref(ip.new(this, "this")), pre):
            pc = tuple(p.pc) + pre
            if p.kind == "throw":
                ctx.ob(L + ": an exception only for fewer than eight points", pc, "bool", enough, FALSE)
                ctx.ob(L + ": the exception is a std::runtime_error", pc, "bool", bconst("runtime_error" in getattr(p.val, "ty", "")), TRUE)
                continue
            ctx.ob(L + ": fewer than eight points are refused", pc, "bool", enough, TRUE)
            v = ip.load(p.val.val)
            ctx.ob(L + ": four indices", pc, "eq", v.length(), num(MIN))
            want = [ZERO, (c - 1) * s, (r - 1) * c * s, (r * c - 1) * s]
            for k in range(MIN):
                ctx.ob(L + ": index %d is that of a corner of the grid" % k, pc, "eq", v.at(num(k)), want[k])

    def ctor():
        L = "random sampler"
        ip = ctx.interp(prog, {})
        f = member("RandomCorrespondenceSampler", "RandomCorrespondenceSampler")
        n, k, sd = var("n", "I"), var("k", "I"), var("seed", "I")
        pre = (le(0, n), le(0, k), le(0, sd))
        good = band(le(num(MIN), k), le(k, n))
        this = ip.new(ip.default_struct(NS + "RandomCorrespondenceSampler"), "this")
        for p in run_entry(ip, f, [n, k, sd], Ref(this), pre):
            pc = tuple(p.pc) + pre
            if p.kind == "throw":
                ctx.ob(L + ": refuses only fewer than four samples or more samples than correspondences", pc, "bool", good, FALSE)
                continue
            ctx.ob(L + ": between four and all correspondences are sampled", pc, "bool", good, TRUE)

    def draw():
        L = "random sampler"
        ip = ctx.interp(prog, {})
        f = member("RandomCorrespondenceSampler", "getSampleCorrespondenceIndices")
        n, k, sd = var("n", "I"), var("k", "I"), var("seed", "I")
        pre = (le(num(MIN), k), le(k, n), le(0, sd))  # established by the constructor (above)
        this = Struct(NS + "RandomCorrespondenceSampler", {"n_correspondences": n, "n_samples": k, "seed": sd})
        for p in run_entry(ip, f, [], Ref(ip.new(this, "this")), pre):
            pc = tuple(p.pc) + pre
            if p.kind == "throw":
                ctx.ob(L + ": never refuses valid numbers", pc, "bool", TRUE, FALSE)
                continue
            v = ip.load(p.val.val)
            ctx.ob(L + ": as many indices as samples", pc, "eq", v.length(), k)
            a, b = fresh("idx"), fresh("idx")
            pc += (le(0, a), lt(a, k), le(0, b), lt(b, k), bnot(eq(a, b)))
            for perm in getattr(ip, "shuffles", []):
                # std::shuffle permutes: instances of its contract for the two positions
                pc += tuple(band(le(0, perm(q)), lt(perm(q), n)) for q in (a, b)) + (bnot(eq(perm(a), perm(b))),)
            ctx.ob(L + ": every index is that of a correspondence", pc, "bool", band(le(0, v.at(a)), lt(v.at(a), n)), TRUE)
            ctx.ob(L + ": no index is drawn twice", pc, "bool", eq(v.at(a), v.at(b)), FALSE)

    def system(cs, idx):
        """the linear equations of the eight unknowns of the homography, two for every sample"""
        n = idx.length()

        def row(i):
            c = cs.at(idx.at(idiv(i, num(2))))
            x, y = c.f["in_target"].at(0, 0), c.f["in_target"].at(1, 0)
            u, v = c.f["in_image"].at(0, 0), c.f["in_image"].at(1, 0)
            even = [-x, -y, -ONE, ZERO, ZERO, ZERO, u * x, u * y]
            odd = [ZERO, ZERO, ZERO, -x, -y, -ONE, v * x, v * y]
            e = eq(imod(i, num(2)), 0)
            return [ite(e, a, b) for a, b in zip(even, odd)], ite(e, -u, -v)

        def pick(i, j, f):
            c = j.const() if hasattr(j, "const") else j
            return f(i)[int(c)]

        A = DMat(n * 2, num(8), lambda i, j: pick(i, j, lambda q: row(q)[0]))
        b = DMat(n * 2, ONE, lambda i, j: row(i)[1])
        return A, b

    def errors2d(cs, idx):
        A, b = system(cs, idx)
        key = lib_.matkey(A) + lib_.matkey(b)
        h = [app("linsolve", key + (num(k), ZERO)) for k in range(8)] + [ONE]

        def err(i):
            c = cs.at(i)
            x, y = c.f["in_target"].at(0, 0), c.f["in_target"].at(1, 0)
            u, v = c.f["in_image"].at(0, 0), c.f["in_image"].at(1, 0)
            q = [h[3 * a] * x + h[3 * a + 1] * y + h[3 * a + 2] for a in range(3)]
            du, dv = u - q[0] / q[2], v - q[1] / q[2]
            return sqrt(du * du + dv * dv)

        return err

    def overload(ty):
        return [x for x in prog.find(NS + "calculateHomographyError") if ty in clean(prog.param_types(x)[0])][0]

    n_s = var("n_samples", "I")
    IDX = Seq([Fun(n_s, lambda k: app("sample", (k,), "I"))], "unsigned long")

    def c_sample(ip, f, args, this):
        """any sampler: an arbitrary list of indices"""
        ip.assume(le(0, n_s)) if hasattr(ip, "assume") else None
        return IDX

    def planar():
        L = "homography error"
        f = overload("Correspondence<2, 3>")
        ip = ctx.interp(prog, {NS + "CorrespondenceSampler::getSampleCorrespondenceIndices": c_sample})
        a = args_of(ip, f)
        cs = ip.load(a[0])
        n = cs.length()
        pre = (le(1, n_s),)
        enough = le(n_s * 2, n)
        err = errors2d(cs, IDX)
        for p in run_entry(ip, f, a, None, pre):
            pc = tuple(p.pc) + pre
            if p.kind == "throw":
                t = getattr(p.val, "ty", "")
                if "out_of_range" in t:
                    continue
                ctx.ob(L + ": an exception only for fewer than two correspondences per sample", pc, "bool", enough, FALSE)
                ctx.ob(L + ": the exception is a std::runtime_error", pc, "bool", bconst("runtime_error" in t), TRUE)
                continue
            ctx.ob(L + ": fewer than two correspondences per sample are refused", pc, "bool", enough, TRUE)
            R = to_dmat(ip.load(p.val.val))
            ctx.ob(L + ": one error per correspondence", pc, "eq", R.r, n)
            i = fresh("idx")
            ctx.ob(L + ": error i is the distance of image point i to the image of target point i under the homography of the samples", pc + (le(0, i), lt(i, n)), "eq", R.cell(i, ZERO), err(i))

    def c_planar(ip, f, args, this):
        """the planar variant (above): an abstract error for every correspondence"""
        if "Correspondence<2, 3>" not in clean(ip.prog.param_types(f)[0]):
            return NotImplemented
        cs = ip.load(args[0])
        ip.planar = cs
        if not ip.branch(pred("enough_for_homography", cs.length())):
            raise ThrowEx(Struct("std::runtime_error", {}))
        return DMat(cs.length(), ONE, lambda i, j: app("herr", (i,)))

    def spatial():
        L = "homography error (3D)"
        f = overload("Correspondence<3, 3>")
        ip = ctx.interp(prog, {NS + "calculateHomographyError": c_planar})
        a = args_of(ip, f)
        cs = ip.load(a[0])
        n = cs.length()
        for p in run_entry(ip, f, a):
            pc = tuple(p.pc)
            if p.kind == "throw":
                ctx.ob(L + ": refuses only what the planar variant refuses", pc, "bool", pred("enough_for_homography", n), FALSE)
                continue
            R = to_dmat(ip.load(p.val.val))
            ctx.ob(L + ": one error per correspondence", pc, "eq", R.r, n)
            i = fresh("idx")
            q = pc + (le(0, i), lt(i, n))
            pl = ip.planar
            ctx.ob(L + ": the planar variant gets every correspondence", pc, "eq", pl.length(), n)
            c, o = pl.at(i), cs.at(i)
            z = o.f["in_image"].at(2, 0)
            nz = q + (bnot(eq(z, 0)),)
            for k in range(2):
                ctx.ob(L + ": planar image point is the perspective projection of the image point (%d)" % k, nz, "eq", c.f["in_image"].at(k, 0), o.f["in_image"].at(k, 0) / z)
            for k in range(3):
                ctx.ob(L + ": planar target point is the target point (%d)" % k, q, "eq", c.f["in_target"].at(k, 0), o.f["in_target"].at(k, 0))
            ctx.ob(L + ": error i is the planar error scaled by the depth of image point i", q, "eq", R.cell(i, ZERO), app("herr", (i,)) * z)

    ctx.run("grid sampler", grid)
    ctx.run("random sampler", ctor)
    ctx.run("drawing", draw)
    ctx.run("planar", planar)
    ctx.run("spatial", spatial)
