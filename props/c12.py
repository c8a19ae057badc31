"""C12: forward kinematics of DH chains."""
from common import *

HARNESS = "c12.cpp"
SOURCES = ["opt:dh_chain.cpp"]
NS = "rct_optimizations::"
ASSUMPTIONS = ["a std::uniform_real_distribution(a, b) returns a value in [a, b)"]
LIN, REV = 0, 1


def rot(axis, t):
    return lib.rot_axis(axis, t) if hasattr(lib, "rot_axis") else rotmat(raa(*[t if k == axis else ZERO for k in range(3)]))


def link(params, ty, q, off):
    """Trans_z(d) Rot_z(theta) Trans_x(r) Rot_x(alpha), the joint value added to d or theta"""
    d, th, r, al = [params[k] + off[k] for k in range(4)]
    d = d + ite(eq(ty, LIN), q, ZERO)
    th = th + ite(eq(ty, LIN), ZERO, q)
    I = rotmat(ID)
    return iso_rt(I, [ZERO, ZERO, d]) * iso_rt(rot(2, th), [ZERO] * 3) * iso_rt(I, [r, ZERO, ZERO]) * iso_rt(rot(0, al), [ZERO] * 3)


def valid(ty):
    return bor(eq(ty, LIN), eq(ty, REV))


def prove(ctx):
    prog = ctx.program("drv:c12.cpp", "opt:dh_chain.cpp")
    ip = ctx.interp(prog, {})

    def entry(n, **kw):
        f = prog.find(NS + n)[0]
        a = args_of(ip, f)
        return [ip.load(x) for x in a], run_entry(ip, f, a)

    pv = lambda t: [t.f["params"].at(k, 0) for k in range(4)]

    def relative(n):
        L = "createRelativeTransform" + ("" if n == "drvRelative" else " without offsets")
        v, paths = entry(n)
        t, q = v[0], v[1]
        off = [v[2].at(0, k) for k in range(4)] if len(v) > 2 else [ZERO] * 4
        for p in paths:
            if p.kind == "throw":
                ctx.ob(L + ": throws only for an unknown joint type", p.pc, "bool", valid(t.f["type"]), FALSE)
                continue
            ctx.obs_eq(L, p.val.val, link(pv(t), t.f["type"], q, off), tuple(p.pc) + (valid(t.f["type"]),))

    def fk(n):
        L = "getFK" + ("" if n == "drvFK" else " with offsets")
        v, paths = entry(n)
        ch, q = v[0], to_dmat(v[1])
        ts = ch.f["transforms_"]
        off = to_dmat(v[2]) if len(v) > 2 else None
        many = lt(ts.length(), q.r)
        few = lt(off.r, q.r) if off is not None else FALSE
        o = lambda i: [off.cell(i, num(k)) for k in range(4)] if off is not None else [ZERO] * 4
        bad = quant("ex", q.r, lambda i: bnot(valid(ts.at(i).f["type"])))
        for p in paths:
            if p.kind == "throw":
                ctx.ob(L + ": throws only for too many joint values or too few rows of offsets (or an unknown joint type)", p.pc, "bool", bor(many, few, bad), TRUE)
                continue
            pc = tuple(p.pc)
            ctx.ob(L + ": refuses too many joint values", pc, "bool", many, FALSE)
            ctx.ob(L + ": refuses too few rows of offsets", pc, "bool", few, FALSE)
            want = ch.f["base_offset_"] * iso_fold(q.r, lambda i: link(pv(ts.at(i)), ts.at(i).f["type"], q.cell(i, ZERO), o(i)))
            ctx.obs_eq(L, p.val.val, want, pc)

    def chain():
        L = "DHChain(transforms, base)"
        v, paths = entry("drvChain")
        for p in paths:
            ctx.ob(L + ": no exception", p.pc, "bool", bconst(p.kind != "throw"), TRUE)
            if p.kind != "throw":
                ctx.obs_eq(L + ": the transforms", p.val.val.f["transforms_"], v[0], p.pc)
                ctx.obs_eq(L + ": the base offset", p.val.val.f["base_offset_"], v[1], p.pc)

    def offset():
        L = "DHChain(other, offsets)"
        v, paths = entry("drvOffset")
        ch, off = v[0], to_dmat(v[1])
        ts = ch.f["transforms_"]
        enough = eq(off.r, ts.length())
        for p in paths:
            pc = tuple(p.pc) + (enough,)
            ctx.ob(L + ": no exception", pc, "bool", bconst(p.kind != "throw"), TRUE)
            if p.kind == "throw":
                continue
            o = p.val.val
            ctx.obs_eq(L + ": the base offset is kept", o.f["base_offset_"], ch.f["base_offset_"], pc)
            ctx.ob(L + ": number of joints", pc, "eq", o.f["transforms_"].length(), ts.length())
            i = fresh("idx")
            pi = pc + (lt(i, ts.length()),)
            a, b = o.f["transforms_"].at(i), ts.at(i)
            for k in range(4):
                ctx.ob(L + ": parameter %d of joint i is the old one plus its offset" % k, pi, "eq", pv(a)[k], pv(b)[k] + off.cell(i, num(k)))
            for k in ("type", "min", "max", "name"):
                ctx.obs_eq(L + ": %s of joint i is kept" % k, a.f[k], b.f[k], pi)

    def rnd():
        L = "createUniformlyRandomPose"
        v, paths = entry("drvRandom")
        ts = v[0].f["transforms_"]
        for p in paths:
            ctx.ob(L + ": no exception", p.pc, "bool", bconst(p.kind != "throw"), TRUE)
            if p.kind == "throw":
                continue
            q = to_dmat(p.val.val)
            ctx.ob(L + ": one value per joint", p.pc, "eq", q.r, ts.length())
            i = fresh("idx")
            pi = tuple(p.pc) + (lt(i, ts.length()), le(ts.at(i).f["min"], ts.at(i).f["max"]))
            ctx.ob(L + ": not below the joint's minimum", pi, "bool", le(ts.at(i).f["min"], q.cell(i, ZERO)), TRUE)
            ctx.ob(L + ": not above the joint's maximum", pi, "bool", le(q.cell(i, ZERO), ts.at(i).f["max"]), TRUE)

    def getter(name, spec):
        def go():
            for f in prog.find(NS + "DHChain::" + name):
                this = sym(ip, NS + "DHChain", "chain")
                a = args_of(ip, f)
                paths = run_entry(ip, f, a, Ref(ip.new(this, "this")))
                for p in paths:
                    spec(name, this, [ip.load(x) for x in a], p)
        return go

    def s_dof(L, c, a, p):
        ctx.ob(L, p.pc, "eq", p.val.val, c.f["transforms_"].length())

    def s_table(L, c, a, p):
        t = to_dmat(p.val.val)
        ts = c.f["transforms_"]
        ctx.ob(L + ": rows", p.pc, "eq", t.r, ts.length())
        ctx.ob(L + ": columns", p.pc, "eq", t.c, num(4))
        i = fresh("idx")
        for k in range(4):
            ctx.ob(L + ": column %d of row i" % k, tuple(p.pc) + (lt(i, ts.length()),), "eq", t.cell(i, num(k)), pv(ts.at(i))[k])

    def s_types(L, c, a, p):
        ts = c.f["transforms_"]
        ctx.obs_eq(L, p.val.val, Seq([Fun(ts.length(), lambda i: ts.at(i).f["type"])]), p.pc)

    def s_base(L, c, a, p):
        ctx.obs_eq(L, p.val.val, c.f["base_offset_"], p.pc)

    def s_labels(L, c, a, p):
        ts = c.f["transforms_"]
        ctx.obs_eq(L, p.val.val, Seq([Fun(ts.length(), lambda i: Arr([lib.to_str(ts.at(i).f["name"]) + Str([x]) for x in ("_d", "_theta", "_r", "_alpha")]))]), p.pc)

    def s_rel(L, c, a, p):
        ts = c.f["transforms_"]
        inr = band(le(0, a[0]), lt(a[0], ts.length()))
        if p.kind == "throw":
            ctx.ob(L + ": throws only for an index out of range (or an unknown joint type)", p.pc, "bool", band(inr, valid(ts.at(a[0]).f["type"])), FALSE)
            return
        ctx.ob(L + ": refuses an index out of range", p.pc, "bool", inr, TRUE)
        t = ts.at(a[0])
        ctx.obs_eq(L, p.val.val, link(pv(t), t.f["type"], a[1], [ZERO] * 4), tuple(p.pc) + (valid(t.f["type"]),))

    for n in ("drvRelative", "drvRelative0"):
        ctx.run(n, lambda: relative(n))
    for n in ("drvFK", "drvFKOffsets"):
        ctx.run(n, lambda: fk(n))
    ctx.run("chain", chain)
    ctx.run("offsets", offset)
    ctx.run("random", rnd)
    for n, s in (("dof", s_dof), ("getDHTable", s_table), ("getJointTypes", s_types), ("getParamLabels", s_labels), ("getBaseOffset", s_base), ("getRelativeTransform", s_rel)):
        ctx.run(n, getter(n, s))
