"""C18: writing to and reading from YAML loses nothing."""
from common import *
import yamlm

HARNESS = "c18.cpp"
SOURCES = ["opt:dh_chain.cpp"]
TRUSTED = ["yaml-cpp: a node holds what was assigned to it, undefined entries are refused, numbers are printed and read without loss", "Eigen: quaternion of a rotation and back, Euler angles of a rotation"]
ASSUMPTIONS = ["poses are isometries (their linear part is a rotation)"]
NS = "rct_optimizations::"
TYPES = ["V2", "V3", "Iso", "Intr", "Corr2", "Corr3", "Obs2", "Obs3", "HE2", "HE3", "Res"]
NAMES = {"V2": "2D vector", "V3": "3D vector", "Iso": "pose", "Intr": "intrinsics", "Corr2": "2D-3D correspondence", "Corr3": "3D-3D correspondence", "Obs2": "2D-3D observation", "Obs3": "3D-3D observation", "HE2": "2D-3D hand-eye problem", "HE3": "3D-3D hand-eye problem", "Res": "hand-eye result"}


def skip(name):
    # the labels of a problem and the covariance of a result are not part of the documents
    return name.startswith("label") or name == "covariance"


def prove(ctx):
    prog = ctx.program("drv:c18.cpp", "opt:dh_chain.cpp")

    def fields(v, w, pc, L):
        if isinstance(v, Struct) and isinstance(w, Struct) and any(skip(k) for k in w.f):
            for k in w.f:
                if not skip(k):
                    ctx.obs_eq(L + ": " + k, v.f[k], w.f[k], pc)
            return
        ctx.obs_eq(L, v, w, pc)

    def read(ip, f, node, pre=()):
        return run_entry(ip, f, [node], None, pre)

    def roundtrip(ty):
        L = NAMES[ty]
        ip = ctx.interp(prog, {})
        fe, fd = prog.find(NS + "drvEnc" + ty)[0], prog.find(NS + "drvDec" + ty)[0]
        a = args_of(ip, fe)
        x = ip.load(a[0])
        n = 0
        for p in run_entry(ip, fe, a):
            pc = tuple(p.pc)
            if p.kind == "throw":
                ctx.ob(L + ": every value can be written", pc, "bool", TRUE, FALSE)
                continue
            node = ip.load(p.val.val)
            for q in read(ip, fd, node, pc):
                if q.kind == "throw":
                    ctx.ob(L + ": what was written can be read", tuple(q.pc), "bool", TRUE, FALSE)
                    continue
                n += 1
                fields(ip.load(q.val.val), x, tuple(q.pc), L + ": read back")
            ks = yamlm.keys(node)
            for k in ks:
                part = Struct(yamlm.NODE, {c: v for c, v in node.f.items() if c != k})
                for q in read(ip, fd, part, pc):
                    ctx.ob("%s: a document without %s is refused" % (L, k[2:]), tuple(q.pc), "bool", bconst(q.kind == "throw"), TRUE)
        ctx.ob(L + ": some value is read back", (), "bool", bconst(n > 0), TRUE)

    def N(**kw):
        return Struct(yamlm.NODE, {"k:" + k: (v if yamlm.is_node(v) else Struct(yamlm.NODE, {"scalar": v})) for k, v in kw.items()})

    def joint(i, s=""):
        par = {k: app("doc_" + k + s, (i,)) for k in ("d", "theta", "r", "alpha")}
        t = app("doc_type" + s, (i,), "I")
        return par, t, N(type=t, joint_name=Str(["joint"]), **par)

    def dh():
        L = "DH transform"
        ip = ctx.interp(prog, {})
        f = prog.find(NS + "drvDecDHT")[0]
        par, t, node = joint(ZERO)
        known = bor(eq(t, 0), eq(t, 1))
        for q in read(ip, f, node, (le(0, t),)):
            pc = tuple(q.pc) + (le(0, t),)
            if q.kind == "throw":
                ctx.ob(L + ": only an unknown joint type is refused", pc, "bool", known, FALSE)
                continue
            ctx.ob(L + ": an unknown joint type is refused", pc, "bool", known, TRUE)
            v = ip.load(q.val.val)
            ctx.ob(L + ": joint type", pc, "eq", num(v.f["type"]), t)
            for i, k in enumerate(("d", "theta", "r", "alpha")):
                ctx.ob(L + ": parameter " + k, pc, "eq", v.f["params"].at(i, 0), par[k])
            ctx.ob(L + ": name", pc, "bool", bconst(isinstance(v.f["name"], Str) and v.f["name"].lit() == "joint"), TRUE)
        for k in yamlm.keys(node):
            for q in read(ip, f, Struct(yamlm.NODE, {c: v for c, v in node.f.items() if c != k}), (le(0, t), known)):
                ctx.ob("%s: a document without %s is refused" % (L, k[2:]), tuple(q.pc), "bool", bconst(q.kind == "throw"), TRUE)

    def chain():
        L = "DH chain"
        ip = ctx.interp(prog, {})
        f = prog.find(NS + "drvDecDH")[0]
        n = var("joints", "I")
        base = iso_var("base", ())
        fe = prog.find(NS + "drvEncIso")[0]
        bn = [p for p in run_entry(ip, fe, [Ref(ip.new(base, "base"))])][0]
        node = N(base_transform=ip.load(bn.val.val), dh_transforms=Struct(yamlm.NODE, {"seq": Seq([Fun(n, lambda i: joint(num(i))[2])], yamlm.NODE)}))
        known = lambda i: bor(eq(joint(i)[1], 0), eq(joint(i)[1], 1))
        pre = (le(0, n),)
        for q in read(ip, f, node, pre):
            pc = tuple(q.pc) + pre
            if q.kind == "throw":
                ctx.ob(L + ": only an unknown joint type is refused", pc, "bool", quant("all", n, known), FALSE)
                continue
            ctx.ob(L + ": unknown joint types are refused", pc, "bool", quant("all", n, known), TRUE)
            v = ip.load(q.val.val)
            ctx.obs_eq(L + ": base offset", v.f["base_offset_"], base, pc)
            ts = v.f["transforms_"]
            ctx.ob(L + ": number of joints", pc, "eq", ts.length(), n)
            i = fresh("idx")
            pc += (le(0, i), lt(i, n))
            x = ts.at(i)
            par, t, _ = joint(i)
            ctx.ob(L + ": joint type", pc, "eq", num(x.f["type"]), t)
            for j, k in enumerate(("d", "theta", "r", "alpha")):
                ctx.ob(L + ": joint parameter " + k, pc, "eq", x.f["params"].at(j, 0), par[k])

    for ty in TYPES:
        ctx.run("round trip " + ty, lambda: roundtrip(ty))
    ctx.run("DH transform", dh)
    ctx.run("DH chain", chain)
