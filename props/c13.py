"""C13: residuals of the kinematic calibration."""
from common import *
import lib as lib_
from terms import show_atom

HARNESS = "c13.cpp"
SOURCES = ["opt:dh_chain.cpp"]
NS = "rct_optimizations::"
ASSUMPTIONS = [
    "the solver passes the blocks in the order of constructParameters, the DH blocks with one row of offsets per joint",
    "ceres::AngleAxisToRotationMatrix is the exact rotation (Ceres uses the first-order expansion below |aa|^2 = 2.2e-16); derivatives of the residuals are only in the bounded harness",
]


def get_item(arr, k):
    return arr.at(num(k)) if isinstance(arr, Seq) else arr.v[k]


def prove(ctx):
    prog = ctx.program("drv:c13.cpp", "opt:dh_chain.cpp")
    NAMES = ["co", "to", "cp", "ca", "tp", "ta", "bp", "ba"]

    log = {"fk": [], "px": []}

    def c_fk(ip, f, args, this):
        """flange pose of a chain (verified in C12), here any isometry; the arguments are compared below"""
        a = [ip.load(x) for x in args]
        if len(a) < 2:
            raise Unsupported("getFK without offsets")
        ts = ip.load(this).f["transforms_"]
        k = the_atom(ts.length())
        name = show_atom(k) if k else ""
        which = "camera" if ":cc." in name else "target" if ":tc." in name else None
        if which is None:
            raise Unsupported("kinematics of another chain: " + name)
        log["fk"].append((which, tuple(ip.pc), ip.load(this), to_dmat(a[0]), to_dmat(a[1])))
        return iso_var("flange:" + which)

    def c_px(ip, f, args, this):
        """pinhole projection (verified in C02); intrinsics and point are compared below"""
        if len(args) != 2:
            return NotImplemented
        log["px"].append((tuple(ip.pc), ip.load(args[0]), ip.load(args[1])))
        return Mat(2, 1, [var("pixel.x"), var("pixel.y")])

    def setup(n, con=None):
        ip = ctx.interp(prog, con or {})
        f = prog.find(NS + n)[0]
        a = args_of(ip, f)
        v = dict(zip([q["n"] for q in f["params"]], [ip.load(x) for x in a]))
        log["fk"], log["px"] = [], []
        return ip, f, a, v

    CON = {NS + "DHChain::getFK": c_fk, NS + "projectPoint": c_px}

    def camera_to_target(v):
        C, T = iso_var("flange:camera"), iso_var("flange:target")
        A = lambda t, r: iso_rt(rotmat(raa(*[v[r].at(k, 0) for k in range(3)])), [v[t].at(k, 0) for k in range(3)])
        return (C * A("cp", "ca")).inv() * (A("bp", "ba") * T * A("tp", "ta"))

    def chains(L, v, cq, tq):
        """the flange poses are those of the chains for their own joint values and their own offsets"""
        rows = (eq(to_dmat(v["co"]).r, v["cc"].f["transforms_"].length()), eq(to_dmat(v["to"]).r, v["tc"].f["transforms_"].length()))
        for which, c, q, o in (("camera", "cc", cq, "co"), ("target", "tc", tq, "to")):
            mine = [x for x in log["fk"] if x[0] == which]
            ctx.ob("%s: kinematics of the %s chain" % (L, which), (), "bool", bconst(len(mine) > 0), TRUE)
            for _, pc, ch, joints, off in mine[:1]:
                pc = pc + rows
                for k in ("base_offset_", "transforms_"):
                    ctx.obs_eq("%s: %s of the %s chain" % (L, k, which), ch.f[k], v[c].f[k], pc)
                ctx.obs_eq("%s: joint values of the %s chain" % (L, which), joints, to_dmat(q), pc)
                ctx.obs_eq("%s: DH offsets of the %s chain" % (L, which), off, to_dmat(v[o]), pc)

    def two():
        ip, f, a, v = setup("drv2D", CON)
        L = "2D residual"
        X = camera_to_target(v)
        P = X.apply([v["pt"].at(k, 0) for k in range(3)])
        for p in run_entry(ip, f, a):
            pc = tuple(p.pc)
            if p.kind == "throw":
                ctx.ob(L + ": no exception of its own", pc, "bool", TRUE, FALSE)
                continue
            ctx.ob(L + ": evaluated", pc, "bool", p.val.val, TRUE)
            r = p.mem[a[-1].loc]
            for k in range(2):
                ctx.ob("%s: component %d is the projection minus the observation" % (L, k), pc, "eq", r.at(k, 0), var("pixel." + "xy"[k]) - v["obs"].at(k, 0))
        if not log["px"]:
            raise Unsupported("no projection")
        q, intr, point = log["px"][-1]
        ctx.obs_eq(L + ": intrinsics of the projection", intr, v["intr"], q)
        for k in range(3):
            ctx.ob("%s: coordinate %d of the projected point is that of the target point carried into the camera" % (L, k), q, "eq", point.at(k, 0), P[k])
        chains(L, v, v["cq"], v["tq"])

    def six():
        ip, f, a, v = setup("drv6D", CON)
        L = "pose residual"
        m = v["m"]
        X = camera_to_target(v)
        M = m.f["camera_to_target"]
        for p in run_entry(ip, f, a):
            pc = tuple(p.pc)
            if p.kind == "throw":
                ctx.ob(L + ": no exception of its own", pc, "bool", TRUE, FALSE)
                continue
            ctx.ob(L + ": evaluated", pc, "bool", p.val.val, TRUE)
            r = p.mem[a[-1].loc]
            D = M * X.inv()
            for k in range(3):
                ctx.ob("%s: component %d is the translation of measured times inverse predicted" % (L, k), pc, "eq", r.at(k, 0), D.trans()[k])
            ctx.ob(L + ": component 3 is the weighted angle between measured and predicted rotation", pc, "eq", r.at(3, 0), v["w"] * lib_.angdist(M.lin().rot, X.lin().rot))
        chains(L, v, m.f["camera_chain_joints"], m.f["target_chain_joints"])

    def mask():
        ip, f, a, v = setup("drvMask")
        m = to_dmat(v[f["params"][0]["n"]])
        want = Seq([Gen(m.r, lambda i: Seq([If(bnot(eq(m.cell(i, num(k)), 0)), Seq([Items([m.r * k + i])])) for k in range(4)]))])
        for p in run_entry(ip, f, a):
            pc = tuple(p.pc)
            if p.kind == "throw":
                ctx.ob("DH mask: no exception of its own", pc, "bool", TRUE, FALSE)
                continue
            ctx.obs_eq("DH mask: indices of the masked offsets in a column-major matrix", p.val.val, want, pc)

    ctx.run("2D", two)
    ctx.run("6D", six)
    def blocks(m, refs, L, pc):
        """the entry of each of the eight parameter blocks, by its address; no other entry"""
        ents = [e for g in m.ents.segs if isinstance(g, Items) for e in g.v]
        if m.base is not None or len(ents) != m.ents.length().const():
            raise Unsupported("entries of " + L)
        out = []
        for k, r in enumerate(refs):
            mine = [e.f["second"] for e in ents if isinstance(e.f["first"], Ptr) and e.f["first"].loc == r.loc and not e.f["first"].path and (e.f["first"].off is None or e.f["first"].off.const() == 0)]
            ctx.ob("%s: block %d has one entry" % (L, k), pc, "bool", bconst(len(mine) == 1), TRUE)
            out.append(mine[0] if mine else None)
        ctx.ob("%s: eight entries" % L, pc, "bool", bconst(len(ents) == 8), TRUE)
        return out

    def tables():
        for n, L in (("drvLabels", "labels of the parameters"), ("drvMasks", "masks of the parameters"), ("drvNames", "names of the parameters")):
            ip, f, a, v = setup(n)
            for p in run_entry(ip, f, a):
                pc = tuple(p.pc)
                if p.kind == "throw":
                    ctx.ob(L + ": no exception of its own", pc, "bool", TRUE, FALSE)
                    continue
                got = blocks(p.val.val, a[-8:], L, pc)
                for k, g in enumerate(got):
                    if g is None:
                        continue
                    if n == "drvLabels" and k < 2:
                        # a column-major matrix: all the first offsets of the joints, then all the second offsets, ..
                        s = v[("cc", "tc")[k]]
                        want = Seq([Gen(s.length(), lambda i, c=c: Seq([Items([get_item(s.at(i), c)])])) for c in range(4)])
                        ctx.obs_eq("%s: block %d, joint by joint for each DH parameter" % (L, k), g, want, pc)
                    elif n == "drvLabels":
                        s = v[NAMES[k]]
                        ctx.obs_eq("%s: block %d" % (L, k), g, Seq([Items([get_item(s, c) for c in range(3)])]), pc)
                    elif n == "drvMasks":
                        ctx.obs_eq("%s: block %d" % (L, k), g, get_item(v["masks"], k), pc)
                if n == "drvNames":
                    ctx.ob(L + ": different names", pc, "bool", bconst(len({repr(g) for g in got}) == 8), TRUE)

    ctx.run("mask", mask)
    ctx.run("tables", tables)
