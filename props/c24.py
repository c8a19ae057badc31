"""C24: kinematic calibration: the least-squares problem is the stated one and the result is its solution."""
from common import *
import lib as lib_
from terms import show_atom

HARNESS = "c24.cpp"
SOURCES = ["opt:dh_chain_kinematic_calibration.cpp", "opt:dh_chain.cpp", "opt:covariance_analysis.cpp", "opt:eigen_conversions.cpp"]
ASSUMPTIONS = [
    "local_parameterization.h is compiled against Ceres 2.2 through props/compat (SubsetParameterization -> SubsetManifold, SetParameterization -> SetManifold, LocalParameterizationSize names); the file is not in the offline build",
    "at least one correspondence or measurement (an empty problem has no parameter blocks and Ceres aborts)",
    "ceres::AngleAxisToRotationMatrix is the exact rotation",
    "a ceres::SubsetManifold holds the listed parameters of the block and no other (also in the bounded harness)",
    "std::sort, std::unique and std::max_element on integers: ascending arrangement, removal of repetitions, last of it; mask indices are not negative",
]
NS = "rct_optimizations::"
CAM, TGT = "camera", "target"


def c_fk(ip, f, args, this):
    """flange pose of a chain (verified in C12), here any isometry; the arguments are compared in chains()"""
    a = [ip.load(x) for x in args]
    if len(a) < 2:
        raise Unsupported("getFK without offsets")
    ch = ip.load(this)
    k = the_atom(ch.f["transforms_"].length())
    name = show_atom(k) if k else ""
    which = CAM if "camera_chain" in name else TGT if "target_chain" in name else None
    if which is None:
        raise Unsupported("kinematics of another chain: " + name)
    ip.fk_log.append((which, tuple(ip.pc), ch, to_dmat(a[0]), to_dmat(a[1])))
    return iso_var("flange:" + which)


def c_px(ip, f, args, this):
    """pinhole projection (verified in C02); intrinsics and point are compared below"""
    if len(args) != 2:
        return NotImplemented
    ip.px_log.append((tuple(ip.pc), ip.load(args[0]), ip.load(args[1])))
    return Mat(2, 1, [var("pixel.x"), var("pixel.y")])


def c_subset(ip, f, args, this):
    """holds the masked parameters constant (its own obligations are below); recorded with the problem"""
    prob = ip.deref(args[0]) if not isinstance(args[0], Ref) else args[0]
    v = ip.load(prob)
    d = dict(v.f)
    d["extra"] = d.get("extra", Seq()).append(Struct("PB", {"call": Str(["masks"]), "ptr": ip.load(args[1]), "args": Seq()}))
    ip.store(prob, Struct("ceres::Problem", d))
    return None


def c_print(ip, f, args, this):
    """prints (bounded harness): no effect on the calibration"""
    return None


def block(i):
    return Ptr("blk", (("i", num(i)),), ZERO)


def size(i):
    return app("len:pbsize", (lib.keyterm(block(i)),), "I")


def eqv(a, b):
    return bor(band(a, b), band(bnot(a), bnot(b)))


def prove(ctx):
    prog = ctx.program("opt:dh_chain_kinematic_calibration.cpp", "opt:dh_chain.cpp", "drv:c13.cpp")
    C = dict(OPT)
    C[NS + "DHChain::getFK"] = c_fk
    C[NS + "projectPoint"] = c_px
    C[NS + "addSubsetParameterization"] = c_subset
    C[NS + "printOptimizationLabels"] = c_print

    def blockval(mem, ip, q, k):
        smem, ip.mem = ip.mem, dict(mem)
        try:
            return num(ip.load(Ref(q.loc, q.path + (("i", (q.off if q.off is not None else ZERO) + num(k)),))))
        finally:
            ip.mem = smem

    def matrix(mem, q):
        if q.path or (q.off is not None and q.off.const() != 0):
            raise Unsupported("offsets inside of another object")
        return to_dmat(mem[q.loc])

    def calibration(ptype, L, nres):
        ip = ctx.interp(prog, C)
        f = optimise_fn(prog, ptype)
        prm = problem_arg(ip, f)
        rest = [Ref(ip.new(sym(ip, t, p["n"]), "arg")) for t, p in list(zip(prog.param_types(f), f["params"]))[1:]]
        two = len(rest) == 0
        chains = (prm.f["camera_chain"], prm.f["target_chain"])
        dof = [c.f["transforms_"].length() for c in chains]
        rows = [ite(eq(n, 0), ONE, n) for n in dof]
        guesses = [prm.f[k] for k in ("camera_mount_to_camera_guess", "target_mount_to_target_guess", "camera_base_to_target_base_guess")]
        results = ("camera_mount_to_camera", "target_mount_to_target", "camera_base_to_target_base")
        prefixes = [prm.f[k] for k in ("label_camera_mount_to_camera", "label_target_mount_to_target", "label_camera_base_to_target")]
        ob = prm.f["observations"]
        for p in run_entry(ip, f, [Ref(ip.new(prm, "arg"))] + rest):
            pc = tuple(p.pc)
            if p.kind == "throw":
                ctx.ob(L + ": no exception of its own", pc, "bool", TRUE, FALSE)
                continue
            o = p.val
            ctx.ob(L + ": the solver runs exactly once", pc, "bool", bconst(len(o.solves) == 1), TRUE)
            if len(o.solves) != 1:
                continue
            s = o.solves[0]
            pr = s["problem"]
            blocks = lib.solve_blocks(pr.f["blocks"])
            corr = [b for b in blocks if b[0]]
            prior = [b for b in blocks if not b[0]]
            ctx.ob(L + ": one family of residual blocks for the measurements", pc, "bool", bconst(len(corr) == 1), TRUE)
            if len(corr) != 1:
                continue
            binders, conds, rb = corr[0]
            spec = SpecBlocks("m", [ob.length()] + ([lambda i: ob.at(i).f["correspondence_set"].length()] if two else []), None)
            mb = match_binders(binders, spec, pc)
            ctx.ob(L + ": the residual blocks range over the measurements", pc, "bool", bconst(mb is not None), TRUE)
            if mb is None:
                continue
            idx = mb[0]
            for j, (have, want) in enumerate(mb[1]):
                ctx.ob("%s: number of residual blocks, index %d" % (L, j), pc, "eq", num(have), num(want))
            base = pc + tuple(lt(t, n) for t, n in binders)
            ctx.ob(L + ": every measurement has a residual block", base, "bool", band(*conds) if conds else TRUE, TRUE)
            ctx.ob(L + ": plain least squares (no loss function)", base, "bool", bconst(isinstance(rb.f["loss"], Null)), TRUE)
            ps = rb.f["params"].segs[0].v
            ctx.ob(L + ": eight different parameter blocks", base, "bool", bconst(len({(q.loc, q.path) for q in ps}) == 8), TRUE)
            if len(ps) != 8:
                continue
            full = base + tuple(conds)
            ctx.ob(L + ": number of residuals of a block", full, "eq", rb.f["nres"], num(nres))
            for k in range(8):
                ctx.ob("%s: size of parameter block %d" % (L, k), full, "eq", rb.f["dims"].at(k), rows[k] * 4 if k < 2 else num(3))
            # ---- the residual, at the initial and at the final point
            for tag, mem in (("initial", s["pre"]), ("final", s["post"])):
                residual(ip, "%s (%s point)" % (L, tag), rb, mem, full, ps, idx, prm, chains, two, rest, rows)
            off = [matrix(s["pre"], ps[k]) for k in range(2)]
            for k in range(2):
                i, j = fresh("idx"), fresh("idx")
                inr = (le(0, i), lt(i, rows[k]), le(0, j), lt(j, num(4)))
                ctx.ob("%s: rows of the offsets of chain %d" % (L, k), pc, "eq", off[k].r, rows[k])
                ctx.ob("%s: columns of the offsets of chain %d" % (L, k), pc, "eq", off[k].c, num(4))
                ctx.ob("%s: the offsets of chain %d start at zero" % (L, k), pc + inr, "eq", off[k].cell(i, j), ZERO)
            for k, g in enumerate(guesses):
                T = pose(ip, s["pre"], ps, k)
                ctx.obs_eq("%s: the optimisation starts at the guess of %s" % (L, results[k]), T, g, pc)
            # ---- what is held constant
            ex = pr.f["extra"]
            consts = [(c, e) for c, e in flat(ex) if e.f["call"] == Str(["SetParameterBlockConstant"])]
            masks = [(c, e) for c, e in flat(ex) if e.f["call"] == Str(["masks"])]
            other = [(c, e) for c, e in flat(ex) if (c, e) not in consts and (c, e) not in masks]
            ctx.ob(L + ": no other restriction of the parameters", pc, "bool", bconst(not other), TRUE)
            for k, q in enumerate(ps):
                cond = bor(*[c for c, e in consts if e.f["ptr"].loc == q.loc]) if any(e.f["ptr"].loc == q.loc for c, e in consts) else FALSE
                ctx.ob("%s: block %d is the placeholder of a chain without joints and constant, or neither" % (L, k), pc, "bool", cond, eq(dof[k], 0) if k < 2 else FALSE)
            ctx.ob(L + ": the masks are applied once", pc, "bool", bconst(len(masks) == 1 and masks[0][0] == TRUE), TRUE)
            for c, e in masks:
                table(ip, ctx, L + ": masks", e.f["ptr"], ps, [prm.f["mask"].v[k] for k in range(8)], pc)
            # ---- the prior of the offsets
            for k in range(2):
                mine = [b for b in prior if len(b[2].f["params"].segs[0].v) == 1 and b[2].f["params"].segs[0].v[0].loc == ps[k].loc]
                ctx.ob("%s: one prior of the offsets of chain %d" % (L, k), pc, "bool", bconst(len(mine) == 1), TRUE)
                if len(mine) != 1:
                    continue
                _, cs, b = mine[0]
                isc = pred("isconst", *(lib.keyterm(ps[k]) + (ex.length(),)))
                # by the contract of addSubsetParameterization: constant iff it was so before or all of its parameters are masked
                m = prm.f["mask"].v[k]
                allm = band(lt(0, m.length()), le(rows[k] * 4, lib.distinct(lib.multiset(m))))
                pc += (eqv(isc, bor(eq(dof[k], 0), allm)),)
                ctx.ob("%s: the prior of the offsets of chain %d iff the chain has joints whose offsets are not all masked" % (L, k), pc, "bool", band(*cs) if cs else TRUE, band(bnot(eq(dof[k], 0)), bnot(allm)))
                pk = pc + tuple(cs)
                ctx.ob("%s: the prior of chain %d is plain least squares" % (L, k), pk, "bool", bconst(isinstance(b.f["loss"], Null)), TRUE)
                sz = rows[k] * 4
                ctx.ob("%s: number of residuals of the prior of chain %d" % (L, k), pk, "eq", b.f["nres"], sz)
                ctx.ob("%s: block size of the prior of chain %d" % (L, k), pk, "eq", b.f["dims"].at(0), sz)
                m, sd = to_dmat(b.f["functor"].f["mean"]), to_dmat(b.f["functor"].f["stdev"])
                i, j = fresh("idx"), fresh("idx")
                inr = pk + (le(0, i), lt(i, rows[k]), le(0, j), lt(j, num(4)))
                for nm, x, w in (("mean", m, ZERO), ("standard deviation", sd, prm.f[("camera_chain_offset_stdev", "target_chain_offset_stdev")[k]])):
                    ctx.ob("%s: rows of the %s of chain %d" % (L, nm, k), pk, "eq", x.r, rows[k])
                    ctx.ob("%s: columns of the %s of chain %d" % (L, nm, k), pk, "eq", x.c, num(4))
                    ctx.ob("%s: %s of the offsets of chain %d" % (L, nm, k), inr, "eq", x.cell(i, j), w)
                ctx.ob("%s: the prior of chain %d is the likelihood of C22" % (L, k), pk, "bool", bconst(b.f["functor"].ty == NS + "MaximumLikelihood"), TRUE)
            ctx.ob(L + ": no other residual block", pc, "bool", bconst(len(blocks) == 3), TRUE)
            # ---- the result
            check_summary(ctx, L, o.val, s, p.pc)
            if not two:
                ctx.obs_eq(L + ": the given options", s["options"], ip.load(rest[1]), pc)
            for k, n in enumerate(results):
                T, aa = pose(ip, s["post"], ps, k), [blockval(s["post"], ip, ps[3 + 2 * k], c) for c in range(3)]
                big = lt(num(Fraction(1, 2**52)), app("sqrt", (aa[0] * aa[0] + aa[1] * aa[1] + aa[2] * aa[2],)))
                ctx.obs_eq("%s: %s is the solver's" % (L, n), o.val.f[n], T, pc + (big,))
                R = o.val.f[n].lin()
                for i in range(3):
                    for j in range(3):
                        one = num(1 if i == j else 0)
                        ctx.ob_alt("%s: the rotation of %s is the solver's, or the identity if the solver's angle is below machine precision (%d, %d)" % (L, n, i, j), pc + (bnot(big),), [("eq", R.at(i, j), one), ("eq", R.at(i, j), T.lin().at(i, j))])
                for c in range(3):
                    ctx.ob("%s: translation %d of %s is the solver's" % (L, c, n), pc, "eq", o.val.f[n].trans()[c], T.trans()[c])
            for k, n in enumerate(("camera_chain_dh_offsets", "target_chain_dh_offsets")):
                D, X = to_dmat(o.val.f[n]), matrix(s["post"], ps[k])
                i, j = fresh("idx"), fresh("idx")
                ctx.ob("%s: rows of %s" % (L, n), pc, "eq", D.r, dof[k])
                ctx.ob("%s: columns of %s" % (L, n), pc, "eq", D.c, num(4))
                ctx.ob("%s: %s are the solver's" % (L, n), pc + (le(0, i), lt(i, dof[k]), le(0, j), lt(j, num(4))), "eq", D.cell(i, j), X.cell(i, j))
            # ---- the covariance
            ctx.ob(L + ": one covariance call", pc, "bool", bconst(len(o.covs) == 1), TRUE)
            for c in o.covs:
                ctx.obs_eq(L + ": the result carries that covariance", o.val.f["covariance"], Struct(NS + "CovarianceResult", {"token": num(c["n"]) + var("covtoken", "I")}), pc)
                table(ip, ctx, L + ": masks of the covariance", c["masks"], ps, [prm.f["mask"].v[k] for k in range(8)], pc)
                want = [None, None]
                for k in range(3):
                    for g in (("_x", "_y", "_z"), ("_rx", "_ry", "_rz")):
                        want.append(Seq([Items([prefixes[k] + Str([x]) for x in g])]))
                for k in range(2):
                    fnd, ls = lib.map_lookup(ip, c["labels"], ps[k])
                    ctx.ob("%s: block %d has labels" % (L, k), pc, "bool", fnd, TRUE)
                    ctx.ob("%s: one label per parameter of block %d" % (L, k), pc, "eq", ls.length(), rows[k] * 4)
                table(ip, ctx, L + ": labels of the covariance", c["labels"], ps, want, pc)

        for k in range(2):
            # the labels of a chain with joints
            has = lt(ZERO, dof[k])
            for p in run_entry(ip, f, [Ref(ip.new(prm, "arg"))] + rest, assume=(has,)):
                if p.kind == "throw" or len(p.val.solves) != 1:
                    continue
                prs = [b[2].f["params"].segs[0].v for b in lib.solve_blocks(p.val.solves[0]["problem"].f["blocks"]) if b[0]]
                for c in p.val.covs:
                    fnd, ls = lib.map_lookup(ip, c["labels"], prs[0][k])
                    ts = chains[k].f["transforms_"]
                    want = Seq([Gen(ts.length(), lambda i, x=x, ts=ts: Seq([Items([lib.to_str(ts.at(i).f["name"]) + Str([x])])])) for x in ("_d", "_theta", "_r", "_alpha")])
                    ctx.obs_eq("%s: labels of the offsets of chain %d, joint by joint for each DH parameter" % (L, k), ls, want, tuple(p.pc) + (has,))

    def flat(sq, conds=()):
        out = []
        for g in sq.segs:
            if isinstance(g, Items):
                out += [(band(*conds) if conds else TRUE, e) for e in g.v]
            elif isinstance(g, If):
                out += flat(g.s, conds + (g.c,))
            else:
                raise Unsupported("calls on the problem")
        return out

    def table(ip, ctx, L, m, ps, want, pc):
        for k, q in enumerate(ps):
            if want[k] is None:
                continue
            fnd, v = lib.map_lookup(ip, m, q)
            ctx.ob("%s: block %d has an entry" % (L, k), pc, "bool", fnd, TRUE)
            if v is not None:
                ctx.obs_eq("%s: block %d" % (L, k), v, want[k], pc)
        ctx.ob(L + ": no other entry", pc, "eq", lib.map_size(ip, m), num(8))

    def pose(ip, mem, ps, k):
        """the pose of translation block 2 + 2 k and angle-axis block 3 + 2 k"""
        t, a = [[blockval(mem, ip, ps[2 + 2 * k + e], c) for c in range(3)] for e in range(2)]
        return iso_rt(rotmat(raa(*a)), t)

    def residual(ip, L, rb, mem, full, ps, idx, prm, chains, two, rest, rows):
        ip.fk_log, ip.px_log = [], []
        f = functor_op(ip, rb.f["functor"].ty, 2)
        smem = ip.mem
        ip.mem = dict(mem)
        try:
            rloc = ip.new(Arr([Undef() for _ in range(2 if two else 4)]), "keep:residual")
            floc = ip.new(rb.f["functor"], "keep:functor")
            ploc = ip.new(Arr(list(ps)), "keep:params")
            paths = ip.explore(lambda: ip.call_fn(f, [Ptr(ploc, (), ZERO), Ptr(rloc, (), ZERO)], Ref(floc)), full)
        finally:
            ip.mem = smem
        fl = [iso_var("flange:" + w) for w in (CAM, TGT)]
        P = [pose(ip, mem, ps, k) for k in range(3)]
        X = (fl[0] * P[0]).inv() * (P[2] * fl[1] * P[1])
        o = prm.f["observations"].at(idx[0])
        if two:
            c = o.f["correspondence_set"].at(idx[1])
        for p in paths:
            pc = tuple(p.pc)
            if p.kind == "throw":
                ctx.ob(L + ": the residual is defined", pc, "bool", FALSE, TRUE)
                continue
            ctx.ob(L + ": the residual is accepted", pc, "bool", p.val if isinstance(p.val, B) else bnot(eq(p.val, 0)), TRUE)
            r = p.mem[rloc].v
            if two:
                for k in range(2):
                    ctx.ob("%s: residual component %d" % (L, k), pc, "eq", num(r[k]), var("pixel." + "xy"[k]) - c.f["in_image"].at(k, 0))
            else:
                D = o.f["camera_to_target"] * X.inv()
                for k in range(3):
                    ctx.ob("%s: residual component %d" % (L, k), pc, "eq", num(r[k]), D.trans()[k])
                ctx.ob(L + ": residual component 3", pc, "eq", num(r[3]), num(ip.load(rest[0])) * lib_.angdist(o.f["camera_to_target"].lin().rot, X.lin().rot))
        if two:
            ctx.ob(L + ": projected", full, "bool", bconst(bool(ip.px_log)), TRUE)
            q, intr, point = ip.px_log[-1]
            ctx.obs_eq(L + ": the camera's intrinsics", intr, prm.f["intr"], q)
            w = X.apply([c.f["in_target"].at(k, 0) for k in range(3)])
            for k in range(3):
                ctx.ob("%s: coordinate %d of the projected point" % (L, k), q, "eq", point.at(k, 0), w[k])
        for w, ch, jn, q, k in ((CAM, chains[0], "camera_chain_joints", ps[0], 0), (TGT, chains[1], "target_chain_joints", ps[1], 1)):
            mine = [x for x in ip.fk_log if x[0] == w]
            ctx.ob("%s: kinematics of the %s chain" % (L, w), full, "bool", bconst(len(mine) > 0), TRUE)
            for _, pc, c_, joints, off in mine[:1]:
                for n in ("base_offset_", "transforms_"):
                    ctx.obs_eq("%s: %s of the %s chain" % (L, n, w), c_.f[n], ch.f[n], pc)
                ctx.obs_eq("%s: joint values of the %s chain" % (L, w), joints, to_dmat(o.f[jn]), pc)
                M = matrix(mem, q)
                n = ch.f["transforms_"].length()
                ctx.ob("%s: rows of the offsets of the %s chain" % (L, w), pc, "eq", off.r, n)
                ctx.ob("%s: columns of the offsets of the %s chain" % (L, w), pc, "eq", off.c, num(4))
                k = fresh("idx")  # row k mod n, column k div n
                i, j = imod(k, n), idiv(k, n)
                ctx.ob("%s: offsets of the %s chain" % (L, w), pc + (le(0, k), lt(k, n * 4), lt(ZERO, n)), "eq", off.cell(i, j), M.cell(i, j))

    ctx.run("2D", lambda: calibration("KinematicCalibrationProblem2D3D", "2D kinematic calibration", 2))
    ctx.run("6D", lambda: calibration("KinematicCalibrationProblemPose6D", "pose kinematic calibration", 4))

    def show():
        """printing the labels changes nothing and does not fail when every block has a name, labels and a mask"""
        L = "printOptimizationLabels"
        ip = ctx.interp(prog, {})
        f = prog.find(NS + "printOptimizationLabels")[0]
        ip.mem["blk"] = Seq([Fun(var("len:nblk", "I"), lambda i: Seq([Fun(size(i), lambda j: app("x", (num(i), num(j))))]))])
        npb = var("len:npb", "I")
        prob = Struct("ceres::Problem", {"blocks": Seq(), "extra": Seq(), "npb": npb, "pblocks": Seq([Fun(npb, lambda k: block(k))])})
        vals = [prob] + [sym(ip, t, p["n"]) for t, p in list(zip(prog.param_types(f), f["params"]))[1:]]
        args = [Ref(ip.new(v, "arg")) for v in vals]
        entry = quant("all", npb, lambda k: band(*[lib.map_lookup(ip, m, block(k))[0] for m in vals[1:]]))
        for p in ip.explore(lambda: ip.call_fn(f, args, None)):
            pc = tuple(p.pc)
            if p.kind == "throw":
                ctx.ob(L + ": an exception only if a block has no entry", pc, "bool", entry, FALSE)
                continue
            ctx.obs_eq(L + ": the problem is unchanged", p.mem[args[0].loc], prob, pc)
            ctx.ob(L + ": the parameters are unchanged", pc, "bool", bconst(p.mem["blk"] is ip.mem["blk"]), TRUE)

    ctx.run("print", show)

    def subset():
        """exactly the parameters in the masks are held constant"""
        L = "addSubsetParameterization"
        prog = ctx.program("drv:c24.cpp")
        ip = ctx.interp(prog, {})
        f = prog.find(NS + "addSubsetParameterization")[0]
        ip.mem["blk"] = Seq([Fun(var("len:nblk", "I"), lambda i: Seq([Fun(size(i), lambda j: app("x", (num(i), num(j))))]))])
        npb = var("len:npb", "I")
        prob = Struct("ceres::Problem", {"blocks": Seq(), "extra": Seq(), "npb": npb, "pblocks": Seq([Fun(npb, lambda k: block(k))])})
        masks = sym(ip, prog.param_types(f)[1], "param_masks")
        args = [Ref(ip.new(v, "arg")) for v in (prob, masks)]

        def entry(k):
            """has an entry, the entry, number of different indices in it, largest index"""
            f, m = lib.map_lookup(ip, masks, block(k))
            nd = lib.distinct(lib.multiset(m))
            return f, m, nd, app("distinct", lib.multiset(m) + (nd - 1,), "I")

        def bad(k):
            f, m, nd, top = entry(k)
            return band(f, lt(0, m.length()), le(size(k), top))

        refused = quant("ex", npb, bad)
        for p in ip.explore(lambda: ip.call_fn(f, args, None)):
            pc = tuple(p.pc)
            if p.kind == "throw":
                # the first block that is refused ends the call: some block in the problem has a mask with an index beyond it
                ctx.ob(L + ": an exception only if a mask index is not an index of its block", pc, "bool", refused, TRUE)
                ctx.ob(L + ": it is an OptimizationException", pc, "bool", bconst(isinstance(p.val, Struct) and p.val.ty == NS + "OptimizationException"), TRUE)
                continue
            # a map of no entries has no entry for any block
            pc += (bor(bnot(eq(lib.map_size(ip, masks), 0)), quant("all", npb, lambda k: bnot(entry(k)[0]))),)
            ctx.ob(L + ": no exception if every mask index is an index of its block", pc, "bool", refused, FALSE)
            v = p.mem[args[0].loc]
            ctx.obs_eq(L + ": the residual blocks are unchanged", v.f["blocks"], Seq(), pc)
            ctx.ob(L + ": the parameters are unchanged", pc, "bool", bconst(p.mem["blk"] is ip.mem["blk"]), TRUE)
            k = fresh("idx")
            some, mask, nd, _ = entry(k)
            # instances of the facts above for that block
            pk = pc + (le(0, k), lt(k, npb), bnot(bad(k)), bor(bnot(eq(lib.map_size(ip, masks), 0)), bnot(some)))
            if any(not isinstance(g, Gen) or decide(list(pc), eq(g.n, npb)) is not True for g in v.f["extra"].segs) or len(v.f["extra"].segs) > 1:
                raise Unsupported("restrictions in another form than block by block")
            calls = flat(v.f["extra"].segs[0].f(k)) if v.f["extra"].segs else []
            all_ = le(size(k), nd)
            when = {"SetParameterBlockConstant": band(some, lt(0, mask.length()), all_), "SetManifold": band(some, lt(0, mask.length()), bnot(all_))}
            for name, want in when.items():
                mine = [(c, e) for c, e in calls if e.f["call"] == Str([name])]
                ctx.ob("%s: %s of a block iff %s" % (L, name, {"SetManifold": "some and not all of its parameters are masked"}.get(name, "all of its parameters are masked")), pk, "bool", bor(*[c for c, e in mine]) if mine else FALSE, want)
                for i in range(len(mine)):
                    for j in range(i):
                        ctx.ob("%s: %s at most once" % (L, name), pk, "bool", band(mine[i][0], mine[j][0]), FALSE)
                for c, e in mine:
                    q = pk + (c,)
                    ctx.obs_eq("%s: %s of that block" % (L, name), e.f["ptr"], block(k), q)
                    if name == "SetManifold":
                        m = e.f["args"].at(0)
                        ctx.ob(L + ": a subset of the parameters is held", q, "bool", bconst(isinstance(m, Struct) and m.ty == "ceres::SubsetManifold"), TRUE)
                        ctx.ob(L + ": size of the block", q, "eq", m.f["size"], size(k))
                        h = m.f["constant"]
                        ctx.ob(L + ": as many held parameters as different mask indices", q, "eq", h.length(), nd)
                        j = fresh("idx")
                        ctx.ob(L + ": the held parameters are the mask indices, each once", q + (le(0, j), lt(j, nd)), "eq", h.at(j), app("distinct", lib.multiset(mask) + (j,), "I"))
            ctx.ob(L + ": no other restriction", pk, "bool", bor(*[c for c, e in calls if not any(e.f["call"] == Str([n]) for n in when)]) if calls else FALSE, FALSE)

    ctx.run("subset", subset)
