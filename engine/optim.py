"""The contract of an optimiser: what it hands to ceres::Solve and what it returns, independent of how it parameterises the poses."""
import itertools
from terms import *
from values import *
from interp import *
import lib, prove
from spec import val_eqs, prove_one


class Outcome:
    def __init__(self, val, solves, covs):
        self.val, self.solves, self.covs = val, solves, covs


def run_entry(ip, f, args, this=None, assume=()):
    def body():
        ip.solves = []
        ip.n_solve = 0
        ip.cov_log = []
        ip.sort_log = []
        ip.n_sort = 0
        v = ip.call_fn(f, args, this)
        o = Outcome(v, list(ip.solves), list(ip.cov_log))
        o.sorts = list(ip.sort_log)
        return o

    return ip.explore(body, assume)


def functor_op(ip, ty, nargs=None):
    """the operator() of functor type ty, or of a base, at T = double if instantiated, else at a Jet (same real value)"""
    seen = []
    todo = [ty]
    while todo:
        t = todo.pop(0)
        seen.append(t)
        cands = [f for f in ip.prog.byq.get(strip_t(t) + "::operator()", []) + ip.prog.byq.get(t + "::operator()", []) if "body" in f]
        cands = [f for f in cands if f.get("cls") is None or f["tu"].types[f["cls"]] == t] or cands
        if nargs is not None:
            cands = [f for f in cands if len(f["params"]) == nargs] or cands
        if cands:
            def rank(f):
                pt = ip.prog.param_types(f)
                return 0 if all("Jet" not in p for p in pt) else 1

            return sorted(cands, key=rank)[0]
        r = ip.prog.records.get(t)
        if r:
            todo += [r["tu"].types[b] for b in r["bases"]]
    raise Unsupported("no operator() of %s" % ty)


def eval_block(ip, mem, rb, pc):
    """paths of the functor of residual block rb evaluated in memory mem: [(pc, ret, residuals)]"""
    fun = rb.f["functor"]
    params = rb.f["params"]
    if len(params.segs) != 1 or not isinstance(params.segs[0], Items):
        raise Unsupported("symbolic number of parameter blocks")
    ptrs = params.segs[0].v
    f = functor_op(ip, fun.ty, len(ptrs) + 1)
    dims = rb.f["dims"]
    if not isinstance(dims, Arr):
        raise Unsupported("dynamic cost function")
    nres = int(num(dims.v[0]).const())
    smem = ip.mem
    ip.mem = dict(mem)
    try:
        rloc = ip.new(Arr([Undef() for _ in range(nres)]), "keep:residual")
        floc = ip.new(fun, "keep:functor")
        args = list(ptrs) + [Ptr(rloc, (), ZERO)]
        ip.resolving = True
        ps = ip.explore(lambda: ip.call_fn(f, args, Ref(floc)), pc)
    finally:
        ip.mem = smem
        ip.resolving = False
    out = []
    for p in ps:
        if p.kind not in ("normal", "return"):
            out.append((p.pc, FALSE, None))
        else:
            out.append((p.pc, p.val, p.mem[rloc].v))
    return out, nres


class SpecBlocks:
    """one residual block per (i1 < bounds[0], i2 < bounds[1](i1), ...) with when(i...) true, with residual(i..., R)"""

    def __init__(self, name, bounds, residual, when=None, where="", pre=None, dim=2):
        self.name, self.bounds, self.residual, self.when, self.where, self.pre = name, bounds, residual, when, where, pre


def match_binders(binders, spec, pc):
    """order the code's binders as the specification's"""
    n = len(spec.bounds)
    if len(binders) != n:
        return None
    best = None
    for perm in itertools.permutations(range(n)):
        vs = [binders[k][0] for k in perm]
        ok = True
        obs = []
        for j, b in enumerate(spec.bounds):
            want = b(*vs[:j]) if callable(b) else b
            have = binders[perm[j]][1]
            obs.append((have, want))
            if not (have == want or prove.prove_eq(list(pc), num(have), num(want)).status == "proved"):
                ok = False
        if best is None:
            best = (vs, obs)
        if ok:
            return (vs, obs)
    return best


def check_problem(ctx, ip, label, solve, pc, groups, R, R0, where=""):
    """residual blocks of the problem against the specification groups, at the final point (R) and at the initial one (R0)"""
    blocks = lib.solve_blocks(solve["problem"].f["blocks"])
    if "extra" in solve["problem"].f:
        for s in solve["problem"].f["extra"].segs:
            pass
    ctx.ob(label + ": one family of residual blocks per family of correspondences", pc, "bool", bconst(len(blocks) == len(groups)), TRUE, where)
    if len(blocks) != len(groups):
        return
    used = []
    # assign code groups to specification groups: same binder count, then in order
    assign = None
    for perm in itertools.permutations(range(len(groups))):
        if all(len(blocks[i][0]) == len(groups[perm[i]].bounds) for i in range(len(blocks))):
            sc_ = 0
            for i in range(len(blocks)):
                b, c, rb = blocks[i]
                g = groups[perm[i]]
                m = match_binders(b, g, pc)
                facts = [lt(t, N) for t, N in b] + list(c)
                if g.when is not None:
                    w = g.when(*m[0])
                    if prove.prove_bool(list(pc) + facts, w).status == "proved":
                        sc_ += 1
            if assign is None or sc_ > assign[0]:
                assign = (sc_, perm)
    if assign is None:
        ctx.ob(label + ": the residual blocks range over the correspondences", pc, "shape", Struct("code", {}), Struct("spec", {}), where)
        return
    for i, (binders, conds, rb) in enumerate(blocks):
        g = groups[assign[1][i]]
        L = "%s[%s]" % (label, g.name)
        vs, obs = match_binders(binders, g, pc)
        for j, (have, want) in enumerate(obs):
            ctx.ob("%s: number of residual blocks, index %d" % (L, j), pc, "eq", num(have), num(want), where)
        facts = tuple(lt(t, N) for t, N in binders)
        base = tuple(pc) + facts
        cc = band(*conds) if conds else TRUE
        w = g.when(*vs) if g.when is not None else TRUE
        ctx.ob("%s: which correspondences get a residual block" % L, base, "bool", cc, w, where)
        ctx.ob("%s: plain least squares (no loss function)" % L, base, "bool", bconst(isinstance(rb.f["loss"], Null)), TRUE, where)
        full = base + tuple(conds)
        for tag, mem, res in (("final", solve["post"], R), ("initial", solve["pre"], R0)):
            if res is None:
                continue
            res = tuple(resolved(r, full) for r in res) if isinstance(res, tuple) else resolved(res, full)
            pre = tuple(g.pre(tag, res, *vs)) if g.pre else ()
            try:
                paths, nres = eval_block(ip, mem, rb, full + pre)
            except Unsupported as e:
                ctx.undecided("%s: residual at the %s point" % (L, tag), "unsupported: %s" % e, where)
                continue
            want = g.residual(res, *vs)
            ctx.ob("%s: residual dimension" % L, full, "bool", bconst(nres == len(want)), TRUE, where)
            if nres != len(want):
                continue
            for k, (ppc, ret, rv) in enumerate(paths):
                fpc = full + pre + tuple(x for x in ppc if x not in full)
                if rv is None:
                    ctx.ob("%s: the residual is defined (%s point)" % (L, tag), fpc, "bool", FALSE, TRUE, where)
                    continue
                r = ret if isinstance(ret, B) else TRUE if ret is None else bnot(eq(ret, 0))
                ctx.ob("%s: the residual is accepted (%s point, path %d)" % (L, tag, k), fpc, "bool", r, TRUE, where)
                # components up to a common sign or order is the solver's business; the contract compares squares when the plain
                # comparison fails
                for d in range(nres):
                    ctx.ob_alt("%s: residual component %d at the %s point%s" % (L, d, tag, "" if len(paths) == 1 else " (path %d)" % k), fpc, [("eq", num(rv[d]), num(want[d])), ("eq", num(rv[d]), -num(want[d]))], where)


def resolved(r, facts):
    """a pose (or family of poses) with the conditionals decided by the facts resolved"""
    if isinstance(r, Iso):
        out = Iso()
        for p, s in r.w:
            if isinstance(p, IteP):
                c = prove.resolve(p.c, facts)
                d = prove.decide(list(facts), c)
                x = Iso([(p, 1)]) if d is None else resolved(p.a if d else p.b, facts)
            elif isinstance(p, RT):
                l = p.l
                f = lambda y: prove.resolve(y, facts)
                l = rotmat(f(l.rot)) if l.rot is not None else Mat(l.r, l.c, [f(y) for y in l.e])
                x = iso_rt(l, [f(y) for y in p.t])
            else:
                x = Iso([(p, 1)])
            out = out * (x if s > 0 else x.inv())
        return out
    if isinstance(r, (E, B)):
        return prove.resolve(r, facts)
    if callable(r):
        return lambda *a: resolved(r(*a), facts)
    return r


def check_summary(ctx, label, val, solve, pc, n=0, where=""):
    s = "solve%d." % n
    ctx.ob(label + ": converged iff the solver reports CONVERGENCE", pc, "bool", val.f["converged"] if isinstance(val.f["converged"], B) else bnot(eq(val.f["converged"], 0)), eq(var(s + "termination", "I"), 0), where)
    nr = var("pos:" + s + "num_residuals", "I")
    ctx.ob(label + ": initial_cost_per_obs = initial cost / number of residuals", pc, "eq", val.f["initial_cost_per_obs"], var(s + "initial_cost") / nr, where)
    ctx.ob(label + ": final_cost_per_obs = final cost / number of residuals", pc, "eq", val.f["final_cost_per_obs"], var(s + "final_cost") / nr, where)


COMPS = ("rx", "ry", "rz", "x", "y", "z")


def pose_component(e, T):
    """which of rx ry rz x y z of pose T the scalar e is (None if it is not recognised)"""
    for i, c in enumerate(T.trans()):
        if num(e) == c:
            return COMPS[3 + i]
    L = T.lin()
    if L.rot is not None and len(L.rot.w) == 1:
        a, s = L.rot.w[0]
        if a.kind == "raa" and s > 0:
            for i in range(3):
                if num(a.args[i]) == num(e):
                    return COMPS[i]
    return None


def check_pose_labels(ctx, ip, label, pc, cov, mem, wants, where=""):
    """wants: list of (pose or [candidate poses], prefix Str); single (non indexed) parameter blocks.  For every block of the
    covariance call, the k-th label is <prefix>_<component that element k of the block is>"""
    if cov["labels"] is None:
        ctx.undecided(label + ": covariance labels", "the covariance call has no labels", where)
        return
    blocks = cov["blocks"]
    if blocks is None:
        blocks = Seq([Items([e for e, _ in map_pairs(ip, cov["labels"])])])
    seen = set()
    ptrs = []  # (pointer, facts, index, number)
    for sg in blocks.segs:
        if isinstance(sg, Items):
            ptrs += [(q, (), None, None) for q in sg.v]
        elif isinstance(sg, (Fun, Gen)):
            k = fresh("idx")
            q = sg.cell(k) if isinstance(sg, Fun) else sg.f(k)
            qs = [q]
            if isinstance(q, Seq):
                if len(q.segs) != 1 or not isinstance(q.segs[0], Items):
                    raise Unsupported("covariance over a symbolic number of blocks")
                qs = q.segs[0].v
            ptrs += [(x, (lt(k, sg.n),), k, sg.n) for x in qs]
        else:
            raise Unsupported("covariance over a symbolic number of blocks")
    smem = ip.mem
    ip.mem = dict(mem)
    try:
        for ptr, facts, idx, cnt in ptrs:
            if not isinstance(ptr, Ptr):
                raise Unsupported("covariance of an undetermined parameter block")
            pcs = tuple(pc) + facts
            found, ls = lib.map_lookup(ip, cov["labels"], ptr)
            nm = ptr.loc.split("#")[0]
            if ls is None:
                ctx.ob("%s: block %s has labels" % (label, nm), pcs, "bool", FALSE, TRUE, where)
                continue
            ctx.ob("%s: block %s has labels" % (label, nm), pcs, "bool", found, TRUE, where)
            if isinstance(ls, Arr):
                ls = Seq([Items(ls.v)])
            n = ls.length().const()
            if n is None:
                raise Unsupported("symbolic number of labels")
            cand = []
            for wi, (Ts, prefix) in enumerate(wants):
                if isinstance(Ts, tuple) and callable(Ts[0]):
                    ids = ([idx] if idx is not None else []) + [x[1] for x in ptr.path if isinstance(x, tuple) and x[0] == "i"]
                    for i in ids:
                        T = Ts[0](i)
                        cand += [(wi, X, prefix + to_string(i), Ts[1]) for X in (T, T.inv())]
                else:
                    for T in Ts if isinstance(Ts, (list, tuple)) else [Ts]:
                        cand.append((wi, T, prefix, None))
            for k in range(int(n)):
                e = num(ip.load(Ref(ptr.loc, ptr.path + (("i", (ptr.off if ptr.off is not None else ZERO) + num(k)),))))
                hit = None
                for wi, T, prefix, total in cand:
                    c = pose_component(e, T)
                    if c is not None and hit is None:
                        hit = (wi, prefix, c, total)
                if hit is None:
                    e2 = prove.resolve(e, pcs)
                    for wi, T, prefix, total in cand:
                        c = pose_component(e2, resolved(T, pcs))
                        if c is not None and hit is None:
                            hit = (wi, prefix, c, total)
                if hit is None:
                    ctx.undecided("%s: label of parameter %d of %s" % (label, k, nm), "the parameter is not recognised as a component of a pose", where)
                    continue
                seen.add((hit[0], hit[2]))
                if hit[3] is not None and k == 0:
                    ctx.ob("%s: one parameter block per pose of the family %s" % (label, nm), pc, "eq", num(cnt) if cnt is not None else ONE, num(hit[3]), where)
                ctx.ob("%s: label of parameter %d of block %s" % (label, k, nm), pcs, "str", ls.at(k), hit[1] + Str(["_" + hit[2]]), where)
    finally:
        ip.mem = smem
    ctx.ob("%s: every component of every pose has a label" % label, pc, "bool", bconst(len(seen) == 6 * len(wants)), TRUE, where)


def map_pairs(ip, m):
    """(key, value) pairs of a map built by a fixed number of insertions"""
    if m.base is not None:
        raise Unsupported("symbolic map")
    out = []
    for s in m.ents.segs:
        if not isinstance(s, Items):
            raise Unsupported("symbolic number of map entries")
        for e in s.v:
            out.append((e.f["first"], e.f["second"]) if isinstance(e, Struct) else (e[0], e[1]))
    return out
