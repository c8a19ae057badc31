"""C11: covariance results name the right parameters of the right blocks."""
from common import *

HARNESS = "c11.cpp"
SOURCES = ["opt:covariance_analysis.cpp"]
ASSUMPTIONS = ["the parameter blocks of a problem are distinct arrays"]
NS = "rct_optimizations::"


def c_results(ip, f, args, this):
    """C10: recorded; the result is an abstract token"""
    a = [ip.load(x) for x in args]
    ip.res_log.append(a)
    return Struct(NS + "CovarianceResult", {"token": num(len(ip.res_log)) + var("restoken", "I")})


def ptype(t):
    t = clean(t)
    return "names" if "basic_string" in t else "masks" if "std::map" in t else "blocks" if "vector" in t else "problem" if "Problem" in t else "options"


def c_main(ip, f, args, this):
    """the overload that takes blocks, names and masks: recorded (its own obligations are below)"""
    kinds = [ptype(t) for t in ip.prog.param_types(f)]
    if kinds != ["problem", "blocks", "names", "masks", "options"]:
        return NotImplemented
    ip.main_log.append(dict(zip(kinds, [args[0]] + [ip.load(x) for x in args[1:]])))
    return Struct(NS + "CovarianceResult", {"token": num(len(ip.main_log)) + var("maintoken", "I")})


def block(i):
    return Ptr("blk", (("i", num(i)),), ZERO)


def size(i):
    return app("len:pbsize", (lib.keyterm(block(i)),), "I")


def member(i):
    return pred("haspb", lib.keyterm(block(i)))


def prove(ctx):
    prog = ctx.program("opt:covariance_analysis.cpp")
    fns = prog.find(NS + "computeCovariance")

    def entry(kinds, contracts):
        for f in fns:
            if [ptype(t) for t in prog.param_types(f)] == kinds:
                break
        else:
            raise Unsupported("overload of computeCovariance")
        ip = ctx.interp(prog, contracts)
        # the parameter blocks are the rows of one table
        ip.mem["blk"] = Seq([Fun(var("len:nblk", "I"), lambda i: Seq([Fun(size(i), lambda j: app("x", (num(i), num(j))))]))])
        npb = var("len:npb", "I")
        prob = Struct("ceres::Problem", {"blocks": Seq(), "npb": npb, "pblocks": Seq([Fun(npb, lambda k: block(k))])})
        d = {}
        args = []
        for k, t, p in zip(kinds, prog.param_types(f), f["params"]):
            if k == "problem":
                v = prob
            elif k == "blocks":
                v = Seq([Fun(var("len:blocks", "I"), lambda k: block(k))])
            elif k == "options":
                v = Struct("ceres::Covariance::Options", {"token": var("options", "I")})
            else:
                v = sym(ip, t, k)
            args.append(Ref(ip.new(v, "arg")))
            d[k] = v

        def body():
            ip.res_log, ip.main_log, ip.cov_problem, ip.ghost_cov = [], [], None, None
            v = ip.call_fn(f, args, None)
            return v, list(ip.res_log), list(ip.main_log), ip.cov_problem, ip.ghost_cov

        return ip, d, args, ip.explore(body)

    def main():
        L = "computeCovariance(blocks, names)"
        ip, d, args, paths = entry(["problem", "blocks", "names", "masks", "options"], {NS + "computeCovarianceResults": c_results})
        blocks, names, masks = d["blocks"], d["names"], d["masks"]
        nb = blocks.length()
        blk = lambda k: block(k)
        sz = lambda k: size(k)

        def entry_of(m, k):
            return lib.map_lookup(ip, m, blk(k))

        has = lambda k: entry_of(names, k)[0]
        cnt = lambda k: entry_of(names, k)[1].length()
        missing = quant("ex", nb, lambda k: bnot(has(k)))
        mismatch = quant("ex", nb, lambda k: bor(bnot(has(k)), bnot(eq(cnt(k), sz(k)))))
        unknown = quant("ex", nb, lambda k: bnot(member(k)))
        count = eq(nb, lib.map_size(ip, names))

        def masked(k, i):
            f, v = entry_of(masks, k)
            return band(f, quant("ex", v.length(), lambda q: eq(v.at(q), i)))

        nn = nb
        free = lambda item: Seq([Gen(nn, lambda k: Seq([Gen(sz(k), lambda i: Seq([If(bnot(masked(k, i)), Seq([Items([item(k, i)])]))]))]))])
        want_names = free(lambda k, i: entry_of(names, k)[1].at(i))
        want_idx = free(lambda k, i: summ(k, lambda q: sz(q)) + i)
        ok, thrown = [p for p in paths if p.kind in ("normal", "return")], [p for p in paths if p.kind == "throw"]
        ctx.ob(L + ": some input yields a result", (), "bool", bconst(bool(ok)), TRUE)
        for p in thrown:
            t = getattr(p.val, "ty", "")
            if t == NS + "CovarianceException":
                ctx.ob(L + ": a covariance exception only for unknown blocks, wrong numbers of names or a failing computation", p.pc, "bool", band(count, bnot(mismatch), bnot(unknown), pred("cov_compute_ok"), pred("cov_get_ok")), FALSE)
            else:
                ctx.ob(L + ": another exception only when a block has no entry in the names", p.pc, "bool", band(count, bnot(missing)), FALSE)
        for p in ok:
            v, res, _, cp, gc = p.val
            pc = tuple(p.pc)
            ctx.ob(L + ": refuses a wrong number of blocks", pc, "bool", count, TRUE)
            ctx.ob(L + ": refuses blocks with a wrong number of names", pc, "bool", mismatch, FALSE)
            ctx.ob(L + ": refuses blocks that are not part of the problem", pc, "bool", unknown, FALSE)
            ctx.ob(L + ": refuses a failing covariance computation", pc, "bool", band(pred("cov_compute_ok"), pred("cov_get_ok")), TRUE)
            ctx.ob(L + ": the covariance of this problem with these options", pc, "bool", bconst(cp is not None and isinstance(cp[0], Ptr) and cp[0].loc == args[0].loc and isinstance(cp[1], Struct) and same(cp[1], d["options"])), TRUE)
            for q, nm in zip(gc or (None, None), ("computed for", "read for")):
                ctx.obs_eq(L + ": %s the given blocks in the given order" % nm, q, blocks, pc)
            ctx.ob(L + ": one list of results", pc, "bool", bconst(len(res) == 1), TRUE)
            if len(res) != 1:
                continue
            M, nm = to_dmat(res[0][0]), res[0][1]
            ctx.obs_eq(L + ": the names of the unmasked parameters in order", nm, want_names, pc)
            n = want_names.length()
            ctx.ob(L + ": rows of the matrix", pc, "eq", M.r, n)
            ctx.ob(L + ": columns of the matrix", pc, "eq", M.c, n)
            i, j = fresh("idx"), fresh("idx")
            inr = (le(0, i), lt(i, n), le(0, j), lt(j, n))
            ctx.ob(L + ": each entry is the covariance of the two named parameters", pc + inr, "eq", M.cell(i, j), app("cov", (want_idx.at(i), want_idx.at(j))))
            ctx.obs_eq(L + ": that list is returned", v, Struct(NS + "CovarianceResult", {"token": num(1) + var("restoken", "I")}), pc)

    def forward(kinds):
        L = "computeCovariance(%s)" % ", ".join(k for k in kinds if k not in ("problem", "options", "masks"))
        ip, d, args, paths = entry(kinds, {NS + "computeCovariance": c_main})
        for p in paths:
            if p.kind not in ("normal", "return"):
                bl = d.get("blocks")
                if getattr(p.val, "ty", "") == NS + "CovarianceException":
                    # the blocks that the problem lists are its own
                    allin = quant("all", var("len:npb", "I") if bl is None else bl.length(), member)
                    ctx.ob(L + ": a covariance exception of its own only for unknown blocks", tuple(p.pc), "bool", allin, FALSE)
                else:
                    ctx.ob(L + ": no other exception of its own", p.pc, "bool", FALSE, TRUE)
                continue
            v, _, log, _, _ = p.val
            pc = tuple(p.pc)
            ctx.ob(L + ": one call of the general form", pc, "bool", bconst(len(log) == 1), TRUE)
            if len(log) != 1:
                continue
            c = log[0]
            blocks = d.get("blocks")
            if blocks is None:
                blocks = Seq([Fun(var("len:npb", "I"), lambda k: block(k))])
            ctx.ob(L + ": of the same problem", pc, "bool", bconst(isinstance(c["problem"], Ref) and c["problem"].loc == args[0].loc), TRUE)
            ctx.obs_eq(L + ": for the blocks in order", c["blocks"], blocks, pc)
            ctx.ob(L + ": with the given masks and options", pc, "bool", bconst(same(c["masks"], d["masks"]) and same(c["options"], d["options"])), TRUE)
            if "names" in d:
                ctx.ob(L + ": with the given names", pc, "bool", bconst(same(c["names"], d["names"])), TRUE)
            else:
                k = fresh("idx")
                f, nm = lib.map_lookup(ip, c["names"], block(k))
                pk = pc + (le(0, k), lt(k, blocks.length()))
                ctx.ob(L + ": every block has default names", pk, "bool", f, TRUE)
                sz = size(k)
                want = Seq([Fun(sz, lambda i: Str(["block"]) + to_string(k) + Str(["_element"]) + to_string(num(i)))])
                ctx.obs_eq(L + ": the default names of block k", nm, want, pk)
            ctx.obs_eq(L + ": its result is returned", v, Struct(NS + "CovarianceResult", {"token": num(1) + var("maintoken", "I")}), pc)

    ctx.run("blocks, names", main)
    for kinds in (["problem", "names", "masks", "options"], ["problem", "blocks", "masks", "options"], ["problem", "masks", "options"]):
        ctx.run(" ".join(kinds), lambda: forward(kinds))
