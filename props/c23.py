"""C23: == of the public types is the conjunction of the comparisons of all their fields."""
from common import *

HARNESS = "c23.cpp"
SOURCES = []
ASSUMPTIONS = ["finite values (a NaN is unequal to itself)"]
NS = "rct_optimizations::"
PREC = num(1e-12)


def approx(a, b):
    """Eigen's relative comparison at its default precision"""
    n = lambda e: sum_([x * x for x in e])
    na, nb, d = n(a), n(b), n([x - y for x, y in zip(a, b)])
    return le(d, PREC * PREC * ite(le(na, nb), na, nb))


def vec(m):
    return [m.at(i, 0) for i in range(m.r)]


def dyn(a, b):
    na, nb = summ(a.r, lambda i: a.cell(i, ZERO) * a.cell(i, ZERO)), summ(b.r, lambda i: b.cell(i, ZERO) * b.cell(i, ZERO))
    d = summ(a.r, lambda i: (a.cell(i, ZERO) - b.cell(i, ZERO)) * (a.cell(i, ZERO) - b.cell(i, ZERO)))
    return band(eq(a.r, b.r), le(d, PREC * PREC * ite(le(na, nb), na, nb)))


def pose(a, b):
    return approx(a.rows() + [ZERO, ZERO, ZERO, ONE], b.rows() + [ZERO, ZERO, ZERO, ONE])


def seq(a, b, f):
    return band(eq(a.length(), b.length()), quant("all", a.length(), lambda k: f(a.at(k), b.at(k))))


def intr(a, b):
    return band(*[eq(x, y) for x, y in zip(a.f["values"].v, b.f["values"].v)])


def corr(a, b):
    return band(*[approx(vec(a.f[k]), vec(b.f[k])) for k in ("in_image", "in_target")])


def corrs(a, b):
    return seq(a.f["correspondence_set"], b.f["correspondence_set"], corr)


def obs(a, b):
    return band(corrs(a, b), *[pose(a.f[k], b.f[k]) for k in ("to_camera_mount", "to_target_mount")])


def kin(a, b):
    return band(corrs(a, b), *[dyn(a.f[k], b.f[k]) for k in ("camera_chain_joints", "target_chain_joints")])


def meas(a, b):
    return band(pose(a.f["camera_to_target"], b.f["camera_to_target"]), *[dyn(a.f[k], b.f[k]) for k in ("camera_chain_joints", "target_chain_joints")])


def hand(a, b):
    r = band(seq(a.f["observations"], b.f["observations"], obs), *[pose(a.f[k], b.f[k]) for k in ("target_mount_to_target_guess", "camera_mount_to_camera_guess")])
    return band(r, intr(a.f["intr"], b.f["intr"])) if "intr" in a.f else r


TYPES = {"Intr": intr, "Corr2": corr, "Corr3": corr, "Obs2": obs, "Obs3": obs, "Kin2": kin, "Kin3": kin, "Meas": meas, "Hand2": hand, "Hand3": hand}


def parts(b, out):
    if b.k == "and":
        for x in b.a:
            parts(x, out)
    else:
        out.append(b)
    return out


def prove(ctx):
    prog = ctx.program("drv:c23.cpp")

    def one(n, spec):
        f = prog.find(NS + "drvEq" + n)[0]
        L = strip_ref(prog.param_types(f)[0]).replace(NS, "")
        ip = ctx.interp(prog, {})
        a = [sym(ip, t, p["n"]) for t, p in zip(prog.param_types(f), f["params"])]
        for p in run_entry(ip, f, [Ref(ip.new(x, "arg")) for x in a]):
            if p.kind == "throw":
                ctx.ob(L + ": no exception", p.pc, "bool", FALSE, TRUE)
                continue
            v = ip.tob(p.val.val)
            want = spec(*a)
            for k, w in enumerate(parts(want, [])):
                ctx.ob(L + ": equal values agree in every field (%d)" % k, tuple(p.pc) + (v,), "bool", w, TRUE)
            ctx.ob(L + ": values that agree in every field are equal", tuple(p.pc) + (want,), "bool", v, TRUE)
        # lemma: the comparison is symmetric
        ctx.ob(L + ": the specified comparison is symmetric", (want,), "bool", spec(a[1], a[0]), TRUE)

    for n, spec in TYPES.items():
        ctx.run(n, lambda: one(n, spec))
