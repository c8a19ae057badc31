"""C01: conversion between poses and the optimisers' 6-vectors is the exponential map and loses nothing."""
from common import *

HARNESS = "c01.cpp"
SOURCES = ["opt:eigen_conversions.cpp"]


def prove(ctx):
    prog = ctx.program("opt:eigen_conversions.cpp")

    def cal():
        ip = ctx.interp(prog)
        f = prog.find("rct_optimizations::poseCalToEigen")[0]
        P = Struct("rct_optimizations::Pose6d", {"values": Arr([var("p%d" % i) for i in range(6)])})
        w, t = P.f["values"].v[:3], P.f["values"].v[3:]
        dot = w[0] * w[0] + w[1] * w[1] + w[2] * w[2]
        eps = num(Fraction(1, 2**52))
        for j, p in enumerate(ip.explore(lambda: ip.call_fn(f, [Ref(ip.new(P, "arg"))]))):
            L = "poseCalToEigen (path %d)" % j
            if p.kind not in ("normal", "return"):
                ctx.ob(L + ": returns", p.pc, "bool", FALSE, TRUE)
                continue
            T = p.val
            for i in range(3):
                ctx.ob("%s: translation %d" % (L, i), p.pc, "eq", T.trans()[i], t[i])
            S = [[ONE, -w[2], w[1]], [w[2], ONE, -w[0]], [-w[1], w[0], ONE]]
            for a in range(3):
                for b in range(3):
                    ctx.ob("%s: rotation (%d,%d) is the exponential when |w|^2 > eps" % (L, a, b), tuple(p.pc) + (lt(eps, dot),), "eq", T.lin().at(a, b), wmat(raa(*w))[3 * a + b])
                    ctx.ob("%s: rotation (%d,%d) is I + [w]x or the exponential when |w|^2 <= eps" % (L, a, b), tuple(p.pc) + (le(dot, eps),), "eq", T.lin().at(a, b), S[a][b])

    def eig():
        ip = ctx.interp(prog)
        f = prog.find("rct_optimizations::poseEigenToCal")[0]
        T = iso_var("T")
        for j, p in enumerate(ip.explore(lambda: ip.call_fn(f, [Ref(ip.new(T, "arg"))]))):
            L = "poseEigenToCal (path %d)" % j
            if p.kind not in ("normal", "return"):
                ctx.ob(L + ": returns", p.pc, "bool", FALSE, TRUE)
                continue
            v = p.val.f["values"].v
            for i in range(3):
                ctx.ob("%s: translation %d" % (L, i), p.pc, "eq", v[3 + i], T.trans()[i])
            for a in range(3):
                for b in range(3):
                    ctx.ob("%s: exp(rotation vector)(%d,%d) is the rotation" % (L, a, b), p.pc, "eq", wmat(raa(*v[:3]))[3 * a + b], T.lin().at(a, b))

    def rt():
        ip = ctx.interp(prog)
        f = prog.find("rct_optimizations::poseCalToEigen")[0]
        g = prog.find("rct_optimizations::poseEigenToCal")[0]
        T = iso_var("T")

        def body():
            q = ip.call_fn(g, [Ref(ip.new(T, "arg"))])
            return ip.call_fn(f, [Ref(ip.new(q, "arg"))])

        for j, p in enumerate(ip.explore(body)):
            ang = app("aangle", (T.lin().rot,))
            ax = [app("aaxis", (T.lin().rot, k)) for k in range(3)]
            dot = sum_((ang * a) * (ang * a) for a in ax)
            ctx.obs_eq("round trip pose -> 6-vector -> pose (path %d)" % j, p.val, T, tuple(p.pc) + (lt(num(Fraction(1, 2**52)), dot),))

    ctx.run("poseCalToEigen", cal)
    ctx.run("poseEigenToCal", eig)
    ctx.run("round trip", rt)
