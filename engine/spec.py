"""Symbolic inputs of repository types, comparison of results with specification values, obligations and their verdicts."""
import sys, time, os, json, traceback
from terms import *
from values import *
import lib, interp, prove, loops
from interp import *
from prove import prove_eq, prove_bool, equiv, refute, infeasible
from lib import MapV, MapBase


# ------------------------------------------------------------------------------------------------------- symbolic inputs
def sc(name, args=(), sort="R"):
    return app(name, tuple(args), sort) if args else var(name, sort)


def sym(ip, t, name, args=()):
    """an arbitrary value of C++ type t"""
    t = clean(t)
    args = tuple(args)
    if t == "bool":
        return bnot(eq(sc(name, args, "I"), 0))
    if t in interp.UBITS:
        return sc("len:" + name, args, "I")
    if t in interp._ints:
        return sc(name, args, "I")
    if t in ("double", "float"):
        return sc(name, args)
    if t.startswith("ceres::Jet<"):
        return sc(name, args)
    m = lib.mat_type(t)
    if m:
        r, c, rm, arr = m
        if r >= 0 and c >= 0:
            return Mat(r, c, [sc("%s[%d]" % (name, j * r + i), args) for i in range(r) for j in range(c)], None, rm)
        R = num(r) if r >= 0 else sc("len:%s.rows" % name, args, "I")
        C = num(c) if c >= 0 else sc("len:%s.cols" % name, args, "I")
        return DMat(R, C, lambda i, j: app(name, args + (num(i), num(j))), rm)
    if t.startswith("Eigen::Transform<"):
        return iso_var(name, args)
    if t.startswith("Eigen::Quaternion<"):
        return Quat(rvar(name, args))
    if t.startswith(("std::vector<", "std::deque<")):
        et = split_targs(t)[0]
        n = sc("len:" + name, args, "I")
        return Seq([Fun(n, lambda k: sym(ip, et, name + "[]", args + (num(k),)))], et)
    if t.startswith("std::basic_string<"):
        return str_var(name, args)
    if t.startswith("std::array<"):
        a = split_targs(t)
        return Arr([sym(ip, a[0], "%s.%d" % (name, i), args) for i in range(int(a[1].rstrip("UL")))])
    if t.startswith("std::pair<"):
        a = split_targs(t)
        return Struct("std::pair", {"first": sym(ip, a[0], name + ".first", args), "second": sym(ip, a[1], name + ".second", args)})
    if t.startswith("std::map<"):
        a = split_targs(t)
        kt = clean(a[0])
        kn = "key:" + name
        if kt.startswith("std::basic_string"):
            key = lambda k: str_var(kn, args + (num(k),))
        else:
            key = lambda k: app(kn, args + (num(k),), "I")
        val = lambda k: sym(ip, a[1], name + ".val", args + (lib.keyterm(k),))
        return MapV(None, MapBase(name, key, val, sc("len:" + name, args, "I"), args), a[0], a[1])
    if "[" in t:
        k = int(t[t.index("[") + 1 : t.index("]")])
        et = t[: t.index("[")] + t[t.index("]") + 1 :]
        return Arr([sym(ip, et.strip(), "%s.%d" % (name, i), args) for i in range(k)])
    if t.startswith(("cv::Point_<", "cv::Point3_<")):
        et = split_targs(t)[0]
        return Struct(t, {c: sym(ip, et, name + "." + c, args) for c in ("xyz" if "Point3" in t else "xy")})
    if t == "cv::KeyPoint":
        f = {"pt": sym(ip, "cv::Point_<float>", name + ".pt", args)}
        f.update({c: sc(name + "." + c, args) for c in ("size", "angle", "response")})
        f.update({c: sc(name + "." + c, args, "I") for c in ("octave", "class_id")})
        return Struct(t, f)
    if t in ip.prog.records:
        return sym_struct(ip, t, name, args)
    if t in ip.enums():
        return sc(name, args, "I")
    if t.startswith(("std::shared_ptr<", "std::unique_ptr<", "cv::Ptr<")) or t.endswith("*"):
        et = split_targs(t)[0] if "<" in t and not t.endswith("*") else clean(t[:-1])
        v = sym(ip, et, name + "*", args)
        return Ptr(ip.new(v, "keep:" + name))
    raise Unsupported("symbolic value of type %s" % t)


def sym_struct(ip, t, name, args=()):
    r = ip.prog.records[t]
    d = {}
    for b in r["bases"]:
        bn = r["tu"].types[b]
        if bn in ip.prog.records:
            d.update(sym_struct(ip, bn, name, args).f)
        else:
            v = sym(ip, bn, name + ".base", args)
            if isinstance(v, Struct):
                d.update(v.f)
    for f in r["fields"]:
        d[f["n"]] = sym(ip, r["tu"].types[f["t"]], name + "." + f["n"], args)
    return Struct(t, d)


# ------------------------------------------------------------------------------------------------------------ comparison
def val_eqs(a, b, label="", pc=()):
    """list of (label, extra facts, kind, x, y)"""
    pc = tuple(pc)
    if isinstance(a, Havoc) or isinstance(b, Havoc):
        return [(label, pc, "havoc", a, b)]
    if isinstance(a, Undef) or isinstance(b, Undef) or a is None or b is None:
        return [] if a is b else [(label, pc, "havoc", Havoc("uninitialised"), b)]
    if isinstance(a, B) or isinstance(b, B):
        f = lambda x: x if isinstance(x, B) else bnot(eq(x, 0))
        return [(label, pc, "bool", f(a), f(b))]
    if isinstance(a, E) and isinstance(b, (E, int, float, Fraction)):
        return [(label, pc, "eq", a, num(b))]
    if isinstance(a, Str) and isinstance(b, Str):
        return [(label, pc, "str", a, b)]
    if isinstance(a, Iso) and isinstance(b, Iso):
        if a.w == b.w:
            return [(label, pc, "eq", ZERO, ZERO)]
        ra, rb = a.rows(), b.rows()
        return [("%s[%d,%d]" % (label, k // 3 if k < 9 else k - 9, k % 3 if k < 9 else 3), pc, "eq", x, y) for k, (x, y) in enumerate(zip(ra, rb))]
    if isinstance(a, (Quat, AA)) or isinstance(b, (Quat, AA)):
        a = lib.as_rot_mat(a) if not isinstance(a, Mat) else a
        b = lib.as_rot_mat(b) if not isinstance(b, Mat) else b
    if isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) == (b.r, b.c):
        return [("%s(%d,%d)" % (label, i, j), pc, "eq", a.at(i, j), b.at(i, j)) for i in range(a.r) for j in range(a.c)]
    if isinstance(a, (Mat, DMat)) and isinstance(b, (Mat, DMat)):
        a, b = to_dmat(a), to_dmat(b)
        i, j = fresh("idx"), fresh("idx")
        f = pc + (lt(i, b.r), lt(j, b.c))
        return [(label + ".rows", pc, "eq", a.r, b.r), (label + ".cols", pc, "eq", a.c, b.c), (label + "(i,j)", f, "eq", a.cell(i, j), b.cell(i, j))]
    if isinstance(a, Struct) and isinstance(b, Struct):
        out = []
        for k in b.f:
            if k not in a.f:
                return [(label, pc, "shape", a, b)]
            out += val_eqs(a.f[k], b.f[k], label + "." + k, pc)
        return out
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.v) == len(b.v):
        return [x for i, (p, q) in enumerate(zip(a.v, b.v)) for x in val_eqs(p, q, "%s[%d]" % (label, i), pc)]
    if isinstance(a, Arr):
        a = Seq([Items(a.v)])
    if isinstance(b, Arr):
        b = Seq([Items(b.v)])
    if isinstance(a, Seq) and isinstance(b, Seq):
        if any(isinstance(x, (Gen, If)) for x in a.segs + b.segs):
            a, b = seq_norm(a, pc), seq_norm(b, pc)
            if any(isinstance(x, (Gen, If)) for x in a.segs + b.segs):
                return seq_obs(a, b, label, pc)
        la, lb = a.length(), b.length()
        out = [(label + ".size", pc, "eq", la, lb)]
        c = lb.const()
        if c is not None:
            for i in range(int(c)):
                if la == lb:
                    out += val_eqs(a.at(i), b.at(i), "%s[%d]" % (label, i), pc)
            return out
        if seq_same(a, b):
            return out
        k = fresh("idx")
        return out + val_eqs(a.at(k), b.at(k), label + "[i]", pc + (lt(k, lb),))
    if isinstance(a, (Ptr, Null)) and isinstance(b, (Ptr, Null)):
        return [(label, pc, "bool", bconst(same(a, b)), TRUE)]
    return [(label, pc, "shape", a, b)]


def guarded(c, s):
    """a guarded sequence whose only piece is guarded itself has one guard"""
    if c == TRUE:
        return list(s.segs)
    if c == FALSE:
        return []
    if len(s.segs) == 1 and isinstance(s.segs[0], If):
        return [If(band(c, s.segs[0].c), s.segs[0].s)]
    return [If(c, s)]


def seq_norm(a, facts=()):
    """guards of generated pieces resolved: a guard that selects one index or drops the first one disappears"""
    out = []
    for s in a.segs:
        if isinstance(s, If):
            c = prove.resolve(s.c, facts) if not s.c.loose else s.c
            d = prove.decide(list(facts), c) if not c.loose and c not in (TRUE, FALSE) else None
            c = bconst(d) if d is not None else c
            out += guarded(c, seq_norm(s.s, tuple(facts) + (c,)))
        elif isinstance(s, Gen):
            k = fresh("idx")
            b = seq_norm(s.f(k), tuple(facts) + (lt(k, s.n), le(0, k), le(1, s.n)))
            f = lambda j, b=b, k=k: subst(b, {the_atom(k): num(j)})
            if len(b.segs) == 1 and isinstance(b.segs[0], If):
                c, inner = b.segs[0].c, b.segs[0].s
                parts = list(c.a) if c.k == "and" else [c]
                pick = drop = None
                for p in parts:
                    if p.k == "eq":
                        e = lib.solve_for(p.a[0], the_atom(k))
                        if e is not None and e.isint and the_atom(k) not in e.free:
                            pick = (p, e)
                    elif p.k == "not" and p.a[0].k == "eq":
                        e = lib.solve_for(p.a[0].a[0], the_atom(k))
                        if e is not None and e == ZERO:
                            drop = p
                if pick:
                    rest = band(*[p for p in parts if p is not pick[0]])
                    g = subst(band(rest, le(0, pick[1]), lt(pick[1], s.n)), {the_atom(k): pick[1]})
                    out += list(seq_norm(Seq([If(g, subst(inner, {the_atom(k): pick[1]}))]), facts).segs)
                    continue
                if drop is not None:
                    rest = band(*[p for p in parts if p is not drop])
                    f2 = lambda j, r=rest, inner=inner, k=k: subst(Seq([If(r, inner)]), {the_atom(k): num(j) + 1})
                    out += list(seq_norm(Seq([Gen(s.n - 1, f2)]), facts).segs)
                    continue
            out.append(Gen(s.n, f))
        else:
            out.append(s)
    return Seq(out, a.ety)


def seq_obs(a, b, label, pc):
    """piecewise comparison of two normalised sequences"""
    if len(a.segs) != len(b.segs) or any(type(x) is not type(y) for x, y in zip(a.segs, b.segs)):
        return [(label, pc, "seq", a, b)]
    out = []
    for i, (x, y) in enumerate(zip(a.segs, b.segs)):
        L = label if len(a.segs) == 1 else "%s/part %d" % (label, i)
        if isinstance(x, If):
            out.append((L + " (condition)", pc, "bool", x.c, y.c))
            out += val_eqs(x.s, y.s, L, pc + (y.c,))
        elif isinstance(x, Gen):
            k = fresh("idx")
            out.append((L + " (extent)", pc, "eq", x.n, y.n))
            out += val_eqs(x.f(k), y.f(k), L, pc + (lt(k, y.n), le(0, k)))
        else:
            out += val_eqs(Seq([x]), Seq([y]), L, pc)
    return out


def seq_num(m, s):
    """numeric content of a sequence under an interpretation"""
    out = []
    for g in s.segs:
        if isinstance(g, Items):
            out += list(g.v)
        elif isinstance(g, If):
            if m.b(g.c):
                out += seq_num(m, g.s)
        elif hasattr(g, "cell"):
            out += [g.cell(num(i)) for i in range(int(m.e(g.n)))]
        elif isinstance(g, Gen):
            for i in range(int(m.e(g.n))):
                out += seq_num(m, g.f(num(i)))
        else:
            raise EvalFail("sequence")
    return out


def val_num(m, v):
    if isinstance(v, E):
        return m.e(v)
    if isinstance(v, B):
        return m.b(v)
    if isinstance(v, Str):
        return v.num_(m)
    if isinstance(v, Struct):
        return tuple(val_num(m, x) for k, x in sorted(v.f.items()))
    if isinstance(v, Mat):
        return tuple(val_num(m, v.at(i, j)) for i in range(v.r) for j in range(v.c))
    if isinstance(v, Seq):
        return tuple(val_num(m, x) for x in seq_num(m, v))
    if isinstance(v, Arr):
        return tuple(val_num(m, x) for x in v.v)
    raise EvalFail("value")


def _near(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_near(p, q) for p, q in zip(x, y))
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return abs(x - y) <= 1e-7 * (1 + abs(x) + abs(y))
    return x == y


def refute_seq(pc, a, b, samples, seed):
    bad = good = 0
    wit = None
    for s in range(samples * 8):
        m = Model((seed, s), scale=1.0 if s % 3 else 0.3, maxlen=4)
        try:
            if not all(m.b(p) for p in pc):
                continue
            x, y = val_num(m, a), val_num(m, b)
        except (EvalFail, KeyError, OverflowError, ZeroDivisionError, ValueError):
            continue
        if _near(x, y):
            good += 1
        else:
            bad += 1
            wit = wit or (x, y)
        if good + bad >= samples or bad >= 3:
            break
    if bad >= 2:
        return ("refuted", {"code": str(wit[0])[:800], "spec": str(wit[1])[:800], "samples_ok": good, "samples_bad": bad})
    return ("undecided", "sequences of different form; agree on %d sampled interpretations" % good)


def prove_one(pc, kind, x, y, samples=40, seed=1, fixed=None):
    """('proved', how) / ('refuted', info) / ('undecided', why)"""
    if kind == "havoc":
        return ("undecided", "value not determined: %r" % (x if isinstance(x, Havoc) else y,))
    if kind == "seq":
        return refute_seq(list(pc), x, y, samples, seed)
    if kind == "shape":
        return ("undecided", "different kinds of value: %s / %s" % (type(x).__name__, type(y).__name__))
    try:
        if kind in ("eq", "bool"):
            pc, x, y = prove.simp_div(pc, x, y)
        if kind == "eq":
            r = prove_eq(list(pc), x, y)
        elif kind == "bool":
            r = equiv(list(pc), x, y)
        elif kind == "str":
            e = str_eq(x, y)
            r = prove_bool(list(pc), e) if e != FALSE else prove.Result("undecided")
        else:
            raise Unsupported(kind)
    except Unsupported as e:
        return ("undecided", "unsupported: %s" % e)
    if r.status == "proved":
        return ("proved", r.how)
    try:
        f, info = refute(list(pc), kind, x, y, samples=samples, seed=seed, fixed=fixed)
    except (Unsupported, EvalFail, NotImplementedError, RecursionError) as e:
        return ("undecided", "%s; no numeric evaluation: %s" % (r.detail, e))
    if f == "refuted":
        return ("refuted", info)
    return ("undecided", "no proof; agrees on %s sampled interpretations: %s" % (info, r.detail))


def cases(v, pc=()):
    """split a value at top-level ite conditions? (not needed: prove_eq splits)"""
    return [(tuple(pc), v)]
