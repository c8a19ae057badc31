"""Assumed contracts of the dependencies (Eigen, the C++ standard library, Ceres, Boost.Accumulators) as executable models
over symbolic values.  Every model that is applied is recorded in Interp.used as "library" and listed in the evidence."""
import re
from terms import *
from values import *
import terms as T
from interp import *
from interp import idiv_c


class MapV:
    """associative container: log of (key, value) insertions over an optional symbolic base"""

    def __init__(self, ents=None, base=None, kty=None, vty=None):
        self.ents = ents if ents is not None else Seq()
        self.base = base  # object with size(), has(key), val(key), key(k)
        self.kty, self.vty = kty, vty

    @property
    def free(self):
        return self.ents.free | (self.base.free if self.base is not None else frozenset())

    @property
    def lvl(self):
        return self.ents.lvl

    def subst_(self, m, memo):
        return MapV(subst(self.ents, m, memo), subst(self.base, m, memo) if self.base is not None else None, self.kty, self.vty)

    def same_(self, o):
        return same(self.ents, o.ents) and self.base is o.base

    def vite_(self, c, o):
        if self.base is not o.base:
            raise CannotMerge("maps")
        return MapV(vite(c, self.ents, o.ents), self.base, self.kty, self.vty)

    def __repr__(self):
        return "Map(%r)" % (self.ents,)


class MapBase:
    """symbolic map input: `name`, key function key(k) (k-th key in order) and value function val(key)"""

    free = frozenset()
    lvl = 0

    def __init__(self, name, key, val, size=None, args=()):
        self.name, self.key, self.val = name, key, val
        self.size = size if size is not None else var("len:" + name, "I")
        self.args = args

    def has(self, k):
        a = the_atom(k) if isinstance(k, E) else None
        if a is not None and a.kind == "app" and a.args[0] == "key:" + self.name and tuple(a.args[1][:-1]) == tuple(self.args):
            return TRUE  # the key of an entry of this map
        return pred("has:" + self.name, *(tuple(self.args) + (keyterm(k),)))


def keyterm(k):
    if isinstance(k, (E, Str)):
        return k
    if isinstance(k, Ptr):
        return tuple([Str([k.loc])] + [x[1] if isinstance(x, tuple) else Str([x]) for x in k.path] + ([k.off] if k.off is not None else []))
    raise Unsupported("map key %s" % type(k).__name__)


class MapIt:
    """iterator returned by find"""

    def __init__(self, ref, key, found):
        self.ref, self.key, self.found = ref, key, found

    free = frozenset()
    lvl = 0


class FIt:
    """iterator: found ? base+idx : end"""

    def __init__(self, base, idx, found, end=None):
        self.base, self.idx, self.found, self.end = base, idx, found, end

    free = frozenset()
    lvl = 0


def it_pos(p):
    """element offset of an iterator"""
    return p.off if isinstance(p, Ptr) else ite(p.found, p.base.off + p.idx, p.end.off)


class CommaInit:
    def __init__(self, ref):
        self.ref, self.row, self.col, self.h = ref, 0, 0, 0


class RowWise:
    def __init__(self, ref, col=False):
        self.ref, self.colw = ref, col


class LU:
    def __init__(self, kind, m):
        self.kind, self.m = kind, m


def key_eq(ip, a, b):
    if isinstance(a, Str) and isinstance(b, Str):
        return str_eq(a, b)
    if isinstance(a, E) and isinstance(b, E):
        p, q = the_atom(a), the_atom(b)
        if p is not None and q is not None and p.kind == q.kind == "app" and p.args[0] == q.args[0] and p.args[0].startswith("inj:"):
            return band(*[eq(x, y) for x, y in zip(p.args[1], q.args[1])])  # a list without repetition
        return eq(a, b)
    if isinstance(a, (Ptr, Null)) and isinstance(b, (Ptr, Null)):
        return ip.ptr_eq(a, b)
    raise Unsupported("map key comparison")


def map_once(ip, m):
    """entries inserted only if new: their keys must be pairwise distinct"""

    def once(s):
        if isinstance(s, Items):
            return any(x.ty == "std::pair:once" for x in s.v)
        if isinstance(s, Fun):
            return s.cell(fresh("idx")).ty == "std::pair:once"
        if isinstance(s, If):
            return any(once(x) for x in s.s.segs)
        if isinstance(s, Gen):
            return any(once(x) for x in s.f(fresh("idx")).segs)
        return False

    if any(once(s) for s in m.ents.segs):
        if m.base is not None:
            raise Unsupported("insertion into a symbolic map")
        map_size(ip, m)


def map_lookup(ip, m, key):
    """(found condition, value or None)"""
    if m.base is None and m.ents.segs and isinstance(m.ents.segs[-1], Items):
        e = m.ents.segs[-1].v[-1]
        if e.ty == "std::pair:once" and type(e.f["first"]) is type(key) and key_eq(ip, e.f["first"], key) == TRUE:
            return TRUE, e.f["second"]  # the entry just inserted; map_once checks it when the map is read as a whole
    map_once(ip, m)
    return entry_lookup(ip, m, key)


def entry_lookup(ip, m, key):
    # later insertions win
    later = []
    for s in reversed(m.ents.segs):
        f, v = seg_lookup(ip, s, key)
        if f == FALSE:
            continue
        later.append((f, v))
        if f == TRUE:
            break
    found, val = FALSE, None
    if m.base is not None and not (later and later[-1][0] == TRUE):
        found, val = m.base.has(key), m.base.val(key)
    for f, v in reversed(later):
        val = v if val is None or f == TRUE else vite(f, v, val)
        found = bor(f, found)
    return found, val


def seg_lookup(ip, s, key):
    if isinstance(s, Items):
        found, val = FALSE, None
        for it in s.v:
            c = key_eq(ip, it.f["first"], key)
            if c == FALSE:
                continue
            val = it.f["second"] if val is None or c == TRUE else vite(c, it.f["second"], val)
            found = bor(c, found)
        return found, val
    if isinstance(s, If):
        f, v = entry_lookup(ip, MapV(s.s), key)
        return band(s.c, f), v
    if isinstance(s, (Fun, Gen)):
        t = fresh("idx")
        if isinstance(s, Fun):
            it = s.cell(t)
            c, v = key_eq(ip, it.f["first"], key), it.f["second"]
        else:
            c, v = entry_lookup(ip, MapV(s.f(t)), key)
        if c == FALSE:
            return FALSE, None
        ta = the_atom(t)
        parts = c.a if c.k == "and" else (c,)
        for p in parts:
            if p.k == "eq":
                e = solve_for(p.a[0], ta)
                if e is not None:
                    m = {ta: e}
                    rest = band(*[subst(q, m) for q in parts if q is not p])
                    cond = band(le(0, e), lt(e, s.n), rest)
                    return cond, subst(v, m)
        if c == TRUE:
            return lt(0, s.n), subst(v, {ta: s.n - 1})
        raise Unsupported("map lookup by symbolic key: %s" % show(c))
    raise Unsupported("map lookup")


def solve_for(p, ta):
    """p == 0 solved for ta (coefficient +-1)"""
    for m, c in p.t:
        if len(m) == 1 and m[0] == (ta, 1) and abs(c) == 1:
            rest = E(tuple((mm, cc) for mm, cc in p.t if mm != m))
            if ta in rest.free:
                return None
            return scale(rest, -F1 / c)
    return None


# ------------------------------------------------------------------------------------------------------ path components
def lin_index(v, k):
    """column-major linear index -> (i, j)"""
    k = num(k)
    if isinstance(v, Mat):
        if v.c == 1:
            return k, ZERO
        if v.r == 1:
            return ZERO, k
        r = v.r
        if v.rm:
            q, m = divmod_(k, v.c)
            return q, m
        q, m = divmod_(k, r)
        return m, q
    if v.c == ONE:
        return k, ZERO
    if v.r == ONE:
        return ZERO, k
    if v.rm:
        return T.idiv(k, v.c), T.imod(k, v.c)
    return T.imod(k, v.r), T.idiv(k, v.r)


def get_comp(ip, v, c):
    if isinstance(v, Ref):
        v = ip.load(v)
    if isinstance(v, Havoc):
        raise Unsupported("value not summarised: %s" % getattr(v, "why", v))
    if isinstance(c, str):
        if isinstance(v, Struct):
            if c not in v.f:
                raise Unsupported("field %s of %s" % (c, v.ty))
            return v.f[c]
        raise Unsupported("field %s of %s" % (c, type(v).__name__))
    k = c[0]
    if isinstance(v, ArrV) and k != "arr":
        return get_comp(ip, v.m, c)
    if k == "i":
        if isinstance(v, Seq):
            return v.at(c[1])
        if isinstance(v, Arr):
            return arr_at(v, c[1])
        if isinstance(v, (Mat, DMat)):
            i, j = lin_index(v, c[1])
            return mat_at(v, i, j)
        if isinstance(v, Quat):
            return arr_at(Arr(v.coeffs()), c[1])
        if isinstance(v, MapV):
            return map_entry(ip, v, c[1])
        if isinstance(v, (E, B)) and num(c[1]).const() == 0:
            return v
        if isinstance(v, Iso):
            return iso_at(v, T.imod(num(c[1]), num(4)), T.idiv(num(c[1]), num(4)))
        if isinstance(v, Struct) and v.ty.startswith("std::pair"):
            return list(v.f.values())[int(num(c[1]).const())]
        raise Unsupported("index into %s" % type(v).__name__)
    if k == "ij":
        if isinstance(v, Iso):
            return iso_at(v, c[1], c[2])
        return mat_at(v, c[1], c[2])
    if k == "blk":
        _, r0, c0, nr, nc = c
        return block_get(v if not isinstance(v, Iso) else iso_mat4(v), r0, c0, nr, nc)
    if k == "diag":
        n = v.r
        return Mat(n, 1, [v.at(i, i) for i in range(n)]) if isinstance(v, Mat) else DMat(v.r, ONE, lambda i, j: v.cell(i, i))
    if k == "lin":
        return v.lin()
    if k == "tra":
        return Mat(3, 1, v.trans())
    if k == "mat4":
        return iso_mat4(v)
    if k == "T":
        return mat_T(v)
    if k == "arr":
        return ArrV(v.m if isinstance(v, ArrV) else v)
    if k == "unarr":
        return v
    if k == "coeffs":
        return Mat(4, 1, v.coeffs()) if c[1] is None else Mat(3, 1, v.coeffs()[:3])
    if k == "aaang":
        return v.angle
    if k == "aaax":
        return v.axis
    if k == "key":
        f, val = map_lookup(ip, v, c[1])
        if val is None:
            return default_value(ip, v.vty, True) if v.vty else UNDEF
        d = ip.decide(f) if f.k != "c" else f.a[0]
        if d is True:
            return val
        if d is False:
            return default_value(ip, v.vty, True)
        return val if v.vty is None else vite(f, val, default_value(ip, v.vty, True))
    if k == "pairkey":
        f, val = map_lookup(ip, v, c[1])
        if val is None:
            raise Unsupported("dereference of a failed find")
        return Struct("std::pair", {"first": c[1], "second": val})
    if k == "seg":
        # a matrix view of the elements [off, off+r*c) of the container
        _, off, r, cc, rm = c
        get = lambda q: get_comp(ip, v, ("i", off + q))
        if r.const() is not None and cc.const() is not None:
            R, C = int(r.const()), int(cc.const())
            return Mat(R, C, [get(num(i * C + j if rm else j * R + i)) for i in range(R) for j in range(C)], None, rm)
        if rm:
            return DMat(r, cc, lambda i, j: get(i * cc + j), True)
        return DMat(r, cc, lambda i, j: get(j * r + i))
    raise Unsupported("component %r" % (c,))


def iso_mat4(v):
    L, t = v.lin(), v.trans()
    e = []
    for i in range(3):
        e += [L.at(i, 0), L.at(i, 1), L.at(i, 2), t[i]]
    return Mat(4, 4, e + [ZERO, ZERO, ZERO, ONE])


def iso_at(v, i, j):
    return mat_at(iso_mat4(v), i, j)


def iso_from_mat4(m):
    L = Mat(3, 3, [m.at(i, j) for i in range(3) for j in range(3)])
    return iso_rt(relin(L), tuple(m.at(i, 3) for i in range(3)))


def relin(L):
    """recognise the matrix of a rotation word"""
    if L.rot is not None:
        return L
    if L.e == wmat(ID):
        return rotmat(ID)
    a = the_atom(L.e[0])
    if a is not None and a.kind == "ent":
        for s in (1, -1):
            w = W([(a.args[0], s)])
            if wmat(w) == L.e:
                return rotmat(w)
    return L


def arr_at(v, k):
    k = num(k)
    c = k.const()
    if c is not None:
        if not (0 <= c < len(v.v)):
            raise Unsupported("array index %s out of range %d" % (c, len(v.v)))
        return v.v[int(c)]
    x = v.v[-1]
    for i in range(len(v.v) - 2, -1, -1):
        x = vite(eq(k, i), v.v[i], x)
    return x


def block_get(v, r0, c0, nr, nc):
    r0, c0, nr, nc = num(r0), num(c0), num(nr), num(nc)
    if nr.const() is not None and nc.const() is not None and nr.const() * nc.const() <= 64:
        return Mat(int(nr.const()), int(nc.const()), [mat_at(v, r0 + i, c0 + j) for i in range(int(nr.const())) for j in range(int(nc.const()))])
    v0 = v
    return DMat(nr, nc, lambda i, j: mat_at(v0, r0 + i, c0 + j))


def mat_set(v, i, j, x):
    i, j = num(i), num(j)
    if isinstance(v, Mat):
        ci, cj = i.const(), j.const()
        if ci is not None and cj is not None:
            if not (0 <= ci < v.r and 0 <= cj < v.c):
                raise Unsupported("matrix write out of range")
            l = list(v.e)
            l[int(ci) * v.c + int(cj)] = num(x)
            m = Mat(v.r, v.c, l, None, v.rm)
            return m
        return Mat(v.r, v.c, [ite(band(eq(i, a), eq(j, b)), num(x), v.at(a, b)) for a in range(v.r) for b in range(v.c)], None, v.rm)
    return DMat(v.r, v.c, lambda a, b: ite(band(eq(a, i), eq(b, j)), num(x), v.cell(a, b)), v.rm)


def block_set(v, r0, c0, nr, nc, val):
    r0, c0, nr, nc = num(r0), num(c0), num(nr), num(nc)
    val = val.m if isinstance(val, ArrV) else val
    val = vec_orient(val, nr, nc)
    if isinstance(v, Mat) and r0.const() is not None and c0.const() is not None and isinstance(to_fixed(val), Mat):
        val = to_fixed(val)
        for i in range(val.r):
            for j in range(val.c):
                v = mat_set(v, r0 + i, c0 + j, val.at(i, j))
        return v
    v0 = to_dmat(v)
    val0 = val

    def cell(a, b):
        conds = []
        for x, x0, n in ((a, r0, nr), (b, c0, nc)):
            if n == ONE:
                conds.append(eq(x, x0))
            else:
                conds += [le(x0, x), lt(x, x0 + n)]
        c = band(*conds)
        if c == FALSE:
            return v0.cell(a, b)
        ia = ZERO if nr == ONE else a - r0
        ib = ZERO if nc == ONE else b - c0
        if c == TRUE:
            return mat_at(val0, ia, ib)
        return ite(c, guarded_at(val0, ia, ib), v0.cell(a, b))

    r = DMat(v0.r, v0.c, cell, v0.rm)
    return r


def guarded_at(m, i, j):
    if isinstance(m, Mat):
        ci, cj = i.const(), j.const()
        if (ci is not None and not 0 <= ci < m.r) or (cj is not None and not 0 <= cj < m.c):
            return ZERO
    return mat_at(m, i, j)


def vec_orient(val, nr, nc):
    """Eigen assigns vectors to rows and columns alike"""
    if isinstance(val, Mat):
        if val.c == 1 and val.r != 1 and nr == ONE:
            return mat_T(val)
        if val.r == 1 and val.c != 1 and nc == ONE:
            return mat_T(val)
    elif isinstance(val, DMat):
        if val.c == ONE and nr == ONE and nc != ONE:
            return mat_T(val)
    return val


def set_comp(ip, v, c, val):
    if isinstance(val, Ref):
        val = ip.load(val)
    if isinstance(v, Undef):
        raise Unsupported("write into an uninitialised object")
    if isinstance(c, str):
        d = dict(v.f)
        d[c] = convert_assign(ip, d.get(c), val)
        return Struct(v.ty, d)
    k = c[0]
    if isinstance(v, ArrV):
        return ArrV(set_comp(ip, v.m, c, val))
    if k == "i":
        if isinstance(v, Seq):
            old = v.at(c[1])
            return v.set(c[1], convert_assign(ip, old, val))
        if isinstance(v, Arr):
            q = num(c[1]).const()
            if q is not None:
                if not (0 <= q < len(v.v)):
                    raise Unsupported("array write out of range")
                l = list(v.v)
                l[int(q)] = convert_assign(ip, l[int(q)], val)
                return Arr(l)
            return Arr([vite(eq(c[1], i), val, x) for i, x in enumerate(v.v)])
        if isinstance(v, (Mat, DMat)):
            i, j = lin_index(v, c[1])
            return mat_set(v, i, j, val)
        if isinstance(v, Quat):
            l = list(v.coeffs())
            l[int(num(c[1]).const())] = val
            return Quat(None, tuple(l))
        if isinstance(v, MapV):
            e = map_entry(ip, v, c[1])
            return map_set(ip, v, e.f["first"], val.f["second"])
        if isinstance(v, (E, B)) and num(c[1]).const() == 0:
            return val
        raise Unsupported("index write into %s" % type(v).__name__)
    if k == "ij":
        if isinstance(v, Iso):
            return iso_from_mat4(mat_set(iso_mat4(v), c[1], c[2], val))
        return mat_set(v, c[1], c[2], val)
    if k == "blk":
        if isinstance(v, Iso):
            return iso_from_mat4(block_set(iso_mat4(v), *c[1:], val))
        return block_set(v, *c[1:], val)
    if k == "diag":
        for i in range(v.r):
            v = mat_set(v, i, i, mat_at(val, i, 0))
        return v
    if k == "lin":
        m = as_rot_mat(val)
        return iso_rt(relin(m), v.trans())
    if k == "tra":
        val = to_fixed(val)
        return iso_rt(v.lin(), val.e)
    if k == "mat4":
        return iso_from_mat4(to_fixed(val))
    if k == "T":
        return mat_T(val)
    if k == "arr":
        x = val.m if isinstance(val, ArrV) else val
        return ArrV(x) if isinstance(v, ArrV) else x
    if k == "unarr":
        return val
    if k == "coeffs":
        if c[1] is None:
            return Quat(None, tuple(val.e))
        return Quat(None, tuple(val.e[:3]) + (v.coeffs()[3],))
    if k == "aaang":
        return AA(val, v.axis)
    if k == "aaax":
        return AA(v.angle, val)
    if k == "key":
        return map_set(ip, v, c[1], val)
    if k == "pairkey":
        return map_set(ip, v, c[1], val.f["second"])
    if k == "seg":
        _, off, r, cc, rm = c
        val = val.m if isinstance(val, ArrV) else val
        val = vec_orient(val, r, cc)
        R, C = r.const(), cc.const()
        if R is None or C is None:
            # a view over a whole symbolic container
            if isinstance(v, Seq):
                old = v
                if rm:
                    cellf = lambda q: mat_at(val, T.idiv(q - off, cc), T.imod(q - off, cc))
                elif cc == ONE:
                    cellf = lambda q: mat_at(val, q - off, ZERO)
                else:
                    cellf = lambda q: mat_at(val, T.imod(q - off, r), T.idiv(q - off, r))
                return Seq([Fun(old.length(), lambda q: vite(band(le(off, q), lt(q, off + r * cc)), cellf(q), old.at(q)))], v.ety)
            raise Unsupported("view write")
        for i in range(int(R)):
            for j in range(int(C)):
                q = num(i * int(C) + j if rm else j * int(R) + i)
                v = set_comp(ip, v, ("i", off + q), mat_at(val, num(i), num(j)))
        return v
    raise Unsupported("write component %r" % (c,))


def map_set(ip, m, key, val):
    # overwrite the last entry when the key is syntactically the same
    segs = m.ents.segs
    if segs and isinstance(segs[-1], Items):
        l = list(segs[-1].v)
        for i in range(len(l) - 1, -1, -1):
            if key_eq(ip, l[i].f["first"], key) == TRUE:
                l[i] = Struct("std::pair" if getattr(ip, "assigning", False) else l[i].ty, {"first": l[i].f["first"], "second": val})
                return MapV(Seq(segs[:-1] + (Items(l),)), m.base, m.kty, m.vty)
    return MapV(m.ents.append(Struct("std::pair", {"first": key, "second": val})), m.base, m.kty, m.vty)


def map_entry(ip, m, k):
    if m.base is not None and not m.ents.segs:
        key = m.base.key(k)
        return Struct("std::pair", {"first": key, "second": m.base.val(key)})
    if m.base is None and all(isinstance(s, Items) for s in m.ents.segs):
        l = list(m.ents.segs[0].v)
        try:
            l.sort(key=lambda e: e.f["first"].lit() if isinstance(e.f["first"], Str) else e.f["first"].const())
        except Exception:
            raise Unsupported("order of map entries")
        return arr_at(Arr(l), k)
    raise Unsupported("iteration over a map with symbolic keys")


def map_size(ip, m):
    if m.base is not None and not m.ents.segs:
        return m.base.size
    if m.base is not None:
        raise Unsupported("size of an extended symbolic map")
    # keys must be pairwise distinct
    segs = m.ents.segs
    for a in range(len(segs)):
        for b in range(a, len(segs)):
            if not segs_disjoint(ip, segs[a], segs[b], a == b):
                raise Unsupported("size of a map whose keys may coincide")
    return m.ents.length()


def seg_key(s, t):
    if isinstance(s, Fun):
        return s.cell(t).f["first"]
    raise Unsupported("map keys")


def segs_disjoint(ip, a, b, same_seg):
    def keys(s):
        if isinstance(s, Items):
            return [(i.f["first"], None, None, TRUE) for i in s.v]
        t = fresh("idx")
        if isinstance(s, Gen):
            out = []

            def flat(q, c):
                for g in q.segs:
                    if isinstance(g, Items):
                        out.extend((i.f["first"], t, s.n, c) for i in g.v)
                    elif isinstance(g, If):
                        flat(g.s, band(c, g.c))
                    else:
                        raise Unsupported("map keys")

            flat(s.f(t), TRUE)
            return out
        return [(seg_key(s, t), t, s.n, TRUE)]

    ka, kb = keys(a), keys(b)
    for i, (x, tx, nx, cx) in enumerate(ka):
        for j, (y, ty, ny, cy) in enumerate(kb):
            if same_seg and tx is None and i == j:
                continue
            c = band(cx, cy, key_eq(ip, x, y))
            if same_seg and tx is not None and i == j:
                c = band(c, bnot(eq(tx, ty)))
            facts = []
            for t, n in ((tx, nx), (ty, ny)):
                if t is not None:
                    facts += [lt(t, n)]
            if c == FALSE:
                continue
            if not infeasible(list(ip.pc) + facts + [c]):
                return False
    return True


def as_rot_mat(val):
    if isinstance(val, AA):
        return rotmat(val.rot())
    if isinstance(val, Quat):
        w = val.rot()
        return rotmat(w) if w is not None else quat_mat(val)
    if isinstance(val, Iso):
        return val.lin()
    return to_fixed(val)


def quat_mat(q):
    x, y, z, w = q.coeffs()
    two = num(2)
    return Mat(
        3,
        3,
        [
            ONE - two * (y * y + z * z),
            two * (x * y - z * w),
            two * (x * z + y * w),
            two * (x * y + z * w),
            ONE - two * (x * x + z * z),
            two * (y * z - x * w),
            two * (x * z - y * w),
            two * (y * z + x * w),
            ONE - two * (x * x + y * y),
        ],
    )


def to_iso(val):
    if isinstance(val, Iso):
        return val
    if isinstance(val, (AA, Quat)):
        return iso_rt(as_rot_mat(val), (ZERO, ZERO, ZERO))
    if isinstance(val, Mat) and (val.r, val.c) == (4, 4):
        return iso_from_mat4(val)
    if isinstance(val, Mat) and (val.r, val.c) == (3, 4):
        return iso_rt(relin(Mat(3, 3, [val.at(i, j) for i in range(3) for j in range(3)])), tuple(val.at(i, 3) for i in range(3)))
    if isinstance(val, Mat) and (val.r, val.c) == (3, 3):
        return iso_rt(relin(val), (ZERO, ZERO, ZERO))
    raise Unsupported("isometry from %s" % type(val).__name__)


def mat_word(m):
    m = relin(to_fixed(m))
    if m.rot is None:
        raise Unsupported("rotation from a matrix not known to be a rotation: %r" % (m,))
    return m.rot


def convert_assign(ip, old, val):
    if isinstance(val, Ref):
        val = ip.load(val)
    if isinstance(old, ArrV):
        return val if isinstance(val, ArrV) else ArrV(val)
    if isinstance(val, ArrV) and isinstance(old, (Mat, DMat)):
        val = val.m
    if isinstance(old, Iso) and not isinstance(val, Iso):
        return to_iso(val)
    if isinstance(old, Mat):
        if isinstance(val, (Quat, AA)):
            return as_rot_mat(val)
        if isinstance(val, DMat):
            f = to_fixed(val)
            val = f
        if isinstance(val, Iso):
            return iso_mat4(val)
        if isinstance(val, Mat) and (val.r, val.c) != (old.r, old.c):
            if val.r * val.c == old.r * old.c and 1 in (val.r, val.c):
                val = Mat(old.r, old.c, val.e)
        if isinstance(val, Mat) and val.rm != old.rm:
            val = Mat(val.r, val.c, val.e, val.rot, old.rm)
        return val
    if isinstance(old, Quat):
        if isinstance(val, AA):
            return Quat(val.rot())
        if isinstance(val, (Mat, DMat)):
            return Quat(mat_word(val))
        return val
    if isinstance(old, AA):
        if isinstance(val, (Mat, DMat)):
            w = mat_word(val)
            return AA(app("aangle", (w,)), Mat(3, 1, [app("aaxis", (w, k)) for k in range(3)]))
        if isinstance(val, Quat):
            return convert_assign(ip, old, as_rot_mat(val))
        return val
    return val


# -------------------------------------------------------------------------------------------------------------- types
_mt = re.compile(r"^Eigen::(Matrix|Array)<")


def mat_type(t):
    """(rows, cols, rowmajor, isarray) with -1 for dynamic, or None"""
    if not _mt.match(t):
        return None
    a = split_targs(t)
    opt = int(a[3]) if len(a) > 3 else 0
    return int(a[1]), int(a[2]), bool(opt & 1), t.startswith("Eigen::Array")


def fresh_undef(n):
    return [fresh("undef", "R") for _ in range(n)]


def default_value(ip, t, quiet=False):
    t0 = t
    if t is None:
        return UNDEF
    t = clean(t)
    if scalar_type(t) or t.endswith("*"):
        return UNDEF
    m = mat_type(t)
    if m:
        r, c, rm, arr = m
        if r >= 0 and c >= 0:
            v = Mat(r, c, fresh_undef(r * c), None, rm)
        else:
            v = DMat(num(max(r, 0)), num(max(c, 0)), lambda i, j: ZERO, rm)
        return ArrV(v) if arr else v
    if t.startswith("Eigen::Transform<"):
        u = fresh_undef(12)
        return iso_rt(Mat(3, 3, u[:9]), tuple(u[9:]))
    if t.startswith("Eigen::Quaternion<"):
        return Quat(None, tuple(fresh_undef(4)))
    if t.startswith("Eigen::AngleAxis<"):
        u = fresh_undef(4)
        return AA(u[0], Mat(3, 1, u[1:]))
    if t.startswith("Eigen::Translation<"):
        u = fresh_undef(3)
        return iso_rt(rotmat(ID), tuple(u))
    if t.startswith(("std::vector<", "std::deque<", "std::list<")):
        return Seq((), split_targs(t)[0])
    if t.startswith("std::basic_string<") or t in ("std::string", "std::__cxx11::basic_string<char>"):
        return Str()
    if t.startswith("std::__cxx11::basic_string<"):
        return Str()
    if t.startswith("std::array<"):
        a = split_targs(t)
        return Arr([default_value(ip, a[0]) for _ in range(int(a[1].rstrip("UL")))])
    if t.startswith(("std::map<", "std::unordered_map<")):
        a = split_targs(t)
        return MapV(None, None, a[0], a[1])
    if t.startswith("std::pair<"):
        a = split_targs(t)
        return Struct("std::pair", {"first": zero_value(ip, a[0]), "second": zero_value(ip, a[1])})
    if t.startswith("boost::accumulators::accumulator_set"):
        return Struct("acc", {"xs": Seq()})
    if t.startswith("boost::accumulators::detail::_enabler"):
        return Struct(t, {})
    if "stringstream" in t:
        return Struct("ss", {"s": Str()})
    if "[" in t:
        k = int(t[t.rindex("[") + 1 : t.rindex("]")])
        if t.count("[") > 1:
            i = t.index("[")
            et = t[:i] + t[t.index("]") + 1 :]
            k = int(t[i + 1 : t.index("]")])
        else:
            et = t[: t.rindex("[")].strip()
        return Arr([default_value(ip, et) for _ in range(k)])
    if t in ("ceres::Problem",):
        return Struct("ceres::Problem", {"blocks": Seq(), "extra": Seq()})
    if t in ("ceres::Solver::Summary", "ceres::Solver::Options", "ceres::Covariance::Options"):
        return Opts(t)
    if t in ip.prog.records:
        return ip.default_struct(t)
    if t in ("std::runtime_error", "std::exception", "std::logic_error"):
        return Struct(t, {"what": Str()})
    if t.startswith(("std::mt19937", "std::mersenne_twister_engine", "std::random_device", "std::uniform_", "std::normal_distribution")):
        return Struct("rng", {"n": ZERO})
    if t.startswith(("std::shared_ptr<", "std::unique_ptr<", "cv::Ptr<")):
        return NULL
    if t == "YAML::Node":
        return Struct(t, {})
    if quiet:
        return Struct(t, {})
    if t in ip.enums():
        return UNDEF
    raise Unsupported("default value of type %s" % t0)


class Opts(Struct):
    """options object: fields appear when written"""

    def __init__(self, ty, f=None):
        Struct.__init__(self, ty, f or {})


def zero_value(ip, t):
    t = clean(t)
    if t == "bool":
        return FALSE
    if scalar_type(t):
        return ZERO
    if t.endswith("*"):
        return NULL
    if t.startswith("std::array<"):
        a = split_targs(t)
        return Arr([zero_value(ip, a[0]) for _ in range(int(a[1].rstrip("UL")))])
    if "[" in t:
        k = int(t[t.rindex("[") + 1 : t.rindex("]")])
        et = t[: t.rindex("[")].strip()
        return Arr([zero_value(ip, et) for _ in range(k)])
    if t in ip.enums():
        return ZERO
    return default_value(ip, t)


def coerce(ip, v, t):
    if v is None or isinstance(v, (Undef, Havoc)):
        return v
    t = clean(t)
    if isinstance(v, (E, B)):
        if t == "bool":
            return v if isinstance(v, B) else bnot(eq(v, 0))
        if scalar_type(t):
            return v if isinstance(v, E) else ite(v, ONE, ZERO)
        m = mat_type(t)
        if m and m[0] == 1 and m[1] == 1:
            return Mat(1, 1, [num(v)])
        return v
    if scalar_type(t):
        if isinstance(v, Mat) and v.r * v.c == 1:
            return v.e[0]
        if isinstance(v, DMat):
            return v.cell(ZERO, ZERO)
        return v
    m = mat_type(t)
    if m:
        r, c, rm, arr = m
        x = v.m if isinstance(v, ArrV) else v
        if isinstance(x, (Quat, AA)):
            x = as_rot_mat(x)
        if isinstance(x, Iso):
            x = iso_mat4(x)
        if isinstance(x, DMat):
            # a statically known dimension is used
            if r >= 0 and c >= 0:
                if x.r.const() is None or x.c.const() is None:
                    f = x.cell
                    x = Mat(r, c, [f(num(i), num(j)) for i in range(r) for j in range(c)], None, rm) if x.c == num(c) or x.r.const() is None else x
                x = to_fixed(x)
        if isinstance(x, Mat) and r >= 0 and c >= 0:
            if (x.r, x.c) != (r, c):
                if x.r * x.c == r * c and 1 in (r, c):
                    x = Mat(r, c, x.e)
                else:
                    raise Unsupported("matrix conversion %dx%d to %s" % (x.r, x.c, t))
            if x.rm != rm:
                x = Mat(r, c, x.e, x.rot, rm)
        if isinstance(x, (Mat, DMat)):
            if c == 1 and r < 0:
                # dynamic vector
                if isinstance(x, Mat) and x.c != 1 and x.r == 1:
                    x = mat_T(x)
                elif isinstance(x, DMat) and x.c != ONE and x.r == ONE:
                    x = mat_T(x)
            return ArrV(x) if arr else x
        return v
    if t.startswith("Eigen::Transform<"):
        return to_iso(v)
    if t.startswith("Eigen::Quaternion<"):
        return convert_assign(ip, Quat(ID), v)
    if t.startswith("Eigen::AngleAxis<"):
        return convert_assign(ip, AA(ZERO, vec(1, 0, 0)), v)
    return v


def container_size(ip, v):
    v = ip.load(v)
    if isinstance(v, Seq):
        return v.length()
    if isinstance(v, Arr):
        return num(len(v.v))
    if isinstance(v, MapV):
        return map_size(ip, v)
    if isinstance(v, ArrV):
        v = v.m
    if isinstance(v, Mat):
        return num(v.r * v.c)
    if isinstance(v, DMat):
        return v.r * v.c
    if isinstance(v, Str):
        l = v.lit()
        return num(len(l)) if l is not None else app("len:str", (v,), "I")
    raise Unsupported("size of %s" % type(v).__name__)


def range_comp(ip, v):
    return lambda k: ("i", k)


def deref_obj(ip, p):
    if isinstance(p, MapIt):
        return Ref(p.ref.loc, p.ref.path + (("pairkey", p.key),))
    if isinstance(p, FIt):
        return ip.deref(p.base.to(p.base.off + p.idx))
    if isinstance(p, Struct) and "ptr" in p.f:
        return ip.deref(p.f["ptr"])
    raise Unsupported("dereference of %s" % type(p).__name__)


def global_value(ip, q, t):
    if q in ("std::cout", "std::cerr"):
        return Struct("ostream", {})
    if q.startswith("boost::accumulators::extract::"):
        return Struct("extract:" + q.split("::")[-1], {})
    raise Unsupported("global %s" % q)


# -------------------------------------------------------------------------------------------------------------- sequences
def seq_of(ip, v):
    """container value as a Seq"""
    v = ip.load(v)
    if isinstance(v, Seq):
        return v
    if isinstance(v, Arr):
        return Seq([Items(v.v)])
    raise Unsupported("sequence of %s" % type(v).__name__)


def sub_seq(s, a, b):
    """elements [a,b)"""
    a, b = num(a), num(b)
    if a == ZERO and b == s.length():
        return s
    if all(isinstance(x, Items) for x in s.segs) and a.const() is not None and b.const() is not None:
        l = s.segs[0].v if s.segs else ()
        return Seq([Items(l[int(a.const()) : int(b.const())])], s.ety)
    return Seq([Fun(b - a, lambda k: s.at(a + k))], s.ety)


def multiset(sq):
    """what identifies the elements of a sequence of integers up to their order"""
    return (sq.length(), seq_sum(sq, lambda x: app("occurs", (num(x),))))


def distinct(m):
    """how many different values there are (not negative, not more than the elements, none only if there are none)"""
    return app("len:distinct", m, "I")


def seq_sum(s, f):
    r = ZERO
    for g in s.segs:
        if isinstance(g, Items):
            r = r + sum_(f(x) for x in g.v)
        elif isinstance(g, Fun):
            r = r + summ(g.n, lambda t, g=g: f(g.cell(t)))
        elif isinstance(g, Gen):
            r = r + summ(g.n, lambda t, g=g: seq_sum(g.f(t), f))
        elif isinstance(g, If):
            r = r + ite(g.c, seq_sum(g.s, f), ZERO)
        else:
            raise Unsupported("sum over an unknown prefix")
    return r


def it_range(ip, a, b):
    """sequence denoted by an iterator pair"""
    a, b = ip.load(a), ip.load(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.loc == b.loc and a.path == b.path:
        c = ip.load(Ref(a.loc, a.path))
        if isinstance(c, ArrV):
            c = c.m
        if isinstance(c, (Mat, DMat)):
            n = num(c.r * c.c) if isinstance(c, Mat) else c.r * c.c
            c = Seq([Fun(n, lambda k, c=c: mat_at(c, *lin_index(c, k)))])
        if a.rev is not None:
            s = seq_of(ip, c)
            return Seq([Fun(b.off - a.off, lambda k: s.at(a.rev - 1 - a.off - k))], getattr(s, "ety", None))
        return sub_seq(seq_of(ip, c), a.off, b.off)
    raise Unsupported("iterator range")


# -------------------------------------------------------------------------------------------------------------- operators
def scal(x):
    return isinstance(x, (E, B))


def binop(ip, op, a, b):
    a, b = ip.load(a), ip.load(b)
    for x in (a, b):
        if isinstance(x, (Havoc, Undef)):
            raise Unsupported("operand is %s" % type(x).__name__)
    if isinstance(a, Str) or isinstance(b, Str):
        if op == "+":
            return to_str(a) + to_str(b)
        raise Unsupported("string operator " + op)
    if scal(a) and scal(b):
        return ip.arith(op, num(a), num(b), "double")
    if isinstance(a, ArrV) or isinstance(b, ArrV):
        am = a.m if isinstance(a, ArrV) else a
        bm = b.m if isinstance(b, ArrV) else b
        f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y}[op]
        if scal(am):
            return ArrV(mat_map(lambda y: f(num(am), y), bm))
        if scal(bm):
            return ArrV(mat_map(lambda x: f(x, num(bm)), am))
        return ArrV(mat_map(f, am, bm))
    if op in ("+", "-"):
        if isinstance(a, (Mat, DMat)) and isinstance(b, (Mat, DMat)):
            f = (lambda x, y: x + y) if op == "+" else (lambda x, y: x - y)
            if isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) != (b.r, b.c):
                raise Unsupported("matrix sum shapes")
            return mat_map(f, a, b)
    if op == "*":
        if scal(a) and isinstance(b, (Mat, DMat)):
            return mat_map(lambda y: num(a) * y, b)
        if scal(b) and isinstance(a, (Mat, DMat)):
            return mat_map(lambda x: x * num(b), a)
        if isinstance(a, (Mat, DMat)) and isinstance(b, (Mat, DMat)):
            return mat_mul(a, b)
        if isinstance(a, (AA, Quat)) and isinstance(b, (AA, Quat)):
            wa, wb = mat_word(as_rot_mat(a)), mat_word(as_rot_mat(b))
            return Quat(wa * wb)
        if isinstance(a, (AA, Quat)) and isinstance(b, (Mat, DMat)):
            return mat_mul(as_rot_mat(a), b)
        if isinstance(a, (Mat, DMat)) and isinstance(b, (AA, Quat)):
            return mat_mul(a, as_rot_mat(b))
        if isinstance(a, Iso) and isinstance(b, (Iso, AA, Quat)):
            return a * to_iso(b)
        if isinstance(a, (AA, Quat)) and isinstance(b, Iso):
            return to_iso(a) * b
        if isinstance(a, Iso) and isinstance(b, Mat):
            if b.r == 3 and b.c == 1:
                return Mat(3, 1, a.apply(b.e))
            if b.r == 4:
                return mat_mul(iso_mat4(a), b)
            if b.r == 3:
                cols = [a.apply(tuple(b.at(i, j) for i in range(3))) for j in range(b.c)]
                return Mat(3, b.c, [cols[j][i] for i in range(3) for j in range(b.c)])
        if isinstance(a, Iso) and isinstance(b, DMat):
            if b.r == num(4):
                return mat_mul(iso_mat4(a), b)
            return DMat(num(3), b.c, lambda i, j: mat_at(Mat(3, 1, a.apply(tuple(b.cell(num(q), j) for q in range(3)))), i, ZERO))
    if op == "/" and isinstance(a, (Mat, DMat)) and scal(b):
        d = inv(num(b)) if num(b).const() is None else num(F1 / num(b).const())
        return mat_map(lambda x: x * d, a)
    raise Unsupported("%s %s %s" % (type(a).__name__, op, type(b).__name__))


def compare(ip, op, a, b):
    a, b = ip.load(a), ip.load(b)
    if isinstance(a, MapIt) or isinstance(b, MapIt):
        it, o = (a, b) if isinstance(a, MapIt) else (b, a)
        if isinstance(o, Ptr):
            e = bnot(it.found)
            return e if op == "==" else it.found
    if isinstance(a, FIt) or isinstance(b, FIt):
        it, o = (a, b) if isinstance(a, FIt) else (b, a)
        if isinstance(o, Ptr):
            # with the end of the range, or any other position
            e = bnot(it.found) if o == it.end else eq(it_pos(it), o.off)
            return e if op == "==" else bnot(e)
    if op in ("==", "!="):
        e = val_eq(ip, a, b)
        return e if op == "==" else bnot(e)
    if isinstance(a, Str) and isinstance(b, Str):
        la, lb = a.lit(), b.lit()
        if la is not None and lb is not None:
            return bconst({"<": la < lb, ">": la > lb, "<=": la <= lb, ">=": la >= lb}[op])
    raise Unsupported("comparison %s of %s and %s" % (op, type(a).__name__, type(b).__name__))


def val_eq(ip, a, b):
    a, b = ip.load(a), ip.load(b)
    if isinstance(a, ArrV):
        a = a.m
    if isinstance(b, ArrV):
        b = b.m
    if scal(a) and scal(b):
        return ip.compare("==", a, b)
    if isinstance(a, Str) and isinstance(b, Str):
        return str_eq(a, b)
    if isinstance(a, (Ptr, Null)) and isinstance(b, (Ptr, Null)):
        return ip.ptr_eq(a, b)
    if isinstance(a, Mat) and isinstance(b, Mat):
        if (a.r, a.c) != (b.r, b.c):
            return FALSE
        return band(*[eq(x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, Arr) and isinstance(b, Arr):
        return band(*[val_eq(ip, x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, Iso) and isinstance(b, Iso):
        return band(*[eq(x, y) for x, y in zip(a.rows(), b.rows())])
    if isinstance(a, Seq) and isinstance(b, Seq):
        n = a.length()
        lc = eq(n, b.length())
        if lc == FALSE:
            return FALSE
        if same(a, b):
            return TRUE

        def el(k):
            return elem_eq(ip, a.at(k), b.at(k))

        if not a.segs or not b.segs:
            return lc
        return band(lc, quant("all", n, el))
    if isinstance(a, Struct) and isinstance(b, Struct):
        return elem_eq(ip, a, b)
    raise Unsupported("equality of %s and %s" % (type(a).__name__, type(b).__name__))


def elem_eq(ip, x, y):
    """== of two element values: the repository's operator== for its own types"""
    if isinstance(x, Struct) and x.ty in ip.prog.records:
        q = x.ty + "::operator=="
        fs = ip.prog.byq.get(q) or [f for f in ip.prog.byq.get(x.ty.rsplit("::", 1)[0] + "::operator==", []) if len(f["params"]) == 2 and clean(f["tu"].types[f["pt"][0]]) == x.ty]
        if fs:
            f = fs[0]
            rx, ry = Ref(ip.new(x)), Ref(ip.new(y))
            run = (lambda: ip.load(ip.call_fn(f, [ry], rx))) if len(f["params"]) == 1 else (lambda: ip.load(ip.call_fn(f, [rx, ry])))
            v = ip.run_merged_pure(run_catch(run), TRUE)
            return ip.tob(v)
        return band(*[elem_eq(ip, x.f[k], y.f[k]) for k in x.f])
    return val_eq(ip, x, y)


def run_catch(f):
    def g():
        try:
            return f()
        except ReturnEx as e:
            return e.val

    return g


def to_str(v):
    if isinstance(v, Str):
        return v
    if isinstance(v, (E, B)):
        return to_string(num(v))
    raise Unsupported("string from %s" % type(v).__name__)


def isapprox(ip, a, b, prec):
    """Eigen isApprox: ||a-b||^2 <= prec^2 * min(||a||^2, ||b||^2)"""
    if isinstance(a, Iso):
        a, b = iso_mat4(a), iso_mat4(b)
    if isinstance(a, DMat) or isinstance(b, DMat):
        # undefined for different shapes
        a, b = to_dmat(a), to_dmat(b)
        i, j = var("?i", "I"), var("?j", "I")
        n2 = lambda f: summ(a.r, lambda p: f(p, ZERO)) if a.c == ONE else summ(a.r, lambda p: summ(a.c, lambda q: f(p, q)))
        na, nb = n2(lambda p, q: a.cell(p, q) * a.cell(p, q)), n2(lambda p, q: b.cell(p, q) * b.cell(p, q))
        ab = n2(lambda p, q: (a.cell(p, q) - b.cell(p, q)) * (a.cell(p, q) - b.cell(p, q)))
        shape = band(eq(a.r, b.r), eq(a.c, b.c))
        return bor(band(shape, le(ab, prec * prec * ite(le(na, nb), na, nb))), band(bnot(shape), T.pred("undefined:isApprox", a.r, a.c, b.r, b.c)))
    d = [x - y for x, y in zip(a.e, b.e)]
    n2 = lambda e: sum_(x * x for x in e)
    na, nb = n2(a.e), n2(b.e)
    mn = ite(le(na, nb), na, nb)
    return le(n2(d), prec * prec * mn)


# -------------------------------------------------------------------------------------------------------------- calls
def call(ip, q, fref, obj, args, node):
    s = strip_t(q)
    name = s.split("::")[-1]
    ip.used.setdefault(s, "library")
    hook = LIBHOOK.get(s)
    if hook is not None:
        r = hook(ip, q, fref, obj, args, node)
        if r is not NotImplemented:
            return r
    if obj is None:
        return free_call(ip, q, s, name, fref, args, node)
    return member_call(ip, q, s, name, fref, obj, args, node)


LIBHOOK = {}


def tnode(ip, node):
    return clean(ip.ty(node)) if node is not None and "t" in node else ""


def ref_or_val(obj, comp, ip):
    """component view of an lvalue, or of a temporary"""
    if isinstance(obj, Ref):
        return Ref(obj.loc, obj.path + (comp,))
    return get_comp(ip, obj, comp)


def dims(ip, v):
    v = ip.load(v)
    if isinstance(v, ArrV):
        v = v.m
    if isinstance(v, Iso):
        return num(4), num(4)
    return num(v.r), num(v.c)


def fixed_n(q, fref, ip, default=None):
    """template integer argument of head<N>, block<R,C>..."""
    ta = fref.get("ta")
    return ta


def targs_of(fref, ip):
    ta = fref.get("ta")
    if ta is None:
        return []
    if isinstance(ta, str):
        return split_targs(ta) if "<" in ta else [x.strip() for x in ta.split(",")]
    out = []
    for x in ta:
        if isinstance(x, int):
            out.append(ip.tu.types[x])
        else:
            out.append(str(x))
    return out


def assign(ip, obj, val):
    ip.assigning = isinstance(obj, Ref) and bool(obj.path) and obj.path[-1][0] == "key"
    try:
        ip.store(obj, val)
    finally:
        ip.assigning = False


def member_call(ip, q, s, name, fref, obj, args, node):
    v = ip.load(obj)
    A = [ip.load(a) for a in args]
    if isinstance(v, (Undef, Havoc)):
        if name == "operator=":
            assign(ip, obj, A[0])
            return obj
        raise Unsupported("call of %s on %s%s" % (s, type(v).__name__, ": " + v.why if isinstance(v, Havoc) else ""))
    # ---- operators common to all values
    if name == "operator=":
        if isinstance(obj, Ref):
            val = A[0]
            if isinstance(v, (Arr, Seq)) and isinstance(val, Arr) and isinstance(v, Seq):
                val = Seq([Items(val.v)], v.ety)
            if isinstance(v, Str):
                val = to_str(val)
            # a dynamic matrix takes the value's shape; a fixed block view keeps its own
            assign(ip, obj, val)
            return obj
        raise Unsupported("assignment to a temporary")
    if name in ("operator+=", "operator-=", "operator*=", "operator/="):
        op = name[-2]
        b = A[0]
        if isinstance(v, (Ptr,)):
            nv = ip.arith(op, v, b, "ptr")
        else:
            nv = binop(ip, op, v, b)
        ip.store(obj, convert_assign(ip, v, nv))
        return obj
    if name in ("operator==", "operator!="):
        return ip.compare(name[-2:], v, A[0])
    if name in ("operator<", "operator>", "operator<=", "operator>="):
        return ip.compare(name[8:], v, A[0])
    if name == "operator-" and A and isinstance(v, (Ptr, FIt)) and isinstance(A[0], (Ptr, FIt)):
        return it_pos(v) - it_pos(A[0])
    if name in ("operator+", "operator-", "operator*", "operator/") and A:
        if isinstance(v, Ptr):
            if isinstance(A[0], Ptr) and name[-1] == "-":
                return v.off - A[0].off
            return v.to(v.off + A[0] if name[-1] == "+" else v.off - A[0])
        return binop(ip, name[-1], v, A[0])
    if name == "operator-" and not A:
        if isinstance(v, ArrV):
            return ArrV(mat_map(lambda x: -x, v.m))
        return -v if scal(v) else mat_map(lambda x: -x, v)
    if name == "operator*" and not A:
        return ip.deref(v)
    if name == "operator->":
        return v
    if name == "operator bool":
        return ip.tob(v)
    if name == "base" and isinstance(v, Ptr) and v.rev is not None:
        return Ptr(v.loc, v.path, v.rev - v.off)
    if name in ("operator++", "operator--") and isinstance(v, Ptr):
        d = 1 if name.endswith("+") else -1
        nv = v.to((v.off if v.off is not None else ZERO) + d)
        ip.store(obj, nv)
        return v if A else obj
    if isinstance(v, CommaInit):
        return comma(ip, v, name, A)
    if isinstance(v, Struct):
        r = struct_call(ip, q, s, name, fref, obj, v, args, A, node)
        if r is not NotImplemented:
            return r
    if isinstance(v, Seq):
        return seq_call(ip, name, fref, obj, v, args, A, node)
    if isinstance(v, Arr):
        return arr_call(ip, name, obj, v, args, A, node)
    if isinstance(v, MapV):
        return map_call(ip, name, obj, v, args, A)
    if isinstance(v, Str):
        return str_call(ip, name, obj, v, args, A)
    if isinstance(v, (Mat, DMat, ArrV)):
        return mat_call(ip, name, fref, obj, v, args, A, node)
    if isinstance(v, Iso):
        return iso_call(ip, name, fref, obj, v, args, A, node)
    if isinstance(v, Quat):
        return quat_call(ip, name, obj, v, args, A)
    if isinstance(v, AA):
        return aa_call(ip, name, obj, v, args, A)
    if isinstance(v, RowWise):
        return rowwise_call(ip, name, v, args, A)
    if isinstance(v, LU):
        return lu_call(ip, name, v, A)
    if isinstance(v, (Lam,)) and name == "operator()":
        return ip.call_lambda(v, args)
    if isinstance(v, Ptr) and name in ("base", "get"):
        return v
    raise Unsupported("call of %s on %s" % (s, type(v).__name__))


def comma(ip, ci, name, A):
    if name in ("operator,",):
        comma_put(ip, ci, A[0])
        return ci
    if name == "finished":
        return ci.ref
    raise Unsupported("comma initialiser " + name)


def comma_put(ip, ci, x):
    R, C = dims(ip, ci.ref)
    x = x.m if isinstance(x, ArrV) else x
    if scal(x):
        h, w = 1, 1
    else:
        x = to_fixed(x)
        if not isinstance(x, Mat):
            raise Unsupported("comma initialiser with a dynamic block")
        h, w = x.r, x.c
        if C.const() == 1 and w != 1 and h == 1:
            raise Unsupported("comma initialiser shape")
    cc = C.const()
    if cc is None:
        raise Unsupported("comma initialiser of a matrix with symbolic columns")
    if ci.col >= cc:
        ci.row += ci.h
        ci.col = 0
        ci.h = h
    if ci.h == 0:
        ci.h = h
    if scal(x):
        ip.store(Ref(ci.ref.loc, ci.ref.path + (("ij", num(ci.row), num(ci.col)),)), num(x))
    else:
        for i in range(h):
            for j in range(w):
                ip.store(Ref(ci.ref.loc, ci.ref.path + (("ij", num(ci.row + i), num(ci.col + j)),)), x.at(i, j))
    ci.col += w


class RNG:
    n = 0


T._num_hooks["u01"] = lambda m, a: m.rnd("u01", tuple(m.e(x) for x in a))


def _rint(m, a):
    lo, hi = int(m.e(a[0])), int(m.e(a[1]))
    return lo + int(m.rnd("rint", tuple(m.e(x) for x in a)) * max(1, hi - lo + 1))


T._num_hooks["rint"] = _rint


def struct_call(ip, q, s, name, fref, obj, v, args, A, node):
    if v.ty.startswith("extract:") and name == "operator()":
        a, k = A[0], v.ty[8:]
        if k == "mean":
            return acc_mean(a)
        if k == "variance":
            return acc_var(a)
        if k == "count":
            return a.f["xs"].length()
        if k == "sum":
            return seq_sum(a.f["xs"], lambda x: x)
        raise Unsupported("accumulator statistic %s" % k)
    if v.ty == "acc" and name == "operator()":
        ip.store(obj, Struct("acc", {"xs": v.f["xs"].append(num(A[0]))}))
        return None
    if v.ty == "ss":
        if name == "str":
            return v.f["s"]
        if name == "operator<<":
            ip.store(obj, Struct("ss", {"s": v.f["s"] + stream_str(A[0])}))
            return obj
    if v.ty == "ostream":
        return obj
    if v.ty == "rng":
        if name == "operator()":
            # the n-th number drawn from an engine with the given seed is an arbitrary value of the range
            eng = (args[0], A[0]) if A and isinstance(A[0], Struct) else (obj, v)
            st = eng[1].f
            key = (num(st.get("seed", ZERO)), num(st.get("n", ZERO)))
            if isinstance(eng[0], Ref):
                ip.store(eng[0], Struct("rng", dict(st, n=key[1] + 1)))
            if eng[1] is not v:
                # a distribution drawing from an engine
                lo, hi = v.f.get("lo"), v.f.get("hi")
                if v.f.get("int"):
                    return app("rint", (lo if lo is not None else ZERO, hi if hi is not None else num(2**31 - 1)) + key, "I")
                if lo is None:
                    return app("rnormal", key)
                return lo + (hi - lo) * app("u01", key)
            return app("rraw", key, "I")
    if name == "what":
        return v.f.get("what", Str())
    if v.ty == "ceres::Problem":
        return problem_call(ip, name, obj, v, args, A, node)
    if v.ty == "ceres::Cost" and name == "AddParameterBlock":
        ip.store(obj, Struct(v.ty, dict(v.f, dims=v.f["dims"].append(num(A[0])))))
        return None
    if v.ty == "ceres::Cost" and name == "SetNumResiduals":
        ip.store(obj, Struct(v.ty, dict(v.f, nres=num(A[0]))))
        return None
    if v.ty == "ceres::Covariance":
        return cov_call(ip, name, obj, v, args, A)
    if v.ty == "ceres::Solver::Summary":
        if name == "BriefReport" or name == "FullReport":
            return Str([atom("svar", ("report", ()))])
        if name == "IsSolutionUsable":
            return pred("usable")
    if name == "operator()":
        return ip.call_value(obj, args)
    if name in ("get", "operator->") and "ptr" in v.f:
        return v.f["ptr"]
    if name == "operator*" and "ptr" in v.f:
        return ip.deref(v.f["ptr"])
    return NotImplemented


def stream_str(x):
    if isinstance(x, Str):
        return x
    if scal(x):
        return to_string(num(x))
    return Str([atom("svar", ("stream", ()))])


def seq_call(ip, name, fref, obj, v, args, A, node):
    if name in ("size", "length"):
        return v.length()
    if name == "empty":
        return eq(v.length(), 0)
    if name in ("operator[]", "at"):
        if name == "at":
            bounds(ip, A[0], v.length())
        return ref_or_val(obj, ("i", num(A[0])), ip)
    if name in ("push_back", "emplace_back"):
        if name == "emplace_back" or not A:
            x = emplace(ip, v.ety or elem_type(ip, fref), args)
        else:
            x = A[0]
            if v.ety:
                x = coerce(ip, x, v.ety)
        ip.store(obj, v.append(x))
        n = v.length()
        return Ref(obj.loc, obj.path + (("i", n),))
    if name in ("reserve", "shrink_to_fit"):
        return None
    if name == "clear":
        ip.store(obj, Seq((), v.ety))
        return None
    if name == "back":
        return ref_or_val(obj, ("i", v.length() - 1), ip)
    if name == "front":
        return ref_or_val(obj, ("i", ZERO), ip)
    if name == "pop_back":
        n = v.length()
        if v.segs and isinstance(v.segs[-1], Items):
            ip.store(obj, Seq(v.segs[:-1] + (Items(v.segs[-1].v[:-1]),), v.ety))
        else:
            ip.store(obj, Seq([Fun(n - 1, v.at)], v.ety))
        return None
    if name in ("rbegin", "crbegin", "rend", "crend"):
        r = ip.lval(obj)
        return Ptr(r.loc, r.path, ZERO if "b" in name else v.length(), v.length())
    if name in ("begin", "cbegin", "data"):
        r = ip.lval(obj)
        return Ptr(r.loc, r.path, ZERO)
    if name in ("end", "cend"):
        r = ip.lval(obj)
        return Ptr(r.loc, r.path, v.length())
    if name == "resize":
        n = num(A[0])
        old = v.length()
        dv = A[1] if len(A) > 1 else None
        mk = (lambda: dv) if dv is not None else (lambda: zero_value(ip, v.ety))
        if old == ZERO:
            c = n.const()
            nv = Seq([Fun(n, lambda k: mk())], v.ety) if c is None else Seq([Items([mk() for _ in range(int(c))])], v.ety)
        elif old == n:
            nv = v
        else:
            d = ip.decide(le(old, n))
            if d is True:
                nv = Seq(v.segs + (Fun(n - old, lambda k: mk()),), v.ety)
            elif d is False:
                nv = sub_seq(v, ZERO, n)
            else:
                nv = Seq([Fun(n, lambda k: vite(lt(k, old), v.at(k), mk()))], v.ety)
        ip.store(obj, nv)
        return None
    if name == "assign":
        if isinstance(A[0], Ptr):
            ip.store(obj, Seq(it_range(ip, A[0], A[1]).segs, v.ety))
        else:
            ip.store(obj, Seq([Fun(A[0], lambda k: A[1])], v.ety))
        return None
    if name == "insert":
        pos = A[0]
        new = it_range(ip, A[1], A[2]) if len(A) == 3 else Seq([Items([A[1]])])
        if pos.off == v.length():
            ip.store(obj, Seq(v.segs + new.segs, v.ety))
            return None
        ip.store(obj, Seq(sub_seq(v, ZERO, pos.off).segs + new.segs + sub_seq(v, pos.off, v.length()).segs, v.ety))
        return None
    if name == "erase":
        at = lambda p: p.base.off + p.idx if isinstance(p, FIt) else p.off
        lo = at(A[0])
        hi = at(A[1]) if len(A) > 1 else lo + 1
        if hi == v.length():
            n, segs = ZERO, []
            for g in v.segs:
                if n == lo:
                    break
                segs.append(g)
                n = n + Seq([g]).length()
            if n == lo:
                ip.store(obj, Seq(segs, v.ety))
                r = ip.lval(obj)
                return Ptr(r.loc, r.path, lo)
        w = hi - lo
        ip.store(obj, Seq([Fun(v.length() - w, lambda k: vite(lt(k, lo), v.at(k), v.at(k + w)))], v.ety))
        r = ip.lval(obj)
        return Ptr(r.loc, r.path, lo)
    if name == "swap":
        o = args[0]
        a, b = v, ip.load(o)
        ip.store(obj, b)
        ip.store(o, a)
        return None
    raise Unsupported("vector::" + name)


def bounds(ip, k, n):
    """std at(): throws out_of_range"""
    bad = bor(lt(num(k), ZERO), le(n, num(k)))
    if bad == FALSE:
        return
    d = ip.decide(bad)
    if d is False:
        return
    if d is True or ip.branch(bad):
        raise ThrowEx(Struct("std::out_of_range", {"what": Str(["out_of_range"])}))


def elem_type(ip, fref):
    t = ip.tu.types[fref["cls"]] if "cls" in fref else ""
    a = split_targs(clean(t))
    return a[0] if a else None


def emplace(ip, ety, args):
    if ety is None:
        raise Unsupported("emplace without element type")
    ety = clean(ety)
    if not args:
        return zero_value(ip, ety)
    if ety in ip.prog.records:
        v0 = ip.load(args[0])
        if len(args) == 1 and isinstance(v0, Struct) and v0.ty == ety:
            return v0
        cands = []
        for f in ip.prog.byq.get(ip.ctor_q(ety), []):
            if f["tu"].types[f["cls"]] == ety and len(f["params"]) >= len(args) and not f.get("copymove"):
                extra = f["params"][len(args) :]
                if all("init" in p for p in extra):
                    cands.append(f)
        cands = [f for f in cands if ctor_accepts(ip, f, args)]
        if cands:
            f = min(cands, key=lambda f: len(f["params"]))
            ref = Ref(ip.new(ip.blank_struct(ety), "obj"))
            ip.call_fn(f, list(args), ref)
            return ip.load(ref)
        raise Unsupported("emplace constructor of %s" % ety)
    return construct(ip, ety, list(args), None)


def ctor_accepts(ip, f, args):
    for p, a in zip(f["params"], args):
        t = clean(f["tu"].types[p["t"]])
        v = ip.load(a)
        if isinstance(v, (E, B)):
            if not (scalar_type(t) or t in ip.enums()):
                return False
        elif isinstance(v, Str):
            if "basic_string" not in t and "string" not in t:
                return False
        elif isinstance(v, Struct) and v.ty in ip.prog.records:
            if t != v.ty:
                return False
        elif isinstance(v, (Mat, DMat)):
            if not mat_type(t) and not t.startswith("Eigen::"):
                return False
    return True


def arr_call(ip, name, obj, v, args, A, node):
    if name in ("operator[]", "at"):
        return ref_or_val(obj, ("i", num(A[0])), ip)
    if name == "size":
        return num(len(v.v))
    if name == "empty":
        return bconst(not v.v)
    if name in ("begin", "data", "cbegin"):
        r = ip.lval(obj)
        return Ptr(r.loc, r.path, ZERO)
    if name in ("end", "cend"):
        r = ip.lval(obj)
        return Ptr(r.loc, r.path, num(len(v.v)))
    if name == "front":
        return ref_or_val(obj, ("i", ZERO), ip)
    if name == "back":
        return ref_or_val(obj, ("i", num(len(v.v) - 1)), ip)
    if name == "fill":
        ip.store(obj, Arr([A[0]] * len(v.v)))
        return None
    raise Unsupported("array::" + name)


def map_call(ip, name, obj, v, args, A):
    if name == "size":
        return map_size(ip, v)
    if name == "empty":
        return eq(map_size(ip, v), 0)
    if name == "operator[]":
        r = ip.lval(obj)
        try:
            f, val = map_lookup(ip, v, A[0])
        except Unsupported as e:
            # unknown earlier content: an assignment to the entry overwrites it; anything else takes it as new, which map_once
            # checks once the content is known
            if v.base is not None or not v.vty or scalar_type(v.vty):
                ip.store(r, map_set(ip, v, A[0], Havoc("map entry: %s" % e)))
            else:
                ip.store(r, MapV(v.ents.append(Struct("std::pair:once", {"first": A[0], "second": default_value(ip, v.vty, True)})), None, v.kty, v.vty))
            return Ref(r.loc, r.path + (("key", A[0]),))
        if f == FALSE or val is None:
            ip.store(r, map_set(ip, v, A[0], default_value(ip, v.vty, True) if v.vty and not scalar_type(v.vty) else zero_value(ip, v.vty)))
        elif f != TRUE and ip.decide(f) is not True:
            # may insert: log an insertion of the merged value
            ip.store(r, map_set(ip, v, A[0], vite(f, val, zero_value(ip, v.vty))))
        return Ref(r.loc, r.path + (("key", A[0]),))
    if name == "at":
        f, val = map_lookup(ip, v, A[0])
        d = f.a[0] if f.k == "c" else ip.decide(f)
        if d is False or (d is None and not ip.branch(f)):
            raise ThrowEx(Struct("std::out_of_range", {"what": Str(["map::at"])}))
        return ref_or_val(obj, ("key", A[0]), ip)
    if name == "find":
        f, val = map_lookup(ip, v, A[0])
        return MapIt(ip.lval(obj), A[0], f)
    if name == "count":
        f, val = map_lookup(ip, v, A[0])
        return ite(f, ONE, ZERO)
    if name in ("end", "cend"):
        r = ip.lval(obj)
        if v.base is not None and not v.ents.segs:
            return Ptr(r.loc, r.path, v.base.size)
        return Ptr(r.loc, r.path, map_size(ip, v) if not v.ents.segs or all(isinstance(s, Items) for s in v.ents.segs) else var("mapend:%s" % r.loc, "I"))
    if name in ("begin", "cbegin"):
        r = ip.lval(obj)
        return Ptr(r.loc, r.path, ZERO)
    if name in ("insert", "emplace"):
        if name == "insert":
            p = A[0]
            k, val = p.f["first"], p.f["second"]
        else:
            k, val = A[0], A[1]
        try:
            f, old = map_lookup(ip, v, k)
        except Unsupported:
            if v.base is not None:
                raise
            # unknown earlier content (loop): inserted if its key is new, which map_once checks once the content is known
            ip.store(obj, MapV(v.ents.append(Struct("std::pair:once", {"first": k, "second": val})), None, v.kty, v.vty))
            return Havoc("result of an insertion")
        d = f.a[0] if f.k == "c" else ip.decide(f)
        if d is True:
            ins = FALSE
        elif d is False:
            ip.store(obj, map_set(ip, v, k, val))
            ins = TRUE
        else:
            ip.store(obj, map_set(ip, v, k, vite(f, old, val)))
            ins = bnot(f)
        return Struct("std::pair", {"first": MapIt(ip.lval(obj), k, TRUE), "second": ins})
    if name == "clear":
        ip.store(obj, MapV(None, None, v.kty, v.vty))
        return None
    if name == "reserve":
        return None
    raise Unsupported("map::" + name)


def str_call(ip, name, obj, v, args, A):
    if name in ("c_str", "str", "data"):
        return v
    if name in ("size", "length"):
        return container_size(ip, v)
    if name == "empty":
        return eq(container_size(ip, v), 0)
    if name in ("append", "operator+="):
        ip.store(obj, v + to_str(A[0]))
        return obj
    raise Unsupported("string::" + name)


def norm2(v):
    if isinstance(v, Mat):
        return sum_(x * x for x in v.e)
    if v.c == ONE:
        return summ(v.r, lambda i: v.cell(i, ZERO) * v.cell(i, ZERO))
    return summ(v.r, lambda i: summ(v.c, lambda j: v.cell(i, j) * v.cell(i, j)))


def msum(v):
    if isinstance(v, Mat):
        return sum_(v.e)
    return summ(v.r, lambda i: v.cell(i, ZERO)) if v.c == ONE else summ(v.r, lambda i: summ(v.c, lambda j: v.cell(i, j)))


def intarg(x):
    try:
        return num(int(str(x).rstrip("ULul")))
    except ValueError:
        return None


def mat_call(ip, name, fref, obj, v, args, A, node):
    arr = isinstance(v, ArrV)
    m = v.m if arr else v
    R, C = num(m.r), num(m.c)
    ta = targs_of(fref, ip)
    wrap = (lambda x: ArrV(x)) if arr else (lambda x: x)

    def view(r0, c0, nr, nc):
        return ref_or_val(obj, ("blk", num(r0), num(c0), num(nr), num(nc)), ip)

    if name in ("operator()", "operator[]", "coeff", "coeffRef"):
        if len(A) == 2:
            return ref_or_val(obj, ("ij", num(A[0]), num(A[1])), ip)
        return ref_or_val(obj, ("i", num(A[0])), ip)
    if name in ("x", "y", "z", "w"):
        return ref_or_val(obj, ("i", num("xyzw".index(name))), ip)
    if name in ("rows", "cols", "size"):
        return {"rows": R, "cols": C, "size": R * C}[name]
    if name == "derived" or name in ("eval", "noalias", "nestedExpression", "matrix", "array", "const_cast_derived"):
        if name == "array":
            return ref_or_val(obj, ("arr",), ip) if isinstance(obj, Ref) else ArrV(m)
        if name == "matrix":
            return ref_or_val(obj, ("unarr",), ip) if isinstance(obj, Ref) and arr is False else m
        return obj if isinstance(obj, Ref) and name != "eval" else v
    if name == "cast":
        return v
    if name in ("row", "col"):
        return view(A[0], 0, 1, C) if name == "row" else view(0, A[0], R, 1)
    if name in ("head", "tail", "segment"):
        n = num(A[-1]) if A and not (name == "segment" and len(A) == 1) else None
        if name == "segment":
            n = num(A[1]) if len(A) == 2 else intarg(ta[0])
            st = num(A[0])
        else:
            n = num(A[0]) if A else intarg(ta[0])
            L = R * C if C == ONE or R == ONE else R * C
            st = ZERO if name == "head" else L - n
        if C == ONE:
            return view(st, 0, n, 1)
        return view(0, st, 1, n)
    if name == "block":
        if len(A) == 4:
            return view(*A)
        return view(A[0], A[1], intarg(ta[0]), intarg(ta[1]))
    if name in ("topRows", "bottomRows", "leftCols", "rightCols", "middleRows", "middleCols"):
        n = num(A[-1]) if A else intarg(ta[0])
        if name == "topRows":
            return view(0, 0, n, C)
        if name == "bottomRows":
            return view(R - n, 0, n, C)
        if name == "leftCols":
            return view(0, 0, R, n)
        if name == "rightCols":
            return view(0, C - n, R, n)
    if name in ("topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner"):
        nr, nc = (num(A[0]), num(A[1])) if len(A) == 2 else (intarg(ta[0]), intarg(ta[1]))
        r0 = ZERO if name.startswith("top") else R - nr
        c0 = ZERO if "Left" in name else C - nc
        return view(r0, c0, nr, nc)
    if name == "diagonal":
        return ref_or_val(obj, ("diag",), ip)
    if name in ("transpose", "adjoint"):
        return ref_or_val(obj, ("T",), ip) if isinstance(obj, Ref) else wrap(mat_T(m))
    if name == "transposeInPlace":
        ip.store(obj, mat_T(m))
        return None
    if name == "inverse":
        if arr:
            return ArrV(mat_map(lambda x: inv(x), m))
        return mat_inv(relin(to_fixed(m)))
    if name == "determinant":
        return det(to_fixed(m))
    if name == "trace":
        return sum_(m.at(i, i) for i in range(m.r))
    if name == "dot":
        o = A[0]
        if isinstance(m, Mat) and isinstance(o, Mat):
            return sum_(x * y for x, y in zip(m.e, o.e))
        o = to_dmat(o)
        m2 = to_dmat(m)
        return summ(R, lambda i: m2.cell(i, ZERO) * o.cell(i, ZERO))
    if name == "cross":
        a, b = m.e, to_fixed(A[0]).e
        return Mat(3, 1, [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    if name == "norm":
        return sqrt(norm2(m))
    if name == "squaredNorm":
        return norm2(m)
    if name == "normalized":
        n = sqrt(norm2(m))
        return mat_map(lambda x: x * inv(n), m)
    if name == "normalize":
        n = sqrt(norm2(m))
        ip.store(obj, mat_map(lambda x: x * inv(n), m))
        return None
    if name in ("cwiseProduct", "cwiseQuotient"):
        f = (lambda x, y: x * y) if name == "cwiseProduct" else (lambda x, y: x / y)
        return mat_map(f, m, A[0])
    if name in ("cwiseAbs", "abs"):
        return wrap(mat_map(eabs, m))
    if name in ("sqrt", "cwiseSqrt"):
        return wrap(mat_map(T.sqrt, m))
    if name in ("square", "cwiseAbs2", "abs2"):
        return wrap(mat_map(lambda x: x * x, m))
    if name == "sum":
        return msum(m)
    if name == "mean":
        return msum(m) / (R * C)
    if name in ("setZero", "setOnes", "setIdentity", "setConstant"):
        if len(A) >= 1 and name != "setConstant":
            R = num(A[0])
            C = num(A[1]) if len(A) > 1 else C
        nv = const_mat(name[3:], R, C, A[0] if name == "setConstant" else None, m.rm)
        ip.store(obj, wrap(nv))
        return obj
    if name in ("resize", "conservativeResize"):
        nr = num(A[0])
        nc = num(A[1]) if len(A) > 1 else (C if C != ZERO else ONE)
        if len(A) == 1:
            nc = ONE if C in (ONE, ZERO) else C
        old = to_dmat(m)
        if name == "resize":
            tag = fresh("undef").t[0][0][0][0].args[0]
            nv = DMat(nr, nc, lambda i, j: app(tag, (i, j)), m.rm)
        else:
            tag = fresh("undef").t[0][0][0][0].args[0]
            r0, c0 = old.r, old.c
            nv = DMat(nr, nc, lambda i, j: ite(band(lt(i, r0), lt(j, c0) if c0 != nc else TRUE), old.cell(i, j), app(tag, (i, j))), m.rm)
        ip.store(obj, wrap(to_fixed(nv) if False else nv))
        return None
    if name == "data":
        r = ip.lval(obj)
        return Ptr(r.loc, r.path, ZERO)
    if name in ("rowwise", "colwise"):
        return RowWise(ip.lval(obj), name == "colwise")
    if name == "isApprox":
        b = A[0]
        b = b.m if isinstance(b, ArrV) else b
        prec = A[1] if len(A) > 1 else num(1e-12)
        a2, b2 = to_fixed(m), to_fixed(b)
        return isapprox(ip, a2, b2, prec)
    if name in ("operator<<",):
        ci = CommaInit(ip.lval(obj))
        comma_put(ip, ci, A[0])
        return ci
    if name in ("fullPivLu", "partialPivLu", "colPivHouseholderQr", "householderQr", "fullPivHouseholderQr", "jacobiSvd", "bdcSvd", "ldlt", "llt", "lu", "completeOrthogonalDecomposition"):
        return LU(name, m)
    if name in ("minCoeff", "maxCoeff"):
        if isinstance(m, Mat):
            r = m.e[0]
            for x in m.e[1:]:
                r = ite(lt(x, r) if name == "minCoeff" else lt(r, x), x, r)
            return r
        return app(name, (R, m.cell(var("?mi", "I"), var("?mj", "I"))))
    if name in ("toRotationMatrix",):
        return m
    if name in ("eulerAngles", "canonicalEulerAngles"):
        ax = tuple(int(num(x).const()) for x in A)
        if not isinstance(m, Mat) or m.rot is None or ax not in ((2, 1, 0), (0, 1, 2)):
            raise Unsupported("Euler angles")
        return Mat(3, 1, euler(m.rot, ax))
    if name == "reverse" and isinstance(m, Mat) and 1 in (m.r, m.c):
        return Mat(m.r, m.c, list(m.e)[::-1])
    if name in ("begin", "end"):
        r = ip.lval(obj)
        return Ptr(r.loc, r.path, ZERO if name == "begin" else R * C)
    if name in ("homogeneous",):
        return Mat(m.r + 1, 1, list(m.e) + [ONE])
    if name == "hnormalized" and isinstance(m, Mat) and 1 in (m.r, m.c):
        l = list(m.e)
        return Mat(m.r - 1 if m.c == 1 else 1, 1 if m.c == 1 else m.c - 1, [x / l[-1] for x in l[:-1]])
    if name in ("prod",) and isinstance(m, Mat):
        r = ONE
        for x in m.e:
            r = r * x
        return r
    if name in ("cwiseMin", "cwiseMax", "min", "max") and len(A) == 1:
        f = (lambda x, y: ite(lt(x, y), x, y)) if name.lower().endswith("min") else (lambda x, y: ite(lt(x, y), y, x))
        if scal(A[0]):
            y = num(A[0])
            return wrap(mat_map(lambda x: f(x, y), m))
        return wrap(mat_map(f, m, A[0].m if isinstance(A[0], ArrV) else A[0]))
    if name in ("isZero", "isOnes", "isConstant", "isIdentity") and isinstance(to_fixed(m), Mat):
        # Eigen: every coefficient within the precision of the constant (isIdentity, isOnes and isConstant compare relative to the smaller magnitude)
        f = to_fixed(m)
        A = list(A)
        w = num(A.pop(0)) if name == "isConstant" else ONE if name == "isOnes" else None
        prec = num(A[0]) if A else num(1e-12)
        r = TRUE
        for k, x in enumerate(f.e):
            y = ZERO if name == "isZero" else w if w is not None else (ONE if k // f.c == k % f.c else ZERO)
            if y.const() == 0:
                r = band(r, le(T.eabs(x), prec))
            else:
                r = band(r, le(T.eabs(x - y), prec * ite(le(T.eabs(x), T.eabs(y)), T.eabs(x), T.eabs(y))))
        return r
    if name in ("hasNaN", "allFinite"):
        return FALSE if name == "hasNaN" else TRUE
    if name == "fill":
        ip.store(obj, wrap(const_mat("Constant", R, C, A[0], m.rm)))
        return None
    if name in ("all", "any"):
        raise Unsupported("Eigen all/any")
    raise Unsupported("Eigen matrix ::" + name)


def const_mat(kind, r, c, val=None, rm=False):
    r, c = num(r), num(c)
    f = {
        "Zero": lambda i, j: ZERO,
        "Ones": lambda i, j: ONE,
        "Constant": lambda i, j: num(val),
        "Identity": lambda i, j: ite(eq(i, j), ONE, ZERO),
    }[kind]
    if r.const() is not None and c.const() is not None and r.const() * c.const() <= 64:
        m = Mat(int(r.const()), int(c.const()), [f(num(i), num(j)) for i in range(int(r.const())) for j in range(int(c.const()))], None, rm)
        if kind == "Identity" and (m.r, m.c) == (3, 3):
            m = Mat(3, 3, m.e, ID, rm)
        return m
    return DMat(r, c, f, rm)


def iso_call(ip, name, fref, obj, v, args, A, node):
    if name in ("linear", "rotation"):
        if name == "rotation":
            return v.lin()
        return ref_or_val(obj, ("lin",), ip)
    if name == "translation":
        return ref_or_val(obj, ("tra",), ip)
    if name in ("x", "y", "z"):
        return ref_or_val(ref_or_val(obj, ("tra",), ip), ("i", num("xyz".index(name))), ip)
    if name == "vector":
        return ref_or_val(obj, ("tra",), ip)
    if name in ("matrix",):
        return ref_or_val(obj, ("mat4",), ip)
    if name == "affine":
        return Mat(3, 4, iso_mat4(v).e[:12])
    if name == "inverse":
        return v.inv()
    if name in ("operator()",):
        return ref_or_val(obj, ("ij", num(A[0]), num(A[1])), ip)
    if name == "setIdentity":
        ip.store(obj, Iso())
        return None
    if name == "isApprox":
        return isapprox(ip, v, A[0], A[1] if len(A) > 1 else num(1e-12))
    if name in ("translate", "pretranslate"):
        t = iso_rt(rotmat(ID), to_fixed(A[0]).e)
        nv = v * t if name == "translate" else t * v
        ip.store(obj, simp_rt(nv))
        return obj
    if name in ("rotate", "prerotate"):
        r = iso_rt(relin(as_rot_mat(A[0])), (ZERO, ZERO, ZERO))
        nv = v * r if name == "rotate" else r * v
        ip.store(obj, simp_rt(nv))
        return obj
    if name == "cast":
        return v
    if name == "data":
        r = ip.lval(obj)
        return Ptr(r.loc, r.path + (("mat4",),), ZERO)
    if name in ("makeAffine",):
        return None
    raise Unsupported("Eigen transform ::" + name)


def simp_rt(iso):
    return iso


def quat_call(ip, name, obj, v, args, A):
    if name == "coeffs":
        return ref_or_val(obj, ("coeffs", None), ip)
    if name == "vec":
        return ref_or_val(obj, ("coeffs", 3), ip)
    if name in ("x", "y", "z", "w"):
        return ref_or_val(obj, ("i", num("xyzw".index(name))), ip)
    if name in ("toRotationMatrix", "matrix"):
        return as_rot_mat(v)
    if name in ("inverse", "conjugate"):
        if v.w is not None:
            return Quat(v.w.inv())
        x, y, z, w = v.c
        return Quat(None, (-x, -y, -z, w))
    if name == "angularDistance":
        o = A[0]
        if isinstance(v, Quat) and v.rot() is not None and o.rot() is not None:
            return angdist(v.rot(), o.rot())
        return app("qangdist", tuple(v.coeffs()) + tuple(o.coeffs()))
    if name == "normalized":
        if v.w is not None:
            return v
        n = inv(T.sqrt(sum_(x * x for x in v.c)))
        return Quat(None, tuple(x * n for x in v.c))
    if name == "normalize":
        if v.w is None:
            n = inv(T.sqrt(sum_(x * x for x in v.c)))
            ip.store(obj, Quat(None, tuple(x * n for x in v.c)))
        return None
    if name == "norm":
        return ONE if v.w is not None else T.sqrt(sum_(x * x for x in v.c))
    if name == "setIdentity":
        ip.store(obj, Quat(ID))
        return obj
    if name == "dot":
        return sum_(x * y for x, y in zip(v.coeffs(), A[0].coeffs()))
    if name == "cast":
        return v
    raise Unsupported("Eigen quaternion ::" + name)


def aa_call(ip, name, obj, v, args, A):
    if name == "angle":
        return ref_or_val(obj, ("aaang",), ip)
    if name == "axis":
        return ref_or_val(obj, ("aaax",), ip)
    if name in ("toRotationMatrix", "matrix"):
        return rotmat(v.rot())
    if name == "inverse":
        return AA(-v.angle, v.axis)
    if name == "cast":
        return v
    raise Unsupported("Eigen angle axis ::" + name)


def rowwise_call(ip, name, v, args, A):
    m = ip.load(v.ref)
    m = m.m if isinstance(m, ArrV) else m
    if v.colw:
        mt = mat_T(m)
    else:
        mt = m
    n = mt.c.const() if isinstance(mt, DMat) else mt.c
    if n is None:
        rn2 = lambda i: summ(mt.c, lambda j: mat_at(mt, i, j) * mat_at(mt, i, j))
        rs = lambda i: summ(mt.c, lambda j: mat_at(mt, i, j))
    else:
        rn2 = lambda i: sum_(mat_at(mt, i, num(j)) * mat_at(mt, i, num(j)) for j in range(int(n)))
        rs = lambda i: sum_(mat_at(mt, i, num(j)) for j in range(int(n)))
    R = num(mt.r)
    mk = lambda f: to_fixed(DMat(R, ONE, lambda i, j: f(i)))
    out = None
    if name == "norm":
        out = mk(lambda i: sqrt(rn2(i)))
    elif name == "squaredNorm":
        out = mk(rn2)
    elif name == "sum":
        out = mk(rs)
    elif name == "mean":
        out = mk(lambda i: rs(i) / num(mt.c))
    elif name in ("normalize", "normalized"):
        x = to_fixed(DMat(R, num(mt.c), lambda i, j: mat_at(mt, i, j) * inv(sqrt(rn2(i)))))
        if v.colw:
            x = mat_T(x)
        if name == "normalized":
            return x
        ip.store(v.ref, x)
        return None
    elif name in ("homogeneous",):
        x = to_fixed(DMat(R, num(mt.c) + 1, lambda i, j: ite(lt(j, num(mt.c)), mat_at(mt, i, j), ONE)))
        return mat_T(x) if v.colw else x
    elif name == "hnormalized":
        x = to_fixed(DMat(R, num(mt.c) - 1, lambda i, j: mat_at(mt, i, j) / mat_at(mt, i, num(mt.c) - 1)))
        return mat_T(x) if v.colw else x
    elif name == "reverse":
        raise Unsupported("reverse")
    if out is None:
        raise Unsupported("rowwise::" + name)
    return mat_T(out) if v.colw else out


def matkey(m, ip=None):
    """identity of a matrix as a tuple of terms"""
    m = to_fixed(m)
    if isinstance(m, Mat):
        return (num(m.r), num(m.c)) + tuple(m.e)
    i, j = var("?lu_i", "I"), var("?lu_j", "I")
    c = m.c.const()
    if ip is not None:
        import loops

        k = fresh("idx")
        facts = (le(0, k), lt(k, m.r))
        row = lambda q: subst(loops.simplify_val(ip, m.cell(k, q), facts), {the_atom(k): i})
    else:
        row = lambda q: m.cell(i, q)
    if c is not None and c <= 16:
        return (m.r, m.c) + tuple(row(num(q)) for q in range(int(c)))
    return (m.r, m.c, row(j))


def lu_call(ip, name, v, A):
    if name == "solve":
        b = A[0]
        key = matkey(v.m, ip) + matkey(b, ip)
        c = dims(ip, v.m)[1]
        bc = dims(ip, b)[1]
        if not (c.const() is not None and bc.const() is not None):
            raise Unsupported("solve with symbolic unknowns")
        n, k = int(c.const()), int(bc.const())
        return Mat(n, k, [app("linsolve", key + (num(i), num(j))) for i in range(n) for j in range(k)])
    if name == "matrixU" or name == "matrixV":
        key = matkey(v.m, ip)
        n = int(dims(ip, v.m)[0].const())
        mm = to_fixed(v.m)
        if name == "matrixV" and not (isinstance(mm, Mat) and mm.r == mm.c and all(mm.at(i, j) == mm.at(j, i) for i in range(n) for j in range(i))):
            raise Unsupported("right singular vectors of a matrix that is not symmetric")
        return Mat(n, n, [app("svdU", key + (num(i), num(j))) for i in range(n) for j in range(n)])
    if name == "singularValues":
        key = matkey(v.m, ip)
        n = int(dims(ip, v.m)[0].const())
        return Mat(n, 1, [app("svdS", key + (num(i),)) for i in range(n)])
    if name == "eigenvectors":
        key = matkey(v.m, ip)
        n = int(dims(ip, v.m)[0].const())
        # ascending eigenvalues: the last column spans the dominant eigenspace
        return Mat(n, n, [app("svdU", key + (num(i), num(n - 1 - j))) for i in range(n) for j in range(n)])
    if name == "inverse":
        return mat_inv(to_fixed(v.m))
    raise Unsupported("decomposition ::" + name)


def num_mat(m, args):
    """(matrix, rest) of a matkey evaluated in a model"""
    import numpy as np

    r, c = int(m.e(args[0])), int(m.e(args[1]))
    cst = args[0].const() is not None and args[1].const() is not None
    rest = args[2:]
    if cst:
        v = [m.e(x) for x in rest[: r * c]]
        return np.array(v, float).reshape(r, c), rest[r * c :]
    cc = args[1].const()
    w = int(cc) if cc is not None and cc <= 16 else 1
    out = np.zeros((r, c))
    for i in range(r):
        for j in range(c if w == 1 and not (cc is not None and cc <= 16) else 1):
            m2 = T.Model(m.seed, fixed=m.fixed, scale=m.scale, maxlen=m.maxlen)
            m2.env = dict(m.env)
            m2.ov = dict(m.ov or {})
            m2.ov[("?lu_i", ())] = i
            m2.ov[("?lu_j", ())] = j
            row = [m2.e(x) for x in rest[:w]]
            if w == 1 and not (cc is not None and cc <= 16):
                out[i, j] = row[0]
            else:
                out[i, :] = row
    return out, rest[w:]


def _svdu(m, a):
    import numpy as np

    M, r = num_mat(m, a)
    U, S, V = np.linalg.svd(M)
    i, j = int(m.e(r[0])), int(m.e(r[1]))
    lo = [abs(S[j] - S[k]) for k in range(len(S)) if k != j]
    if lo and min(lo) < 1e-6 * (1 + S[0]):
        raise T.EvalFail("singular vector of a repeated singular value")
    u = U[:, j]
    return float(u[i] * (1 if u[int(np.argmax(np.abs(u)))] > 0 else -1))


T._num_hooks["svdU"] = _svdu


def _svds(m, a):
    import numpy as np

    M, r = num_mat(m, a)
    return float(np.linalg.svd(M)[1][int(m.e(r[0]))])


T._num_hooks["svdS"] = _svds


def _linsolve(m, a):
    import numpy as np

    M, r = num_mat(m, a)
    b, r = num_mat(m, r)
    if M.shape[0] < M.shape[1] or np.linalg.matrix_rank(M) < M.shape[1]:
        raise T.EvalFail("singular system")
    x = np.linalg.lstsq(M, b, rcond=None)[0]
    return float(x[int(m.e(r[0])), int(m.e(r[1]))])


T._num_hooks["linsolve"] = _linsolve


# ---------------------------------------------------------------------------------------------------------- construction
def construct(ip, t, args, node):
    t = clean(t)
    A = [ip.load(a) for a in args]
    if t.startswith("const "):
        t = t[6:]
    if scalar_type(t):
        return coerce(ip, A[0], t) if A else ZERO
    if t.endswith("]") and not A:
        k = int(t[t.index("[") + 1 : t.index("]")])
        et = (t[: t.index("[")] + t[t.index("]") + 1 :]).strip()
        return Arr([construct(ip, et, [], node) for _ in range(k)])
    m = mat_type(t)
    if m:
        return construct_mat(ip, t, m, args, A)
    if t.startswith("Eigen::Stride<0, 0>") and not A:
        return NULL
    if t.startswith("Eigen::Map<"):
        return construct_map(ip, t, args, A)
    if t.startswith("Eigen::Transform<"):
        if not A:
            return default_value(ip, t)
        return to_iso(A[0])
    if t.startswith("Eigen::Translation<"):
        if not A:
            return default_value(ip, t)
        if len(A) == 1:
            return iso_rt(rotmat(ID), to_fixed(A[0]).e)
        return iso_rt(rotmat(ID), tuple(num(x) for x in A))
    if t.startswith("Eigen::Quaternion<"):
        if not A:
            return default_value(ip, t)
        if len(A) == 4:
            return Quat(None, (num(A[1]), num(A[2]), num(A[3]), num(A[0])))
        if isinstance(A[0], Mat) and (A[0].r, A[0].c) == (4, 1):
            return Quat(None, A[0].e)
        return convert_assign(ip, Quat(ID), A[0])
    if t.startswith("Eigen::AngleAxis<"):
        if not A:
            return default_value(ip, t)
        if len(A) == 2:
            return AA(num(A[0]), to_fixed(A[1]))
        return convert_assign(ip, AA(ZERO, vec(1, 0, 0)), A[0])
    if t.startswith(("Eigen::JacobiSVD<", "Eigen::BDCSVD<", "Eigen::FullPivLU<", "Eigen::PartialPivLU<", "Eigen::ColPivHouseholderQR<", "Eigen::SelfAdjointEigenSolver<", "Eigen::HouseholderQR<")):
        return LU(t.split("<")[0], A[0])
    if t.startswith(("std::vector<", "std::deque<")):
        ety = split_targs(t)[0]
        if not A:
            return Seq((), ety)
        if isinstance(A[0], Seq):
            return Seq(A[0].segs, ety)
        if isinstance(A[0], Arr):
            return Seq([Items([coerce(ip, x, ety) for x in A[0].v])], ety)
        if isinstance(A[0], Ptr):
            return Seq(it_range(ip, A[0], A[1]).segs, ety)
        if isinstance(A[0], E):
            n = A[0]
            val = None
            if len(A) > 1 and not (isinstance(A[1], Struct) and "allocator" in A[1].ty):
                val = coerce(ip, A[1], ety)
            mk = (lambda: val) if val is not None else (lambda: zero_value(ip, ety))
            if n.const() is not None:
                return Seq([Items([mk() for _ in range(int(n.const()))])], ety)
            return Seq([Fun(n, lambda k: mk())], ety)
        if isinstance(A[0], Struct) and "allocator" in A[0].ty:
            return Seq((), ety)
    if t.startswith(("std::basic_string<", "std::__cxx11::basic_string<")) or t == "std::string":
        if not A:
            return Str()
        if isinstance(A[0], Str):
            return A[0]
    if t.startswith("std::set<") and split_targs(t)[0] in ("int", "long", "unsigned long", "unsigned int", "std::size_t") and "greater" not in t:
        # the different values, ascending
        sq = it_range(ip, A[0], A[1]) if len(A) == 2 and isinstance(A[0], Ptr) else A[0] if len(A) == 1 and isinstance(A[0], Seq) else None
        if sq is not None:
            m = multiset(sq)
            return Seq([Fun(distinct(m), lambda k: app("distinct", m + (k,), "I"))], split_targs(t)[0])
    if t.startswith(("std::map<", "std::unordered_map<")):
        a = split_targs(t)
        mv = MapV(None, None, a[0], a[1])
        if A and isinstance(A[0], MapV):
            return A[0]
        if A and isinstance(A[0], Arr):
            for e in reversed(A[0].v):  # the first of equal keys stays
                mv = map_set(ip, mv, e.f["first"], e.f["second"])
        return mv
    if t.startswith("std::pair<"):
        a = split_targs(t)
        if not A:
            return default_value(ip, t)
        if len(A) == 2:
            return Struct("std::pair", {"first": conv_elem(ip, A[0], a[0]), "second": conv_elem(ip, A[1], a[1])})
        return Struct("std::pair", {"first": conv_elem(ip, A[0].f["first"], a[0]), "second": conv_elem(ip, A[0].f["second"], a[1])})
    if t.startswith("std::array<"):
        if A and isinstance(A[0], Arr):
            return A[0]
        return default_value(ip, t)
    if "stringstream" in t:
        return Struct("ss", {"s": A[0] if A and isinstance(A[0], Str) else Str()})
    if t.startswith("std::initializer_list<"):
        return A[0]
    if t in ("std::runtime_error", "std::logic_error", "std::out_of_range", "std::invalid_argument", "std::exception"):
        return Struct(t, {"what": A[0] if A and isinstance(A[0], Str) else Str()})
    if t.startswith("boost::accumulators::accumulator_set"):
        return Struct("acc", {"xs": Seq()})
    if t.startswith("boost::accumulators::detail::_enabler"):
        return Struct(t, {})
    if t.startswith("std::uniform_") or t.startswith("std::normal_distribution"):
        isint = "_int_" in t
        if t.startswith("std::uniform_") and len(A) == 2:
            return Struct("rng", {"lo": A[0], "hi": A[1], "int": isint})
        return Struct("rng", {"lo": None, "hi": None, "int": isint})
    if t.startswith(("std::mt19937", "std::mersenne_twister_engine", "std::random_device")):
        return Struct("rng", {"seed": A[0] if A and isinstance(A[0], E) else ZERO})
    if t.startswith(("ceres::AutoDiffCostFunction<", "ceres::DynamicAutoDiffCostFunction<")):
        return construct_cost(ip, t, args, A)
    if t == "ceres::Problem":
        return Struct("ceres::Problem", {"blocks": Seq(), "extra": Seq()})
    if t == "ceres::SubsetManifold" and len(A) == 2:
        return Struct(t, {"size": num(A[0]), "constant": seq_of(ip, A[1])})
    if t == "ceres::Covariance":
        return Struct("ceres::Covariance", {"state": NULL, "blocks": Seq(), "options": A[0] if A else NULL})
    if t.startswith("cv::"):
        r = cvm.construct(ip, t, args, A, node)
        if r is not NotImplemented:
            return r
    if t == "YAML::Node":
        return yamlm.construct(ip, t, args, A, node)
    if t.startswith(("std::allocator", "Eigen::aligned_allocator")):
        return Struct("std::allocator", {})
    if t in ("ceres::Covariance::Options", "ceres::Solver::Options", "ceres::Solver::Summary"):
        return Opts(t)
    if t.startswith(("std::less<", "std::greater<", "std::hash<", "std::equal_to<", "std::plus<", "std::multiplies<")):
        return Struct(t, {})
    if t.startswith("std::function<"):
        return A[0] if A else NULL
    if t.startswith(("std::shared_ptr<", "std::unique_ptr<", "cv::Ptr<")):
        return Struct("ptr", {"ptr": A[0]}) if A and not isinstance(A[0], Null) else NULL
    if t.startswith(("__gnu_cxx::__normal_iterator", "std::move_iterator", "std::_Rb_tree_", "std::reverse_iterator")) and len(A) == 1:
        return A[0]
    if t.startswith("ceres::Jet"):
        return num(A[0]) if A else ZERO
    if t.startswith(("cv::Point_<", "cv::Point3_<", "cv::Size_<")):
        ks = ("width", "height") if "Size" in t else ("x", "y", "z")[: 3 if "Point3" in t else 2]
        if not A:
            return Struct(t, {k: ZERO for k in ks})
        if len(A) == 1 and isinstance(A[0], Struct):
            k2 = list(A[0].f)
            return Struct(t, {k: coerce(ip, A[0].f[j], split_targs(t)[0]) for k, j in zip(ks, k2)})
        if len(A) == len(ks):
            return Struct(t, {k: coerce(ip, a, split_targs(t)[0]) for k, a in zip(ks, A)})
    if len(A) == 1 and isinstance(A[0], (Mat, DMat, ArrV)):
        return A[0]
    if len(A) == 1 and (t.endswith("*") or isinstance(A[0], (E, B))):
        return coerce(ip, A[0], t)
    raise Unsupported("construction of %s from %s" % (t, [type(a).__name__ for a in A]))


def conv_elem(ip, v, t):
    t = clean(t)
    if "basic_string" in t.split("<")[0] and not isinstance(v, Str):
        return to_str(v)
    return coerce(ip, v, t)


def construct_mat(ip, t, m, args, A):
    r, c, rm, arr = m
    wrap = (lambda x: ArrV(x)) if arr else (lambda x: x)
    if not A:
        return default_value(ip, t)
    if len(A) == 2 and isinstance(A[0], (Mat, DMat, ArrV)):
        A = A[:1]  # a default argument
    if len(A) == 1:
        x = A[0]
        if isinstance(x, E):
            if r >= 0 and c >= 0:
                if r * c == 1:
                    return wrap(Mat(1, 1, [x]))
                return default_value(ip, t)
            tag = fresh("undef").t[0][0][0][0].args[0]
            if c == 1 or r == 1:
                n = x
                return wrap(DMat(n if r != 1 else ONE, ONE if c == 1 else n, lambda i, j: app(tag, (i, j)), rm))
            raise Unsupported("matrix of one size")
        if isinstance(x, Ptr):
            v = get_comp(ip, ip.load(Ref(x.loc, x.path)), ("seg", x.off, num(r), num(c), rm))
            return wrap(v)
        if isinstance(x, Arr):
            if all(isinstance(y, Arr) for y in x.v):
                rows = [y.v for y in x.v]
                return wrap(Mat(len(rows), len(rows[0]), [num(e) for y in rows for e in y], None, rm))
            return wrap(Mat(r, c, [num(e) for e in x.v], None, rm))
        return coerce(ip, x, t)
    if r < 0 or c < 0:
        if len(A) == 2 and all(isinstance(a, E) for a in A):
            tag = fresh("undef").t[0][0][0][0].args[0]
            return wrap(DMat(A[0], A[1], lambda i, j: app(tag, (i, j)), rm))
        raise Unsupported("dynamic matrix constructor %s from %s" % (t, [type(a).__name__ for a in A]))
    if len(A) == r * c:
        return wrap(Mat(r, c, [num(x) for x in A], None, rm))
    if len(A) == 2 and all(isinstance(a, E) for a in A):
        return default_value(ip, t)
    raise Unsupported("matrix constructor %s/%d" % (t, len(A)))


def construct_map(ip, t, args, A):
    inner = clean(split_targs(t)[0])
    p = A[0]
    A = [p] + [a for a in A[1:] if isinstance(a, E)]  # without the default stride
    if inner.startswith("Eigen::Quaternion"):
        x = get_comp(ip, ip.load(Ref(p.loc, p.path)), ("seg", p.off, num(4), ONE, False))
        return Quat(None, x.e)
    r, c, rm, arr = mat_type(inner)
    if len(A) == 3:
        rr, cc = num(A[1]), num(A[2])
    elif len(A) == 2:
        rr, cc = (num(A[1]), ONE) if c == 1 else (ONE, num(A[1]))
    else:
        rr, cc = num(r), num(c)
    if r >= 0:
        rr = num(r)
    if c >= 0:
        cc = num(c)
    if not isinstance(p, Ptr):
        raise Unsupported("Map over %s" % type(p).__name__)
    off = p.off if p.off is not None else ZERO
    ref = Ref(p.loc, p.path + (("seg", off, rr, cc, rm),))
    if arr:
        return Ref(ref.loc, ref.path + (("arr",),))
    return ref


def construct_cost(ip, t, args, A):
    a = split_targs(t)
    dyn = t.startswith("ceres::Dynamic")
    f = A[0]
    return Struct("ceres::Cost", {"functor": f, "fty": Str([clean(a[0])]), "dims": Arr([num(int(x)) for x in a[1:]]) if not dyn else Seq(), "dyn": bconst(dyn)})


# ------------------------------------------------------------------------------------------------------------------ ceres
def problem_call(ip, name, obj, v, args, A, node):
    if name == "AddResidualBlock":
        cost = ip.load(ip.deref(A[0])) if isinstance(A[0], Ptr) else A[0]
        fun = ip.load(ip.deref(cost.f["functor"]))
        ptrs = A[2:]
        if len(ptrs) == 1 and isinstance(ptrs[0], Seq):
            params = ptrs[0]
        elif len(ptrs) == 1 and isinstance(ptrs[0], Arr):
            params = Seq([Items(ptrs[0].v)])
        else:
            params = Seq([Items(ptrs)])
        rb = Struct("RB", {"functor": fun, "loss": A[1], "params": params, "dims": cost.f["dims"]})
        if cost.f["dyn"] == TRUE:
            rb.f["nres"] = cost.f.get("nres", ZERO)
        d = dict(v.f)
        d["blocks"] = v.f["blocks"].append(rb)
        ip.store(obj, Struct("ceres::Problem", d))
        return NULL
    if name in ("AddParameterBlock", "SetParameterBlockConstant", "SetParameterBlockVariable", "SetParameterLowerBound", "SetParameterUpperBound", "SetParameterization", "SetManifold"):
        d = dict(v.f)
        d.setdefault("extra", Seq())
        rest = [ip.load(ip.deref(x)) if name == "SetManifold" and isinstance(x, Ptr) else x for x in A[1:]]
        d["extra"] = d["extra"].append(Struct("PB", {"call": Str([name]), "ptr": A[0], "args": Seq([Items(rest)])}))
        ip.store(obj, Struct("ceres::Problem", d))
        return None
    if name in ("NumResidualBlocks",):
        return v.f["blocks"].length()
    if name == "NumParameterBlocks":
        return v.f["npb"] if "npb" in v.f else app("len:npb", (), "I")
    if name == "GetParameterBlocks":
        ref = ip.deref(A[0])
        if "pblocks" in v.f:
            ip.store(ref, v.f["pblocks"])
            return None
        ip.store(ref, Struct("allblocks", {}))
        return None
    if name == "IsParameterBlockConstant":
        # the answer depends on the calls before it
        return pred("isconst", keyterm(A[0]) + (v.f["extra"].length() if "extra" in v.f else ZERO,))
    if name == "HasParameterBlock":
        return pred("haspb", keyterm(A[0]))
    if name == "ParameterBlockSize":
        return app("len:pbsize", (keyterm(A[0]),), "I")
    raise Unsupported("ceres::Problem::" + name)


def cov_call(ip, name, obj, v, args, A):
    if name == "Compute":
        ip.store(obj, Struct("ceres::Covariance", dict(v.f, state=ONE, blocks=A[0])))
        ip.cov_problem = (A[1], v.f.get("options"))
        return pred("cov_compute_ok")
    if name == "GetCovarianceMatrix":
        r = A[1]
        ref = Ref(r.loc, r.path)
        m = ip.load(ref)
        ok = pred("cov_get_ok")
        if isinstance(m, (Mat, DMat)):
            m = to_dmat(m)
            ip.store(ref, DMat(m.r, m.c, lambda i, j: app("cov", (i, j)), m.rm))
            # record which blocks the matrix belongs to
            ip.ghost_cov = (v.f["blocks"], A[0])
            return ok
        raise Unsupported("covariance output")
    raise Unsupported("ceres::Covariance::" + name)


def solve_blocks(blocks, conds=(), binders=()):
    """flatten a sequence of residual blocks: [(binders, conds, rb)]"""
    out = []
    for s in blocks.segs:
        if isinstance(s, Items):
            for rb in s.v:
                out.append((tuple(binders), tuple(conds), rb))
        elif isinstance(s, Fun):
            t = fresh("idx")
            out.append((tuple(binders) + ((t, s.n),), tuple(conds), s.cell(t)))
        elif isinstance(s, Gen):
            t = fresh("idx")
            out += solve_blocks(s.f(t), conds, tuple(binders) + ((t, s.n),))
        elif isinstance(s, If):
            out += solve_blocks(s.s, tuple(conds) + (s.c,), binders)
        else:
            raise Unsupported("residual blocks")
    return out


def scalar_atoms(x):
    return x.free


def ceres_solve(ip, q, fref, obj, args, node):
    prob = ip.deref(ip.load(args[1]))
    summ_ref = ip.deref(ip.load(args[2]))
    p = ip.load(prob)
    # parameter blocks that may change
    spots = []
    for binders, conds, rb in solve_blocks(p.f["blocks"]):
        params = rb.f["params"]
        for pt in (params.segs[0].v if params.segs and isinstance(params.segs[0], Items) and len(params.segs) == 1 else seq_ptrs(params)):
            spots.append((binders, conds, pt))
    n_solve = getattr(ip, "n_solve", 0)
    ip.n_solve = n_solve + 1
    pre = dict(ip.mem)
    done = set()
    for binders, conds, pt in spots:
        havoc_block(ip, binders, conds, pt, n_solve, done)
    tt = var("solve%d.termination" % n_solve, "I")
    ip.store(
        summ_ref,
        Opts(
            "ceres::Solver::Summary",
            {
                "termination_type": tt,
                "initial_cost": var("solve%d.initial_cost" % n_solve),
                "final_cost": var("solve%d.final_cost" % n_solve),
                "num_residuals": var("pos:solve%d.num_residuals" % n_solve, "I"),
                "num_residuals_reduced": var("pos:solve%d.num_residuals_reduced" % n_solve, "I"),
                "num_residual_blocks": var("pos:solve%d.num_residual_blocks" % n_solve, "I"),
                "num_successful_steps": var("pos:solve%d.nss" % n_solve, "I"),
                "num_unsuccessful_steps": var("pos:solve%d.nus" % n_solve, "I"),
                "fixed_cost": var("solve%d.fixed_cost" % n_solve),
                "total_time_in_seconds": var("pos:solve%d.time" % n_solve),
            },
        ),
    )
    ip.solves = getattr(ip, "solves", []) + [dict(problem=p, pre=pre, post=dict(ip.mem), options=ip.load(args[0]), pc=list(ip.pc))]
    return None


LIBHOOK["ceres::Solve"] = ceres_solve


def seq_ptrs(params):
    raise Unsupported("residual block with a symbolic number of parameter blocks")


def havoc_block(ip, binders, conds, pt, n, done):
    """the block starting at pt takes arbitrary values (for every binder value that satisfies the conditions)"""
    if not isinstance(pt, Ptr):
        raise Unsupported("parameter block pointer")
    bvs = [the_atom(b) for b, _ in binders]
    # which path indices are binders
    idxs = []
    key = [pt.loc]
    for c in pt.path:
        if isinstance(c, tuple) and c[0] == "i":
            a = the_atom(c[1])
            if a is not None and a in bvs:
                idxs.append(a)
                key.append("*")
            elif c[1].const() is not None:
                key.append(c)
            else:
                raise Unsupported("parameter block index %s" % show(c[1]))
        else:
            key.append(c)
    key = tuple(key)
    if pt.off is None or pt.off.const() != 0:
        raise Unsupported("parameter block offset")
    # guard: conditions over the indices only
    g = []
    for c in conds:
        if all(f in idxs or f not in bvs for f in c.free):
            g.append(c)
    for b, nn in binders:
        if the_atom(b) in idxs:
            g.append(lt(b, nn))
    guard = band(*g)
    ref = Ref(pt.loc)
    ip.mem[pt.loc] = havoc_at(ip, ip.mem[pt.loc], list(pt.path), idxs, guard, "X%d:%s" % (n, pt.loc), (), key)


def havoc_at(ip, v, path, idxs, guard, name, args, key):
    if not path:
        return havoc_val(v, guard, name, args)
    c = path[0]
    if isinstance(c, tuple) and c[0] == "i" and isinstance(v, Seq):
        a = the_atom(c[1])
        if a is not None and a in idxs:
            old = v
            sub = havoc_at(ip, v.at(c[1]), path[1:], idxs, guard, name, args + (c[1],), key)
            g2 = guard
            # the guard already includes the range of the index; elements outside keep their value
            return Seq([Fun(v.length(), lambda k: subst(sub, {a: k}))], v.ety)
        k = c[1]
        return v.set(k, havoc_at(ip, v.at(k), path[1:], idxs, guard, name, args + (k,), key))
    return set_comp(ip, v, c, havoc_at(ip, get_comp(ip, v, c), path[1:], idxs, guard, name + ("." + c if isinstance(c, str) else ""), args, key))


def havoc_val(v, guard, name, args):
    def x(k):
        return app(name, tuple(args) + (num(k),))

    if isinstance(v, Arr):
        return Arr([vite(guard, x(i), e) for i, e in enumerate(v.v)])
    if isinstance(v, Mat):
        return Mat(v.r, v.c, [ite(guard, x(j * v.r + i), v.at(i, j)) for i in range(v.r) for j in range(v.c)])
    if isinstance(v, Seq):
        if v.segs and isinstance(v.segs[0], Items) and len(v.segs) == 1:
            return Seq([Items([vite(guard, x(i), e) for i, e in enumerate(v.segs[0].v)])], v.ety)
        return Seq([Fun(v.length(), lambda k: vite(guard, app(name, tuple(args) + (k,)), v.at(k)))], v.ety)
    if isinstance(v, DMat):
        return DMat(v.r, v.c, lambda i, j: ite(guard, app(name, tuple(args) + (i, j)), v.cell(i, j)), v.rm)
    if isinstance(v, E):
        return ite(guard, x(0), v)
    raise Unsupported("parameter block over %s" % type(v).__name__)


# ------------------------------------------------------------------------------------------------------------ free calls
def free_call(ip, q, s, name, fref, args, node):
    A = [ip.load(a) for a in args]
    if s.startswith("Eigen::") and fref.get("static"):
        return eigen_static(ip, s, name, fref, A, node)
    if name in ("fabs", "abs", "sqrt", "pow", "cos", "sin", "tan", "acos", "asin", "atan", "atan2", "exp", "log", "floor", "ceil", "round", "hypot", "fmax", "fmin", "isnan", "isfinite", "isinf", "lround", "trunc", "cosh", "sinh") and A and all(scal(a) for a in A):
        return scalar_fn(ip, name, [num(a) for a in A])
    if name in ("min", "max") and len(A) == 2 and all(scal(a) for a in A):
        a, b = num(A[0]), num(A[1])
        c = lt(b, a) if name == "min" else lt(a, b)
        return ite(c, b, a)
    if name == "swap" and len(args) == 2:
        a, b = A
        ip.store(args[0], b)
        ip.store(args[1], a)
        return None
    if name in ("move", "forward", "as_const", "ref", "cref"):
        return args[0]
    if name == "to_string":
        return to_string(num(A[0]))
    if name == "make_pair":
        return Struct("std::pair", {"first": A[0], "second": A[1]})
    if name == "get" and s == "std::get":
        ta = targs_of(fref, ip)
        k = intarg(ta[0])
        v = A[0]
        if isinstance(v, Struct):
            key = ("first", "second")[int(k.const())]
            return ref_or_val(args[0], key, ip)
        return ref_or_val(args[0], ("i", k), ip)
    if name == "tie":
        raise Unsupported("std::tie")
    if s.startswith("std::numeric_limits"):
        t = split_targs(q)[0] if "<" in q else "double"
        t = clean(t)
        if name == "epsilon":
            return num(Fraction(2) ** (-52 if t == "double" else -23))
        if name == "max":
            return num(2 ** UBITS[t] - 1) if t in UBITS else (num(2**31 - 1) if t == "int" else num(Fraction(float.fromhex("0x1.fffffffffffffp+1023"))))
        if name == "min":
            return num(Fraction(float.fromhex("0x1p-1022"))) if t == "double" else ZERO
        if name == "lowest":
            return -num(Fraction(float.fromhex("0x1.fffffffffffffp+1023")))
        if name == "infinity":
            return num(Fraction(2) ** 1024)
    if name.startswith("operator"):
        op = name[8:].strip()
        if op == "<<":
            v = A[0]
            if isinstance(v, Struct) and v.ty == "ss":
                ip.store(args[0], Struct("ss", {"s": v.f["s"] + stream_str(A[1])}))
                return args[0]
            if isinstance(v, Struct) and v.ty == "ostream":
                return args[0]
            if isinstance(v, (Mat, DMat, ArrV)):
                ci = CommaInit(ip.lval(args[0]))
                comma_put(ip, ci, A[1])
                return ci
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if all(scal(a) for a in A):
                return ip.compare(op, A[0], A[1])
            return compare(ip, op, A[0], A[1]) if not (isinstance(A[0], Ptr) and isinstance(A[1], Ptr)) else ip.compare(op, A[0], A[1]) if op in ("==", "!=") else {"<": lt, "<=": le, ">": lambda x, y: lt(y, x), ">=": lambda x, y: le(y, x)}[op](A[0].off, A[1].off)
        if op in ("+", "-", "*", "/"):
            if len(A) == 1:
                return mat_map(lambda x: -x, A[0]) if not scal(A[0]) else -num(A[0])
            if isinstance(A[0], (Ptr, FIt)) and isinstance(A[1], (Ptr, FIt)) and op == "-":
                return it_pos(A[0]) - it_pos(A[1])
            if isinstance(A[0], Ptr) or isinstance(A[1], Ptr):
                return ip.arith(op, A[0], A[1], "ptr")
            return binop(ip, op, A[0], A[1])
        if op == "|":
            return app("bit|", tuple(num(a) for a in A), "I")
        if op in ("++", "--"):
            v = A[0]
            nv = v.to(v.off + (1 if op == "++" else -1))
            ip.store(args[0], nv)
            return args[0]
    if s in ("boost::accumulators::mean",) or (name == "mean" and "accumulators" in s):
        return acc_mean(A[0])
    if name == "variance" and "accumulators" in s:
        return acc_var(A[0])
    if "accumulators" in s and name in ("count", "sum"):
        xs = A[0].f["xs"]
        return xs.length() if name == "count" else seq_sum(xs, lambda x: x)
    if "accumulators::extract" in s or name in ("operator()",):
        pass
    if s == "ceres::AngleAxisRotatePoint":
        return angle_axis_rotate(ip, args, A)
    if s in ("ceres::IsNaN", "ceres::isnan"):
        return FALSE  # real numbers
    if s in ("ceres::AngleAxisToRotationMatrix",):
        return angle_axis_matrix(ip, args, A)
    if name in ("begin", "end", "size", "data", "empty", "cbegin", "cend") and len(args) == 1:
        return member_call(ip, q, s, name, fref, args[0], [], node)
    if name == "operator\"\"s":
        return A[0]
    if name == "__assert_fail":
        raise Dead()
    r = algo(ip, s, name, args, A)
    if r is not NotImplemented:
        return r
    if all(scal(a) for a in A) and A and tnode(ip, node) in ("double", "float"):
        return app("ext:" + s, tuple(num(a) for a in A))
    raise Unsupported("call of %s" % s)


def acc_mean(a):
    xs = a.f["xs"]
    return seq_sum(xs, lambda x: x) / xs.length()


def acc_var(a):
    xs = a.f["xs"]
    m = acc_mean(a)
    return seq_sum(xs, lambda x: x * x) / xs.length() - m * m


def angle_axis_rotate(ip, args, A):
    """result = R(angle_axis) * pt (exact Rodrigues formula; Ceres uses the first-order expansion when |aa|^2 <= DBL_EPSILON)"""
    rd = lambda p, i: ip.load(Ref(p.loc, p.path + (("i", p.off + i),)))
    r = tuple(num(rd(A[0], i)) for i in range(3))
    p = tuple(num(rd(A[1], i)) for i in range(3))
    R = rotmat(raa(*r))
    for i in range(3):
        ip.store(Ref(A[2].loc, A[2].path + (("i", A[2].off + i),)), sum_(R.at(i, j) * p[j] for j in range(3)))
    return None


def angle_axis_matrix(ip, args, A):
    """column-major rotation matrix of an angle-axis vector (exact Rodrigues formula, as above)"""
    if not (isinstance(A[0], Ptr) and isinstance(A[1], Ptr)):
        raise Unsupported("ceres::AngleAxisToRotationMatrix of an adapter")
    R = rotmat(raa(*[num(ip.load(Ref(A[0].loc, A[0].path + (("i", A[0].off + i),)))) for i in range(3)]))
    v = ip.load(Ref(A[1].loc, A[1].path))
    if isinstance(v, Mat) and (v.r, v.c) == (3, 3) and not v.rm and num(A[1].off) == ZERO:
        ip.store(Ref(A[1].loc, A[1].path), R)
        return None
    for k in range(9):
        ip.store(Ref(A[1].loc, A[1].path + (("i", A[1].off + k),)), R.at(k % 3, k // 3))
    return None


def scalar_fn(ip, name, a):
    x = a[0]
    if name in ("fabs", "abs"):
        return eabs(x)
    if name == "sqrt":
        return T.sqrt(x)
    if name == "pow":
        c = a[1].const()
        if c is not None and c.denominator == 1 and 0 <= c <= 8:
            return power(x, int(c))
        if c == Fraction(1, 2):
            return T.sqrt(x)
        return app("pow", tuple(a))
    if name == "cos":
        return T.cos(x)
    if name == "sin":
        return T.sin(x)
    if name == "hypot":
        return T.sqrt(x * x + a[1] * a[1])
    if name in ("fmax", "fmin"):
        return ite(lt(x, a[1]) if name == "fmax" else lt(a[1], x), a[1], x)
    if name in ("isnan", "isinf"):
        return FALSE
    if name == "isfinite":
        return TRUE
    if name in ("floor", "ceil", "round", "trunc") and x.isint:
        return x
    if name == "lround":
        return app("round", (x,), "I")
    return app(name, tuple(a))


def eigen_static(ip, s, name, fref, A, node):
    cls = clean(ip.tu.types[fref["cls"]]) if "cls" in fref else ""
    t = tnode(ip, node)
    if name == "Identity" and ("Transform" in s or "Transform" in cls):
        return Iso()
    if name == "Identity" and "Quaternion" in cls:
        return Quat(ID)
    if name == "Identity" and "Translation" in cls:
        return Iso()
    if name in ("Zero", "Ones", "Identity", "Constant", "Random", "UnitX", "UnitY", "UnitZ", "UnitW"):
        # cls: Eigen::DenseBase<Eigen::Matrix<...>> or MatrixBase
        inner = split_targs(cls)
        it = clean(inner[0]) if inner else cls
        m = mat_type(it)
        if m is None:
            m = mat_type(cls)
        if m is None:
            raise Unsupported("static %s of %s" % (name, cls))
        r, c, rm, arr = m
        wrap = (lambda x: ArrV(x)) if arr else (lambda x: x)
        if name.startswith("Unit"):
            k = "XYZW".index(name[-1])
            n = max(r, c)
            return Mat(r, c, [ONE if i == k else ZERO for i in range(n)])
        val = None
        B_ = list(A)
        if name == "Constant":
            val = B_.pop()
        rr, cc = num(r), num(c)
        if len(B_) == 2:
            rr, cc = num(B_[0]), num(B_[1])
        elif len(B_) == 1:
            if c == 1:
                rr = num(B_[0])
            else:
                cc = num(B_[0])
        if name == "Random":
            RNG.n += 1
            nm = "eigrnd:%d" % RNG.n
            return wrap(to_fixed(DMat(rr, cc, lambda i, j: app(nm, (i, j)))))
        return wrap(const_mat(name, rr, cc, val, rm))
    if name == "LinSpaced":
        n, lo, hi = A[-3:]
        return DMat(n, ONE, lambda i, j: lo + i * (hi - lo) / (num(n) - 1))
    if name == "FromTwoVectors":
        raise Unsupported("FromTwoVectors")
    raise Unsupported("static " + s)


# ------------------------------------------------------------------------------------------------------------- algorithms
def for_range(ip, n, body):
    """run body(k) for k in [0,n) through the loop rule"""
    import loops

    idx = Ref(ip.new(ZERO, "idx"))
    loops.run(ip, cond=lambda: lt(ip.load(idx), n), body=lambda: body(ip.load(idx)), inc=lambda: ip.store(idx, ip.load(idx) + 1), line=0)


def el_ref(p, k):
    o = p.off + k
    return Ref(p.loc, p.path + (("i", o if p.rev is None else p.rev - 1 - o),))


def seq_sample(c):
    """some element of a sequence (its shape)"""
    for s in c.segs:
        if isinstance(s, Items):
            return s.v[0]
        if isinstance(s, (Fun, PHSeg)):
            return s.cell(fresh("idx"))
        x = seq_sample(s.f(fresh("idx")) if isinstance(s, Gen) else s.s)
        if x is not None:
            return x
    return None


def opaque_like(v, name, args):
    """arbitrary value of the same shape"""
    if isinstance(v, B):
        return bnot(eq(app(name, args, "I"), 0))
    if isinstance(v, E):
        return app(name, args, "I" if v.isint else "R")
    if isinstance(v, Str):
        return str_var(name, args)
    if isinstance(v, Struct):
        return Struct(v.ty, {k: opaque_like(x, name + "." + k, args) for k, x in v.f.items()})
    if isinstance(v, Arr):
        return Arr([opaque_like(x, "%s.%d" % (name, i), args) for i, x in enumerate(v.v)])
    if isinstance(v, Mat):
        return Mat(v.r, v.c, [app("%s(%d,%d)" % (name, i, j), args) for i in range(v.r) for j in range(v.c)])
    raise Unsupported("sort of a sequence of %s" % type(v).__name__)


def first_index(sq, p):
    """index of the first element that satisfies p (the length if there is none)"""
    import loops

    try:
        return loops.least(sq.length(), lambda i: p(sq.at(i)))
    except Unsupported:
        return fresh("idx")


def algo(ip, s, name, args, A):
    if name == "find" and len(A) == 3:
        sq = it_range(ip, A[0], A[1])
        n = sq.length()
        if not sq.segs:
            return FIt(A[0], ZERO, FALSE, A[1])
        x = A[2]
        found = seq_any(ip, sq, lambda e: val_eq(ip, e, x))
        return FIt(A[0], first_index(sq, lambda e: val_eq(ip, e, x)), found, A[1])
    if name == "adjacent_find" and len(A) in (2, 3):
        sq = it_range(ip, A[0], A[1])
        n = sq.length()
        fn = args[2] if len(args) > 2 else None

        def adj(i):
            x, y = sq.at(i), sq.at(i + 1)
            if fn is None:
                return val_eq(ip, x, y)
            r = [Ref(ip.new(x)), Ref(ip.new(y))]
            return ip.tob(ip.run_merged_pure(run_catch(lambda: ip.load(ip.call_value(fn, r))), TRUE))

        import loops

        m = ite(lt(0, n), n - 1, ZERO)
        return FIt(A[0], loops.least(m, adj), quant("ex", m, adj), A[1])
    if name in ("any_of", "all_of", "none_of", "find_if", "find_if_not", "count_if") and len(A) == 3:
        sq = it_range(ip, A[0], A[1])
        fn = args[2]

        def p(e):
            r = Ref(ip.new(e))
            return ip.tob(ip.run_merged_pure(run_catch(lambda: ip.load(ip.call_value(fn, [r]))), TRUE))

        if name == "any_of":
            return seq_any(ip, sq, p)
        if name == "none_of":
            return bnot(seq_any(ip, sq, p), A[1])
        if name == "all_of":
            return bnot(seq_any(ip, sq, lambda e: bnot(p(e))))
        if name == "count_if":
            return seq_sum(sq, lambda e: ite(p(e), ONE, ZERO))
        if name == "find_if_not":
            p_ = p
            p = lambda e: bnot(p_(e))
        return FIt(A[0], first_index(sq, p), seq_any(ip, sq, p), A[1])
    if name == "remove_if" and len(A) == 3 and isinstance(A[0], Ptr):
        sq = it_range(ip, A[0], A[1])
        c = ip.load(Ref(A[0].loc, A[0].path))
        if A[0].off != ZERO or A[1].off != c.length():
            raise Unsupported("remove_if on a part of a container")
        fn = args[2]

        def keep(e):
            r = Ref(ip.new(e))
            return bnot(ip.tob(ip.run_merged_pure(run_catch(lambda: ip.load(ip.call_value(fn, [r]))), TRUE)))

        n = sq.length()
        kept = Seq([Gen(n, lambda k: Seq([If(keep(sq.at(k)), Seq([Items([sq.at(k)])]))]))], sq.ety)
        m = kept.length()
        ip.store(Ref(A[0].loc, A[0].path), Seq(kept.segs + (Fun(n - m, lambda k: Havoc("removed element")),), sq.ety))
        return Ptr(A[0].loc, A[0].path, m)
    if name == "count" and len(A) == 3:
        sq = it_range(ip, A[0], A[1])
        return seq_sum(sq, lambda e: ite(val_eq(ip, e, A[2]), ONE, ZERO))
    if name == "for_each":
        a, b = A[0], A[1]
        for_range(ip, b.off - a.off, lambda k: ip.call_value(args[2], [el_ref(a, k)]))
        return args[2]
    if name == "transform":
        a, b = A[0], A[1]
        n = b.off - a.off
        out, fn = args[-2], args[-1]
        second = A[2] if len(A) == 5 else None

        def body(k):
            xs = [el_ref(a, k)]
            if second is not None:
                xs.append(el_ref(second, k))
            put(ip, out, k, ip.load(ip.call_value(fn, xs)))

        for_range(ip, n, body)
        return None
    if name in ("copy", "copy_n", "copy_if"):
        a = A[0]
        if name == "copy_n":
            n, out = A[1], args[2]
        else:
            n, out = A[1].off - a.off, args[2]
        fn = args[3] if name == "copy_if" else None

        def body(k):
            if fn is not None:
                c = ip.tob(ip.call_value(fn, [el_ref(a, k)]))
                if not ip.branch(c):
                    return
            put(ip, out, k, ip.load(el_ref(a, k)))

        for_range(ip, n, body)
        return None
    if name in ("fill", "fill_n"):
        a = A[0]
        n = A[1].off - a.off if name == "fill" else A[1]
        for_range(ip, n, lambda k: ip.store(el_ref(a, k), A[2]))
        return None
    if name in ("sort", "stable_sort") and len(A) in (2, 3):
        a = A[0]
        ref = Ref(a.loc, a.path)
        c = ip.load(ref)
        if not isinstance(c, Seq) or a.off.const() != 0:
            raise Unsupported("sort of a part of a container")
        fn = args[2] if len(A) == 3 else None

        def before(x, y):
            if fn is None:
                return compare(ip, "<", x, y) if not (scal(x) and scal(y)) else lt(num(x), num(y))
            r = [Ref(ip.new(x)), Ref(ip.new(y))]
            return ip.tob(ip.run_merged_pure(run_catch(lambda: ip.load(ip.call_value(fn, r))), TRUE))

        e = seq_sample(c)
        if fn is None and isinstance(e, E) and e.isint:
            # integers: their ascending arrangement, a function of the values and their number of occurrences
            m = multiset(c)
            ip.store(ref, Seq([Fun(c.length(), lambda k: app("sorted", m + (k,), "I"))], c.ety))
            return None
        n = getattr(ip, "n_sort", 0)
        ip.n_sort = n + 1
        k = fresh("idx")
        rel = None
        if e is not None:
            nm = "sort%d" % n
            mk = lambda j: opaque_like(e, nm, (num(j),))
            x, y = opaque_like(e, "ord.a", ()), opaque_like(e, "ord.b", ())
            rel = (x, y, before(x, y))
            after = Seq([PHSeg(nm, c.length(), mk)], c.ety)
            ip.store(ref, after)
        else:
            after = c
        ip.sort_log = getattr(ip, "sort_log", []) + [{"before": c, "rel": rel, "after": after, "name": name}]
        return None
    if name == "shuffle" and len(A) == 3:
        # the order is an arbitrary permutation that depends on the state of the engine
        a, b = A[0], A[1]
        c = seq_of(ip, ip.load(Ref(a.loc, a.path)))
        n = c.length()
        if a.off != ZERO or b.off != n:
            raise Unsupported("shuffle of a part of a container")
        st = A[2].f if isinstance(A[2], Struct) and A[2].ty == "rng" else {"seed": fresh("seed")}
        key = (n, num(st.get("seed", ZERO)), num(st.get("n", ZERO)))
        if isinstance(args[2], Ref) and isinstance(A[2], Struct) and A[2].ty == "rng":
            ip.store(args[2], Struct("rng", dict(st, n=key[2] + 1)))
        perm = lambda k: app("shuffled", key + (k,), "I")
        ip.store(Ref(a.loc, a.path), Seq([Fun(n, lambda k: c.at(perm(k)))], c.ety))
        ip.pc.append(quant("all", n, lambda k: band(le(0, perm(k)), lt(perm(k), n))))
        ip.shuffles = getattr(ip, "shuffles", []) + [perm]
        return None
    if name == "iota":
        a = A[0]
        for_range(ip, A[1].off - a.off, lambda k: ip.store(el_ref(a, k), num(A[2]) + k))
        return None
    if name == "accumulate":
        sq = it_range(ip, A[0], A[1])
        if len(A) == 3:
            return num(A[2]) + seq_sum(sq, lambda x: num(x))
        acc = Ref(ip.new(A[2], "acc"))
        a = A[0]
        for_range(ip, sq.length(), lambda k: ip.store(acc, ip.load(ip.call_value(args[3], [Ref(ip.new(ip.load(acc))), el_ref(a, k)]))))
        return ip.load(acc)
    if name == "inner_product" and len(A) == 4:
        a, b = A[0], A[2]
        return num(A[3]) + summ(A[1].off - a.off, lambda k: ip.load(el_ref(a, k)) * ip.load(el_ref(b, k)))
    if name == "generate":
        a = A[0]
        n = A[1].off - a.off
        RNG.n += 1
        # every element is an independent result of the generator
        e = ip.load(ip.call_value(args[2], []))
        c = ip.load(Ref(a.loc, a.path))
        at = the_atom(e)
        nm = "gen:%d" % RNG.n
        facts = [p for p in ip.pc if at is not None and at in p.free]
        ip.pc = [p for p in ip.pc if p not in facts]
        ip.store(Ref(a.loc, a.path), Seq([Fun(n, lambda k: app(nm, (k,), "I" if e.isint else "R"))], c.ety))
        for p in facts:
            ip.pc.append(quant("all", n, lambda k: subst(p, {at: app(nm, (k,), "I" if e.isint else "R")})))
        return None
    if name == "unique" and len(A) == 2 and isinstance(A[0], Ptr):
        # neighbours that are equal: of an ascending arrangement, all repetitions
        c = ip.load(Ref(A[0].loc, A[0].path))
        g = c.segs[0] if isinstance(c, Seq) and len(c.segs) == 1 else None
        a = the_atom(num(g.cell(ONE))) if isinstance(g, Fun) and scal(g.cell(ONE)) else None
        if A[0].off != ZERO or A[1].off != c.length() or a is None or a.kind != "app" or a.args[0] not in ("sorted", "distinct"):
            raise Unsupported("unique of values in no known order")
        m = tuple(a.args[1][:-1])
        n = distinct(m)
        ip.store(Ref(A[0].loc, A[0].path), Seq([Fun(n, lambda k: app("distinct", m + (k,), "I")), Fun(c.length() - n, lambda k: Havoc("value left behind by unique"))], c.ety))
        return Ptr(A[0].loc, A[0].path, n)
    if name in ("min_element", "max_element"):
        sq = it_range(ip, A[0], A[1])
        g = sq.segs[0] if len(A) == 2 and len(sq.segs) == 1 else None
        a = the_atom(num(g.cell(ONE))) if isinstance(g, Fun) and scal(g.cell(ONE)) else None
        if a is not None and a.kind == "app" and a.args[0] == "distinct":
            # ascending and without repetitions
            return FIt(A[0], (sq.length() - 1) if name == "max_element" else ZERO, lt(0, sq.length()), A[1])
        i = fresh("idx")
        return FIt(A[0], i, lt(0, sq.length()), A[1])
    if any(isinstance(p, Ptr) and p.rev is not None for p in A) and name in ("sort", "stable_sort", "reverse", "iota", "generate", "rotate", "nth_element", "partial_sort", "unique", "remove", "remove_if"):
        raise Unsupported("%s of a reversed range" % name)
    if name == "sort" or name == "stable_sort":
        a, b = A[0], A[1]
        c = ip.load(Ref(a.loc, a.path))
        n = b.off - a.off
        nm = "perm:%d" % (RNG.n + 1)
        RNG.n += 1
        old = seq_of(ip, c)
        new = Seq([Fun(n, lambda k: old.at(app(nm, (k,), "I")))], getattr(c, "ety", None))
        ip.sorts = getattr(ip, "sorts", []) + [dict(perm=nm, n=n, old=old, cmp=args[2] if len(args) > 2 else None, pc=list(ip.pc))]
        ip.store(Ref(a.loc, a.path), new)
        return None
    if name in ("back_inserter", "inserter"):
        return ("backins", ip.lval(args[0]))
    if name == "distance":
        if all(isinstance(p, (Ptr, FIt)) for p in A):
            return it_pos(A[1]) - it_pos(A[0])
    if name in ("next", "prev"):
        d = A[1] if len(A) > 1 else ONE
        return A[0].to(A[0].off + d if name == "next" else A[0].off - d)
    if name == "reverse" and len(A) == 2:
        a, b = A
        c = seq_of(ip, Ref(a.loc, a.path))
        if a.off == ZERO and b.off == c.length():
            n = c.length()
            ip.store(Ref(a.loc, a.path), Seq([Fun(n, lambda k: c.at(n - 1 - k))], c.ety))
            return None
    if name == "equal" and len(A) in (3, 4):
        s1 = it_range(ip, A[0], A[1])
        s2 = it_range(ip, A[2], A[3]) if len(A) == 4 else None
        if s2 is None:
            b = A[2]
            s2 = Seq([Fun(s1.length(), lambda k: ip.load(el_ref(b, k)))])
        return val_eq(ip, s1, s2)
    return NotImplemented


def put(ip, out, k, v):
    o = ip.load(out) if isinstance(out, Ref) else out
    if isinstance(o, tuple) and o[0] == "backins":
        c = ip.load(o[1])
        ip.store(o[1], c.append(coerce(ip, v, c.ety) if c.ety else v))
        return
    if isinstance(o, Ptr):
        ip.store(el_ref(o, k), v)
        return
    raise Unsupported("output iterator")


def seq_any(ip, sq, p):
    out = []
    for g in sq.segs:
        if isinstance(g, Items):
            out += [p(x) for x in g.v]
        elif isinstance(g, Fun):
            out.append(quant("ex", g.n, lambda t, g=g: p(g.cell(t))))
        elif isinstance(g, Gen):
            out.append(quant("ex", g.n, lambda t, g=g: seq_any(ip, g.f(t), p)))
        elif isinstance(g, If):
            out.append(band(g.c, seq_any(ip, g.s, p)))
        elif isinstance(g, PHSeg):
            out.append(quant("ex", g.n, lambda t, g=g: p(g.cell(t))))
        else:
            raise Unsupported("any over sequence")
    return bor(*out)


import yamlm, cvm  # noqa: E402  (registers its hooks)
