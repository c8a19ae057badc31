"""Structured values of the verifier: matrices, rotations, isometries, structs, sequences, pointers."""
import math
import numpy as np
from terms import *
import terms as T


# ------------------------------------------------------------------------------------------------------------ rotations
class W:
    """a rotation as a free-reduced word of signed rotation atoms (Atom kinds rvar, raa, raxis)"""

    __slots__ = ("w", "free", "lvl", "_h")

    def __init__(self, w):
        self.w = tuple(w)
        self.free = frozenset().union(*[a.free for a, s in self.w]) if self.w else frozenset()
        self.lvl = max([a.lvl for a, s in self.w], default=0)
        self._h = hash(self.w)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, W) and self.w == o.w

    def __repr__(self):
        return "*".join(show_atom(a) + ("'" if s < 0 else "") for a, s in self.w) or "I"

    def inv(self):
        return W([(a, -s) for a, s in reversed(self.w)])

    def __mul__(self, o):
        l = list(self.w)
        for a, s in o.w:
            if l and l[-1][0] is a and l[-1][1] == -s:
                l.pop()
            elif l and l[-1][0].kind == "raxis" and a.kind == "raxis" and l[-1][0].args[0] == a.args[0]:
                b, sb = l.pop()
                r = raxis(a.args[0], scale(b.args[1], Fraction(sb)) + scale(a.args[1], Fraction(s)))
                l += list(r.w)
            else:
                l.append((a, s))
            if len(l) > 2 and a.kind == "raxis":
                r = _of_euler(l[-3:])
                if r is not None:
                    l = list((W(l[:-3]) * r).w)
        return W(l)

    def ent(self, i, j):
        return wmat(self)[i * 3 + j]

    def subst_(self, m, memo):
        r = W(())
        for a, s in self.w:
            x = m[a] if a in m else rot_subst(a, m, memo)
            r = r * (x if s > 0 else x.inv())
        return r

    def num_(self, model):
        r = np.eye(3)
        for a, s in self.w:
            x = rot_num(model, a)
            r = r @ (x if s > 0 else x.T)
        return r


ID = W(())


def _of_euler(l):
    """the rotation whose Euler angles (Eigen's eulerAngles(i, j, k)) are the angles of three successive axis rotations"""

    def one(l):
        if [s for a, s in l] != [1, 1, 1] or any(a.kind != "raxis" for a, s in l):
            return None
        ax = tuple(a.args[0] for a, s in l)
        r = None
        for k, (a, s) in enumerate(l):
            t = a.args[1]
            if len(t.t) != 1 or t.t[0][1] != 1 or len(t.t[0][0]) != 1 or t.t[0][0][0][1] != 1:
                return None
            e = t.t[0][0][0][0]
            if e.kind != "app" or e.args[0] != "euler" or e.args[1][1] != ax or e.args[1][2] != k or (r is not None and e.args[1][0] != r):
                return None
            r = e.args[1][0]
        return r

    r = one(l)
    if r is not None:
        return r
    r = one([(a, -s) for a, s in reversed(l)])
    return r.inv() if r is not None else None


def euler(w, axes):
    """Tait-Bryan angles of a rotation: R = R_i(a0) R_j(a1) R_k(a2)"""
    return [app("euler", (w, tuple(axes), k)) for k in range(3)]


def _euler_num(m, args):
    R = args[0].num_(m)
    if args[1] == (2, 1, 0):
        e = (math.atan2(R[1, 0], R[0, 0]), math.asin(max(-1, min(1, -R[2, 0]))), math.atan2(R[2, 1], R[2, 2]))
    elif args[1] == (0, 1, 2):
        e = (math.atan2(-R[1, 2], R[2, 2]), math.asin(max(-1, min(1, R[0, 2]))), math.atan2(-R[0, 1], R[0, 0]))
    else:
        raise EvalFail("Euler angles")
    return e[args[2]]


T._num_hooks["euler"] = _euler_num


def rot_subst(a, m, memo):
    f = lambda y: subst(y, m, memo)
    if a.kind == "rvar":
        return rvar(a.args[0], tuple(f(x) for x in a.args[1]))
    if a.kind == "raa":
        return raa(*[f(x) for x in a.args])
    if a.kind == "raxis":
        return raxis(a.args[0], f(a.args[1]))
    raise Unsupported("rot subst")


def rvar(name, args=()):
    return W([(atom("rvar", (name, tuple(args))), 1)])


def raxis(k, angle):
    c = angle.const()
    if c is not None and c == 0:
        return ID
    if c is None and angle.t[-1][1] < 0:
        return W([(atom("raxis", (k, -angle)), -1)])
    return W([(atom("raxis", (k, angle)), 1)])


def _islog(x, y, z):
    """x,y,z = aangle(W)*aaxis(W,k)"""
    ws = []
    for k, p in enumerate((x, y, z)):
        if len(p.t) != 1:
            return None
        m, c = p.t[0]
        if c not in (1, -1):
            return None
        d = {a.args[0]: (a, e) for a, e in m if a.kind == "app"}
        if len(m) != 2 or "aangle" not in d or "aaxis" not in d or d["aangle"][1] != 1 or d["aaxis"][1] != 1:
            return None
        wa = d["aangle"][0].args[1][0]
        wb, kk = d["aaxis"][0].args[1]
        if wa != wb or kk != k:
            return None
        ws.append((wa, c))
    if all(w == ws[0] for w in ws):
        return ws[0][0] if ws[0][1] == 1 else ws[0][0].inv()
    return None


def raa(x, y, z):
    """rotation with rotation vector (x,y,z)"""
    if not x.t and not y.t and not z.t:
        return ID
    nz = [(k, p) for k, p in enumerate((x, y, z)) if p.t]
    if len(nz) == 1:
        return raxis(nz[0][0], nz[0][1])
    w = _islog(x, y, z)
    if w is not None:
        return w
    if nz[0][1].t[-1][1] < 0:
        return W([(atom("raa", (-x, -y, -z)), -1)])
    return W([(atom("raa", (x, y, z)), 1)])


_wmemo = {}


def amat(a, s):
    if a.kind == "raxis":
        k, th = a.args
        c, sn = cos(th), sin(th)
        if s < 0:
            sn = -sn
        m = [ZERO] * 9
        i, j = (k + 1) % 3, (k + 2) % 3
        m[k * 3 + k] = ONE
        m[i * 3 + i] = c
        m[j * 3 + j] = c
        m[i * 3 + j] = -sn
        m[j * 3 + i] = sn
        return tuple(m)
    if s > 0:
        return tuple(of_atom(atom("ent", (a, i, j))) for i in range(3) for j in range(3))
    return tuple(of_atom(atom("ent", (a, j, i))) for i in range(3) for j in range(3))


def wmat(w):
    r = _wmemo.get(w)
    if r is None:
        r = tuple(ONE if i == j else ZERO for i in range(3) for j in range(3))
        first = True
        for a, s in w.w:
            m = amat(a, s)
            r = m if first else mm3(r, m)
            first = False
        _wmemo[w] = r
    return r


def mm3(a, b):
    return tuple(
        a[i * 3] * b[j] + a[i * 3 + 1] * b[3 + j] + a[i * 3 + 2] * b[6 + j] for i in range(3) for j in range(3)
    )


def rot_num(model, a):
    if a.kind == "raxis":
        v = np.zeros(3)
        v[a.args[0]] = model.e(a.args[1])
        return rodrigues(v)
    if a.kind == "raa":
        return rodrigues(np.array([float(model.e(x)) for x in a.args]))
    if a.kind == "rvar":
        vals = tuple(T._rk(model.val(x)) for x in a.args[1])
        key = ("rvar:" + a.args[0], vals)
        if key in model.fixed:
            return model.fixed[key]
        v = np.array([model.rnd("rvar", a.args[0], vals, k) * 2 - 1 for k in range(3)])
        return rodrigues(v * 1.7)
    raise EvalFail(a.kind)


def rodrigues(v):
    th = math.sqrt(float(v @ v))
    k = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
    if th < 1e-12:
        return np.eye(3) + k
    return np.eye(3) + math.sin(th) / th * k + (1 - math.cos(th)) / th**2 * (k @ k)


def rotlog(R):
    c = max(-1.0, min(1.0, (np.trace(R) - 1) / 2))
    th = math.acos(c)
    if th < 1e-9:
        return 0.0, np.array([1.0, 0, 0])
    v = np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]])
    n = np.linalg.norm(v)
    if n < 1e-7:
        raise EvalFail("log near pi")
    return th, v / n


def ent_num(model, a):
    r, i, j = a.args
    key = ("rotnum", r) if r.lvl == 0 else None
    if key:
        m = model.memo.get(key)
        if m is None:
            m = rot_num(model, r)
            model.memo[key] = m
    else:
        m = rot_num(model, r)
    return float(m[i, j])


def ent_rebuild(a, f):
    r, i, j = a.args
    # f is y -> subst(y, m, memo); rebuild the rotation atom through a word
    w = W([(r, 1)])
    w2 = f(w)
    return wmat(w2)[i * 3 + j]


T._num_hooks["aangle"] = lambda m, args: rotlog(args[0].num_(m))[0]
T._num_hooks["aaxis"] = lambda m, args: float(rotlog(args[0].num_(m))[1][args[1]])


def _angdist(m, args):
    a, b = args[0].num_(m), args[1].num_(m)
    R = a.T @ b
    return math.acos(max(-1.0, min(1.0, (np.trace(R) - 1) / 2)))


T._num_hooks["angdist"] = _angdist


def angdist(wa, wb):
    """rotation angle (0..pi) between two rotations: depends only on wa^-1*wb, symmetric"""
    d = wa.inv() * wb
    e = d.inv()
    if not d.w:
        return ZERO
    x = min((d, e), key=lambda w: tuple((a.id, s) for a, s in w.w))
    return app("angdist", (ID, x))


# -------------------------------------------------------------------------------------------------------------- matrices
class Mat:
    """fixed size matrix (row-major tuple of scalars); rot: the rotation word it is known to be equal to"""

    __slots__ = ("r", "c", "e", "rot", "rm")

    def __init__(self, r, c, e, rot=None, rm=False):
        self.r, self.c, self.e, self.rot, self.rm = r, c, tuple(e), rot, rm
        assert len(self.e) == r * c, (r, c, len(self.e))

    def at(self, i, j):
        return self.e[i * self.c + j]

    def subst_(self, m, memo):
        return Mat(self.r, self.c, [subst(x, m, memo) for x in self.e], self.rot.subst_(m, memo) if self.rot else None, self.rm)

    @property
    def free(self):
        return free_of(self.e)

    @property
    def lvl(self):
        return level_of(self.e)

    def __repr__(self):
        return "Mat%dx%d[%s]" % (self.r, self.c, ", ".join(show(x) for x in self.e))


def vec(*xs):
    return Mat(len(xs), 1, [num(x) for x in xs])


def rotmat(w):
    return Mat(3, 3, wmat(w), w)


class DMat:
    """matrix with symbolic size; cell(i,j)"""

    __slots__ = ("r", "c", "cell", "rm")

    def __init__(self, r, c, cell, rm=False):
        self.r, self.c, self.cell, self.rm = num(r), num(c), cell, rm

    def subst_(self, m, memo):
        c = self.cell
        m = dict(m)
        return DMat(subst(self.r, m), subst(self.c, m), lambda i, j: subst_in(c, (i, j), m), self.rm)

    @property
    def free(self):
        return free_of((self.r, self.c, self.cell(var("?i", "I"), var("?j", "I"))))

    @property
    def lvl(self):
        return 0

    def __repr__(self):
        return "DMat(%s x %s: %s)" % (show(self.r), show(self.c), self.cell(var("?i", "I"), var("?j", "I")))


_probe_n = [0]


def fresh(prefix="idx", sort="I"):
    _probe_n[0] += 1
    return var("%s:%d" % (prefix, _probe_n[0]), sort)


def subst_in(f, args, m):
    """evaluate f at args, then apply substitution m to the body only (args are protected by fresh variables)"""
    vs = [fresh("idx") for _ in args]
    body = f(*vs)
    body = subst(body, m)
    return subst(body, {the_atom(v): a for v, a in zip(vs, args)})


# ------------------------------------------------------------------------------------------------------------ isometries
class Iso:
    """product of signed primitive rigid transforms; primitive: (lin: Mat 3x3, t: tuple of 3) or a Fold"""

    __slots__ = ("w",)

    def __init__(self, w=()):
        self.w = tuple(w)

    @property
    def free(self):
        return free_of(tuple(p[0] for p in self.w))

    @property
    def lvl(self):
        return level_of(tuple(p[0] for p in self.w))

    def inv(self):
        return Iso([(p, -s) for p, s in reversed(self.w)])

    def __mul__(self, o):
        l = list(self.w)
        for p, s in o.w:
            if l and l[-1][1] == -s and l[-1][0] == p:
                l.pop()
            else:
                l.append((p, s))
        return Iso(l)

    def subst_(self, m, memo):
        r = Iso()
        for p, s in self.w:
            x = m[p] if p in m else p.subst_(m, memo)
            r = r * (x if s > 0 else x.inv())
        return r

    def lin(self):
        if not self.w:
            return rotmat(ID)
        r = None
        for p, s in self.w:
            x = p.lin()
            if s < 0:
                x = mat_inv(x)
            r = x if r is None else mat_mul(r, x)
        return r

    def trans(self):
        return self.apply((ZERO, ZERO, ZERO))

    def apply(self, v):
        for p, s in reversed(self.w):
            L = p.lin()
            t = p.trans()
            if s > 0:
                v = tuple(sum_(L.at(i, j) * v[j] for j in range(3)) + t[i] for i in range(3))
            else:
                L = mat_inv(L)
                v = tuple(sum_(L.at(i, j) * v[j] for j in range(3)) - sum_(L.at(i, j) * t[j] for j in range(3)) for i in range(3))
        return v

    def rows(self):
        """3x4 entries"""
        L, t = self.lin(), self.trans()
        return [L.at(i, j) for i in range(3) for j in range(3)] + list(t)

    def __repr__(self):
        return "Iso(" + " * ".join(repr(p) + ("^-1" if s < 0 else "") for p, s in self.w) + ")"


def sum_(xs):
    r = ZERO
    for x in xs:
        r = r + x
    return r


class RT:
    """primitive transform: x -> lin*x + t"""

    kind = "prim"

    __slots__ = ("l", "t", "_k")

    def __init__(self, l, t):
        self.l, self.t = l, tuple(t)
        self._k = (l.rot if l.rot is not None else l.e, self.t)

    def __eq__(self, o):
        return isinstance(o, RT) and self._k == o._k

    def __hash__(self):
        return hash(self._k)

    @property
    def free(self):
        return free_of((self.l.e, self.t))

    @property
    def lvl(self):
        return level_of((self.l.e, self.t))

    def lin(self):
        return self.l

    def trans(self):
        return self.t

    def subst_(self, m, memo):
        return Iso([(RT(self.l.subst_(m, memo), subst(self.t, m, memo)), 1)])

    def __repr__(self):
        return "RT(%s; %s)" % (self.l.rot if self.l.rot is not None else show(self.l.e), show(self.t))


def iso_rt(lin, t):
    t = tuple(t)
    if lin.rot is not None and not lin.rot.w and all(not x.t for x in t):
        return Iso()
    return Iso([(RT(lin, t), 1)])


class IteP:
    """one of two isometries, chosen by a condition (kept unexpanded so that the chosen product stays a product)"""

    kind = "prim"

    __slots__ = ("c", "a", "b", "_k")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        self._k = (c, a.w, b.w)

    def __eq__(self, o):
        return isinstance(o, IteP) and self._k == o._k

    def __hash__(self):
        return hash(self._k)

    @property
    def free(self):
        return free_of((self.c, self.a, self.b))

    @property
    def lvl(self):
        return level_of((self.c, self.a, self.b))

    def lin(self):
        return Mat(3, 3, [ite(self.c, x, y) for x, y in zip(self.a.lin().e, self.b.lin().e)])

    def trans(self):
        return tuple(ite(self.c, x, y) for x, y in zip(self.a.trans(), self.b.trans()))

    def subst_(self, m, memo):
        return vite(subst(self.c, m), subst(self.a, m), subst(self.b, m))

    def num_(self, model):
        return iso_num(model, self.a if model.b(self.c) else self.b)

    def __repr__(self):
        return "(%s ? %r : %r)" % (self.c, self.a, self.b)


class Fold:
    """product over t in [0,n) of body(t) (in increasing order, left to right), as a primitive"""

    __slots__ = ("n", "level", "body", "_k")

    def __init__(self, n, level, body):
        self.n, self.level, self.body = n, level, body
        self._k = (n, level, tuple(body.rows()))

    def __eq__(self, o):
        return isinstance(o, Fold) and self._k == o._k

    def __hash__(self):
        return hash(self._k)

    @property
    def free(self):
        return free_of((self.n, self._k[2]))

    @property
    def lvl(self):
        return max(self.n.lvl, self.level)

    def lin(self):
        if self.body.lin().rot is not None:
            w = W([(atom("rfold", (self,)), 1)])
            return Mat(3, 3, wmat(w), w)
        return Mat(3, 3, [of_atom(atom("fold", (self, i, j))) for i in range(3) for j in range(3)])

    def trans(self):
        return tuple(of_atom(atom("fold", (self, i, 3))) for i in range(3))

    def subst_(self, m, memo):
        v = fresh("idx")
        b = subst(self.body, {bv(self.level).t[0][0][0][0]: v})
        b = subst(b, m)
        return iso_fold(subst(self.n, m), lambda t: subst(b, {the_atom(v): t}))

    def num_(self, model):
        M = np.eye(4)
        old = model.env.get(self.level)
        for i in range(int(round(model.e(self.n)))):
            model.env[self.level] = i
            M = M @ iso_num(model, self.body)
        if old is None:
            model.env.pop(self.level, None)
        else:
            model.env[self.level] = old
        return M

    def __repr__(self):
        return "Fold($%d<%s: %r)" % (self.level, show(self.n), self.body)


T._num_hooks["fold"] = lambda m, a: float(a.args[0].num_(m)[a.args[1], a.args[2]])


def _fold_rebuild(a, f):
    iso = f(a.args[0])
    i, j = a.args[1], a.args[2]
    return iso.lin().at(i, j) if j < 3 else iso.trans()[i]


T._rebuild_hooks["fold"] = _fold_rebuild

_old_rot_subst = rot_subst


def rot_subst(a, m, memo):  # noqa
    if a.kind == "rfold":
        iso = a.args[0].subst_(m, memo)
        return iso.lin().rot
    return _old_rot_subst(a, m, memo)


_old_rot_num = rot_num


def rot_num(model, a):  # noqa
    if a.kind == "rfold":
        return a.args[0].num_(model)[:3, :3]
    return _old_rot_num(model, a)


def iso_fold(n, f):
    n = num(n)
    c = n.const()
    if c is not None and c <= 8:
        r = Iso()
        for i in range(int(c)):
            r = r * f(num(i))
        return r
    v = fresh("idx")
    b = f(v)
    lvl = max(level_of(tuple(b.rows())), n.lvl)
    nb = subst(b, {the_atom(v): bv(lvl)})
    return Iso([(Fold(n, lvl, nb), 1)])


def iso_num(model, iso):
    M = np.eye(4)
    for p, s in iso.w:
        if isinstance(p, (Fold, IteP)):
            X = p.num_(model)
        else:
            X = np.eye(4)
            if p.l.rot is not None:
                X[:3, :3] = p.l.rot.num_(model)
            else:
                X[:3, :3] = np.array([float(model.e(x)) for x in p.l.e]).reshape(3, 3)
            X[:3, 3] = [float(model.e(x)) for x in p.t]
        M = M @ (X if s > 0 else np.linalg.inv(X))
    return M


Iso.num_ = lambda self, m: tuple(T._rk(float(x)) for x in iso_num(m, self).flatten())


def iso_var(name, args=()):
    args = tuple(args)
    return iso_rt(rotmat(rvar(name, args)), tuple(app(name + ".t%d" % k, args) if args else var(name + ".t%d" % k) for k in range(3)))


# ----------------------------------------------------------------------------------------------------------- matrix algebra
def mat_mul(a, b):
    if isinstance(a, Mat) and isinstance(b, Mat):
        if a.c != b.r:
            raise Unsupported("matrix product shapes %dx%d %dx%d" % (a.r, a.c, b.r, b.c))
        if a.rot is not None and b.rot is not None:
            return rotmat(a.rot * b.rot)
        return Mat(a.r, b.c, [sum_(a.at(i, k) * b.at(k, j) for k in range(a.c)) for i in range(a.r) for j in range(b.c)])
    if isinstance(a, Mat):
        if a.r == 1 and a.c == 1 and b.r != ONE:
            pass
        n = a.c
        A = a
        return DMat(num(a.r), b.c, lambda i, j: sum_(mat_at(A, i, num(k)) * b.cell(num(k), j) for k in range(n)))
    if isinstance(b, Mat):
        n = b.r
        return DMat(a.r, num(b.c), lambda i, j: sum_(a.cell(i, num(k)) * mat_at(b, num(k), j) for k in range(n)))
    n = a.c
    if n.const() is not None and n.const() <= 16:
        return DMat(a.r, b.c, lambda i, j: sum_(a.cell(i, num(k)) * b.cell(num(k), j) for k in range(int(n.const()))))
    return DMat(a.r, b.c, lambda i, j: summ(n, lambda k: a.cell(i, k) * b.cell(k, j)))


def mat_at(m, i, j):
    """entry with possibly symbolic indices"""
    i, j = num(i), num(j)
    if isinstance(m, DMat):
        return m.cell(i, j)
    ci, cj = i.const(), j.const()
    if ci is not None and cj is not None:
        if not (0 <= ci < m.r and 0 <= cj < m.c):
            raise Unsupported("matrix index out of range")
        return m.at(int(ci), int(cj))
    if ci is None:
        r = mat_at(m, m.r - 1, j)
        for k in range(m.r - 2, -1, -1):
            r = ite(eq(i, k), mat_at(m, k, j), r)
        return r
    r = m.at(int(ci), m.c - 1)
    for k in range(m.c - 2, -1, -1):
        r = ite(eq(j, k), m.at(int(ci), k), r)
    return r


def det(m):
    if m.r == 1:
        return m.e[0]
    if m.r == 2:
        return m.at(0, 0) * m.at(1, 1) - m.at(0, 1) * m.at(1, 0)
    r = ZERO
    for j in range(m.c):
        if not m.at(0, j).t:
            continue
        minor = Mat(m.r - 1, m.c - 1, [m.at(i, k) for i in range(1, m.r) for k in range(m.c) if k != j])
        r = r + (m.at(0, j) if j % 2 == 0 else -m.at(0, j)) * det(minor)
    return r


def mat_inv(m):
    if m.rot is not None:
        return rotmat(m.rot.inv())
    if m.r != m.c or m.r > 4:
        raise Unsupported("inverse of %dx%d" % (m.r, m.c))
    d = inv(det(m))
    n = m.r
    out = []
    for i in range(n):
        for j in range(n):
            minor = Mat(n - 1, n - 1, [m.at(a, b) for a in range(n) if a != j for b in range(n) if b != i])
            c = det(minor)
            out.append((c if (i + j) % 2 == 0 else -c) * d)
    return Mat(n, n, out)


def mat_T(m):
    if isinstance(m, DMat):
        return DMat(m.c, m.r, lambda i, j: m.cell(j, i), m.rm)
    if m.rot is not None:
        return rotmat(m.rot.inv())
    return Mat(m.c, m.r, [m.at(j, i) for i in range(m.c) for j in range(m.r)])


def mat_map(f, *ms):
    """entrywise"""
    shape = ms[0]
    if all(isinstance(m, Mat) for m in ms):
        for m in ms:
            if (m.r, m.c) != (shape.r, shape.c):
                raise Unsupported("entrywise shapes")
        return Mat(shape.r, shape.c, [f(*xs) for xs in zip(*[m.e for m in ms])])
    d = next(m for m in ms if isinstance(m, DMat))
    return DMat(d.r, d.c, lambda i, j: f(*[mat_at(m, i, j) for m in ms]))


class ArrV:
    """Eigen array expression"""

    def __init__(self, m):
        self.m = m

    free = property(lambda s: s.m.free)
    lvl = property(lambda s: s.m.lvl)

    def subst_(self, m, memo):
        return ArrV(subst(self.m, m, memo))

    def same_(self, o):
        return same(self.m, o.m)

    def vite_(self, c, o):
        return ArrV(vite(c, self.m, o.m))


def to_dmat(m):
    if isinstance(m, ArrV):
        m = m.m
    if isinstance(m, DMat):
        return m
    return DMat(num(m.r), num(m.c), lambda i, j: mat_at(m, i, j))


def to_fixed(m):
    """a DMat whose size is constant becomes a Mat"""
    if isinstance(m, DMat):
        r, c = m.r.const(), m.c.const()
        if r is not None and c is not None and r * c <= 64:
            return Mat(int(r), int(c), [m.cell(num(i), num(j)) for i in range(int(r)) for j in range(int(c))])
    return m


# ------------------------------------------------------------------------------------------------------------ other values
class Quat:
    """unit quaternion known through its rotation word (sign chosen by the library), or explicit coefficients"""

    __slots__ = ("w", "c")

    def __init__(self, w=None, c=None):
        self.w, self.c = w, c  # c = (x,y,z,w)

    @property
    def free(self):
        return self.w.free if self.w is not None else free_of(self.c)

    @property
    def lvl(self):
        return self.w.lvl if self.w is not None else level_of(self.c)

    def coeffs(self):
        if self.c is not None:
            return self.c
        return tuple(app("qcoef", (self.w, k)) for k in range(4))

    def rot(self):
        if self.w is not None:
            return self.w
        c = self.c
        ws = set()
        for k, p in enumerate(c):
            a = the_atom(p)
            if a is None or a.kind != "app" or a.args[0] != "qcoef" or a.args[1][1] != k:
                ws = None
                break
            ws.add(a.args[1][0])
        if ws is not None and len(ws) == 1:
            return ws.pop()
        return None

    def subst_(self, m, memo):
        return Quat(self.w.subst_(m, memo) if self.w is not None else None, subst(self.c, m, memo) if self.c is not None else None)

    def __repr__(self):
        return "Quat(%s)" % (self.w if self.w is not None else show(self.c))


def quat_of_rot(R):
    """Eigen's conversion up to sign; returns (x,y,z,w) with w >= 0"""
    th, ax = rotlog(R)
    s = math.sin(th / 2)
    return (ax[0] * s, ax[1] * s, ax[2] * s, math.cos(th / 2))


T._num_hooks["qcoef"] = lambda m, args: float(quat_of_rot(args[0].num_(m))[args[1]])


class AA:
    __slots__ = ("angle", "axis")

    def __init__(self, angle, axis):
        self.angle, self.axis = angle, axis

    free = property(lambda s: free_of((s.angle, s.axis)))
    lvl = property(lambda s: level_of((s.angle, s.axis)))

    def rot(self):
        a, (x, y, z) = self.angle, self.axis.e
        if unit_axis(self.axis.e):
            return raa(a * x, a * y, a * z)
        raise Unsupported("AngleAxis with an axis not known to be a unit vector: " + show(self.axis.e))

    def subst_(self, m, memo):
        return AA(subst(self.angle, m, memo), subst(self.axis, m, memo))


def unit_axis(e):
    cs = [x.const() for x in e]
    if all(c is not None for c in cs):
        return sum(c * c for c in cs) == 1
    ws = []
    for k, p in enumerate(e):
        a = the_atom(p) or the_atom(-p)
        if a is None or a.kind != "app" or a.args[0] != "aaxis" or a.args[1][1] != k:
            ws = None
            break
        ws.append(a.args[1][0])
    if ws and all(w == ws[0] for w in ws):
        return True
    s = sum_(x * x for x in e)
    return s == ONE or _unit_poly(s)


def _unit_poly(s):
    # sum v_k^2 * inv(sum v^2) with a multi-term denominator: multiply out
    for m, c in s.t:
        for a, ex in m:
            if a.kind == "inv":
                return s * a.args[0] == a.args[0] or sum_([_mulout(E(((mm, cc),)), a) for mm, cc in s.t]) == a.args[0]
    return False


def _mulout(term, a):
    m, c = term.t[0]
    mm = tuple((x, e) for x, e in m if x is not a)
    return E(((mm, c),)) if mm else num(c)


class Str:
    """string: concatenation of literal parts and symbolic atoms"""

    __slots__ = ("p",)

    def __init__(self, p=()):
        out = []
        for x in p:
            if isinstance(x, str):
                if not x:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + x
                    continue
            out.append(x)
        self.p = tuple(out)

    free = property(lambda s: free_of(s.p))
    lvl = property(lambda s: level_of(s.p))

    def __add__(self, o):
        return Str(self.p + o.p)

    def lit(self):
        if not self.p:
            return ""
        if len(self.p) == 1 and isinstance(self.p[0], str):
            return self.p[0]
        return None

    def __eq__(self, o):
        return isinstance(o, Str) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def subst_(self, m, memo):
        out = []
        for x in self.p:
            if isinstance(x, Atom):
                out += list(str_atom_subst(x, m, memo).p)
            elif isinstance(x, str):
                out.append(x)
            else:
                out.append(subst(x, m, memo))
        return Str(out)

    def num_(self, model):
        return "".join(x if isinstance(x, str) else sv_num(model, x) for x in self.p)

    def __repr__(self):
        return "Str(" + "+".join(repr(x) for x in self.p) + ")"


def sv_num(model, a):
    if a.kind == "svar":
        key = (a.args[0], tuple(T._rk(model.val(y)) for y in a.args[1]))
        return model.fixed.get(("str",) + key, "<%s#%d>" % (a.args[0], int(model.rnd(key) * 3)))
    if a.kind == "tostr":
        return str(model.e(a.args[0]))
    if a.kind == "site":
        return (a.args[1] if model.b(a.args[0]) else a.args[2]).num_(model)
    raise EvalFail("str")


def str_atom_subst(a, m, memo):
    f = lambda y: subst(y, m, memo)
    if a.kind == "svar":
        return Str([atom("svar", (a.args[0], tuple(f(y) for y in a.args[1])))])
    if a.kind == "tostr":
        return to_string(f(a.args[0]))
    if a.kind == "site":
        return str_ite(f(a.args[0]), f(a.args[1]), f(a.args[2]))
    raise Unsupported("str subst")


def str_ite(c, a, b):
    if c == TRUE or a == b:
        return a
    if c == FALSE:
        return b
    return Str([atom("site", (c, a, b))])


def str_var(name, args=()):
    return Str([atom("svar", (name, tuple(args)))])


def to_string(e):
    c = e.const()
    if c is not None and c.denominator == 1 and e.isint:
        return Str([str(c.numerator)])
    return Str([atom("tostr", (e,))])


def str_eq(a, b):
    if a == b:
        return TRUE
    if a.lit() is not None and b.lit() is not None:
        return FALSE
    return B("p", ("streq", a, b))


T._num_hooks["streq"] = lambda m, args: args[0].num_(m) == args[1].num_(m)
T._subst_hooks["streq"] = lambda args, s: str_eq(*args)


class Struct:
    __slots__ = ("ty", "f")

    def __init__(self, ty, f):
        self.ty, self.f = ty, f

    @property
    def free(self):
        s = frozenset()
        for v in self.f.values():
            s |= frozenset(free_of(v))
        return s

    @property
    def lvl(self):
        return max([level_of(v) for v in self.f.values()], default=0)

    def subst_(self, m, memo):
        return Struct(self.ty, {k: subst(v, m, memo) for k, v in self.f.items()})

    def with_(self, k, v):
        d = dict(self.f)
        d[k] = v
        return Struct(self.ty, d)

    def __repr__(self):
        return "%s{%s}" % (self.ty, ", ".join("%s=%r" % kv for kv in self.f.items()))


class Arr:
    """fixed-size array"""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = tuple(v)

    free = property(lambda s: free_of(s.v))
    lvl = property(lambda s: level_of(s.v))

    def subst_(self, m, memo):
        return Arr([subst(x, m, memo) for x in self.v])

    def __repr__(self):
        return "Arr%r" % (self.v,)


class Null:
    free = frozenset()
    lvl = 0

    def __repr__(self):
        return "null"

    def subst_(self, m, memo):
        return self


NULL = Null()


class Undef:
    """uninitialised memory"""

    free = frozenset()
    lvl = 0

    def __repr__(self):
        return "undef"

    def subst_(self, m, memo):
        return self


UNDEF = Undef()


class Havoc:
    """a value about which nothing is known; any use of it makes the obligation undecided"""

    __slots__ = ("why",)
    free = frozenset()
    lvl = 0

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "havoc(%s)" % self.why

    def subst_(self, m, memo):
        return self


class Ptr:
    """pointer to memory loc at path; off: element offset inside the array/matrix/vector at path (None: object pointer)"""

    __slots__ = ("loc", "path", "off", "rev")

    def __init__(self, loc, path=(), off=None, rev=None):
        self.loc, self.path, self.off = loc, tuple(path), off
        self.rev = rev  # reverse iterator: number of elements of the container; off counts from its end

    def to(self, off):
        return Ptr(self.loc, self.path, off, self.rev)

    free = property(lambda s: free_of((s.path, s.off if s.off is not None else ())))
    lvl = property(lambda s: level_of((s.path, s.off if s.off is not None else ())))

    def subst_(self, m, memo):
        return Ptr(self.loc, subst(self.path, m, memo), subst(self.off, m, memo) if self.off is not None else None, subst(self.rev, m, memo) if self.rev is not None else None)

    def __eq__(self, o):
        return isinstance(o, Ptr) and (self.loc, self.path, self.off, self.rev) == (o.loc, o.path, o.off, o.rev)

    def __hash__(self):
        return hash((self.loc, self.path, self.off))

    def __repr__(self):
        return "&%s%r%s" % (self.loc, self.path, "" if self.off is None else "+" + show(self.off))


class Cond:
    """one of two values (pointers) chosen by a condition"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    free = property(lambda s: free_of((s.c, s.a, s.b)))
    lvl = property(lambda s: level_of((s.c, s.a, s.b)))

    def subst_(self, m, memo):
        return vite(subst(self.c, m), subst(self.a, m), subst(self.b, m))

    def same_(self, o):
        return self.c == o.c and same(self.a, o.a) and same(self.b, o.b)

    def __repr__(self):
        return "(%s ? %r : %r)" % (self.c, self.a, self.b)


class Ref:
    """lvalue designator"""

    __slots__ = ("loc", "path")

    def __init__(self, loc, path=()):
        self.loc, self.path = loc, tuple(path)

    free = property(lambda s: free_of(s.path))
    lvl = property(lambda s: level_of(s.path))

    def subst_(self, m, memo):
        return Ref(self.loc, subst(self.path, m, memo))

    def __repr__(self):
        return "*%s%r" % (self.loc, self.path)


class Lam:
    def __init__(self, node, caps, this=None):
        self.node, self.caps, self.this = node, caps, this

    free = frozenset()
    lvl = 0

    def subst_(self, m, memo):
        return Lam(self.node, {k: subst(v, m, memo) for k, v in self.caps.items()}, self.this)


# --------------------------------------------------------------------------------------------------------------- sequences
class Items:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = tuple(v)

    def len(self):
        return num(len(self.v))

    def subst_(self, m, memo):
        return Items([subst(x, m, memo) for x in self.v])


class Fun:
    __slots__ = ("n", "cell")

    def __init__(self, n, cell):
        self.n, self.cell = num(n), cell

    def len(self):
        return self.n

    def subst_(self, m, memo):
        c = self.cell
        m = dict(m)
        return Fun(subst(self.n, m), lambda k: subst_in(c, (k,), m))


class Gen:
    __slots__ = ("n", "f")

    def __init__(self, n, f):
        self.n, self.f = num(n), f

    def len(self):
        return summ(self.n, lambda t: self.f(t).length())

    def subst_(self, m, memo):
        c = self.f
        m = dict(m)
        return Gen(subst(self.n, m), lambda k: subst_in(c, (k,), m))


class If:
    __slots__ = ("c", "s")

    def __init__(self, c, s):
        self.c, self.s = c, s

    def len(self):
        return ite(self.c, self.s.length(), ZERO)

    def subst_(self, m, memo):
        c = subst(self.c, m)
        return If(c, subst(self.s, m, memo))


class PHSeg:
    """placeholder for the unknown prefix of a sequence during loop analysis"""

    __slots__ = ("name", "n", "cell")

    def __init__(self, name, n, cell):
        self.name, self.n, self.cell = name, n, cell

    def len(self):
        return self.n

    def subst_(self, m, memo):
        return PHSeg(self.name, subst(self.n, m), (lambda c, m: lambda k: subst_in(c, (k,), m))(self.cell, dict(m)))


class Seq:
    __slots__ = ("segs", "ety")

    def __init__(self, segs=(), ety=None):
        out = []
        for s in segs:
            if isinstance(s, Items):
                if not s.v:
                    continue
                if out and isinstance(out[-1], Items):
                    out[-1] = Items(out[-1].v + s.v)
                    continue
            elif isinstance(s, If):
                if s.c == FALSE or not s.s.segs:
                    continue
                if s.c == TRUE:
                    out += list(s.s.segs)
                    continue
            elif isinstance(s, (Fun, Gen)):
                c = s.n.const()
                if c is not None and c <= 0:
                    continue
                if c is not None and c <= 16:
                    if isinstance(s, Fun):
                        it = Items([s.cell(num(i)) for i in range(int(c))])
                        if out and isinstance(out[-1], Items):
                            out[-1] = Items(out[-1].v + it.v)
                        else:
                            out.append(it)
                    else:
                        for i in range(int(c)):
                            out += list(s.f(num(i)).segs)
                    continue
                if isinstance(s, Gen):
                    b = s.f(fresh("idx"))
                    if not b.segs:
                        continue
                    if len(b.segs) == 1 and isinstance(b.segs[0], Items) and len(b.segs[0].v) == 1:
                        out.append(Fun(s.n, (lambda g: lambda k: g(k).segs[0].v[0])(s.f)))
                        continue
            out.append(s)
        self.segs = tuple(out)
        self.ety = ety

    def length(self):
        return sum_(s.len() for s in self.segs)

    @property
    def free(self):
        r = frozenset()
        for s in self.segs:
            if isinstance(s, Items):
                r |= frozenset(free_of(s.v))
            elif isinstance(s, Fun):
                r |= frozenset(free_of((s.n, s.cell(var("idx:?p", "I")))))
            elif isinstance(s, Gen):
                r |= frozenset(free_of((s.n, s.f(var("idx:?p", "I")))))
            elif isinstance(s, PHSeg):
                r |= frozenset(free_of((s.n, s.cell(var("idx:?p", "I")))))
            elif isinstance(s, If):
                r |= s.c.free | s.s.free
        return r

    @property
    def lvl(self):
        r = 0
        for s in self.segs:
            if isinstance(s, Items):
                r = max(r, level_of(s.v))
            elif isinstance(s, Fun):
                r = max(r, level_of((s.n, s.cell(var("idx:?p", "I")))))
            elif isinstance(s, Gen):
                r = max(r, level_of((s.n, s.f(var("idx:?p", "I")))))
            elif isinstance(s, If):
                r = max(r, s.c.lvl, s.s.lvl)
        return r

    def subst_(self, m, memo):
        return Seq([s.subst_(m, memo) for s in self.segs], self.ety)

    def append(self, v):
        return Seq(self.segs + (Items([v]),), self.ety)

    def concat(self, o):
        return Seq(self.segs + o.segs, self.ety)

    def at(self, k):
        k = num(k)
        c = k.const()
        if not self.segs:
            raise Unsupported("element of an empty sequence")
        off = ZERO
        res = []
        for i, s in enumerate(self.segs):
            n = s.len()
            last = i == len(self.segs) - 1
            rel = k - off
            cr = rel.const()
            cn = n.const()
            if cr is not None and cr < 0:
                raise Unsupported("negative index")
            if cr is not None and cn is not None and cr >= cn and not last:
                off = off + n
                continue
            inside = TRUE if last else lt(rel, n)
            if inside == FALSE:
                off = off + n
                continue
            res.append((inside, self._seg_at(s, rel)))
            if inside == TRUE:
                break
            off = off + n
        v = res[-1][1]
        for c, x in reversed(res[:-1]):
            v = vite(c, x, v)
        return v

    def _seg_at(self, s, rel):
        if isinstance(s, Items):
            c = rel.const()
            if c is not None:
                if not (0 <= c < len(s.v)):
                    raise Unsupported("index %s out of range %d" % (c, len(s.v)))
                return s.v[int(c)]
            v = s.v[-1]
            for i in range(len(s.v) - 2, -1, -1):
                v = vite(eq(rel, i), s.v[i], v)
            return v
        if isinstance(s, (Fun, PHSeg)):
            return s.cell(rel)
        if isinstance(s, Gen):
            L = s.f(fresh("idx")).length().const()
            if L is not None and L > 0:
                L = int(L)
                q, r = divmod_(rel, L)
                return s.f(q).at(r)
            return gen_at(s, rel)
        if isinstance(s, If):
            return s.s.at(rel)
        raise Unsupported("seq at")

    def set(self, k, v):
        k = num(k)
        old = self
        c = k.const()
        if c is not None and all(isinstance(s, Items) for s in self.segs):
            l = list(self.segs[0].v)
            if not (0 <= c < len(l)):
                raise Unsupported("write out of range")
            l[int(c)] = v
            return Seq([Items(l)], self.ety)
        off = ZERO
        for i, s in enumerate(self.segs):
            if not isinstance(s, (Items, Fun, PHSeg)):
                break
            r = (k - off).const()
            if isinstance(s, Items) and r is not None and 0 <= r < len(s.v):
                l = list(s.v)
                l[int(r)] = v
                return Seq(self.segs[:i] + (Items(l),) + self.segs[i + 1 :], self.ety)
            off = off + s.len()
        return Seq([Fun(self.length(), lambda j: vite(eq(j, k), v, old.at(j)))], self.ety)

    def __repr__(self):
        out = []
        for s in self.segs:
            if isinstance(s, Items):
                out.append("%r" % (list(s.v),))
            elif isinstance(s, Fun):
                v = fresh("idx")
                out.append("{%r | %s<%s}" % (s.cell(v), show(v), show(s.n)))
            elif isinstance(s, Gen):
                v = fresh("idx")
                out.append("gen{%r | %s<%s}" % (s.f(v), show(v), show(s.n)))
            elif isinstance(s, If):
                out.append("if %s: %r" % (show(s.c), s.s))
            else:
                out.append(s.name)
        return "Seq(" + " ++ ".join(out) + ")"


# ------------------------------------------------------------------------------ elements of non-uniform generated sequences
# The k-th element of  gen_i gen_j ... [if c(i, j): item(i, j)]  is item(p0(k), p1(k)) where the position functions p0, p1
# depend on the extents and the conditions only: two sequences generated by the same loops share them.
GP = {}


def gen_form(s, depth=0):
    """(binder atoms, extents, condition, item) of a generator whose innermost body holds at most one item"""
    k = var("idx:?g%d" % depth, "I")
    b = s.f(k)
    if len(b.segs) != 1:
        raise Unsupported("element of a sequence generated in several pieces")
    g = b.segs[0]
    ks, ns, cond = [k], [s.n], TRUE
    while isinstance(g, If):
        cond = band(cond, g.c)
        if len(g.s.segs) != 1:
            raise Unsupported("element of a sequence generated in several pieces")
        g = g.s.segs[0]
    if isinstance(g, Items) and len(g.v) == 1:
        return ks, ns, cond, g.v[0]
    if isinstance(g, Fun):
        c = g.cell
        g = Gen(g.n, lambda j: Seq([Items([c(j)])]))
    if isinstance(g, Gen):
        ks2, ns2, c2, it = gen_form(g, depth + 1)
        return ks + ks2, ns + ns2, band(cond, c2), it
    raise Unsupported("element of a sequence of non-uniform generators")


def gen_at(s, rel):
    ks, ns, cond, item = gen_form(s)
    if cond == TRUE and len(ks) == 2 and the_atom(ks[0]) not in free_of(ns[1]):
        # rectangular: row and column of the position
        row = T.idiv(rel, ns[1])
        return subst(item, {the_atom(ks[0]): row, the_atom(ks[1]): rel - ns[1] * row})
    shape = (tuple(ns), cond)
    bound = set(the_atom(k) for k in ks)
    fr = sorted((a for a in free_of(shape) if a not in bound and a.kind == "var" and a.sort == "I" and a.args[0].startswith("idx:")), key=show_atom)
    if any(show_atom(a).startswith("ph") for a in free_of(shape)):
        raise Unsupported("element of a sequence whose extent changes in the loop")
    canon = {a: var("idx:?h%d" % i, "I") for i, a in enumerate(fr)}
    cs = (tuple(subst(n, canon) for n in ns), subst(cond, canon))
    name = "gpos%08x" % (int(hashlib.md5(repr((tuple(show(n) for n in cs[0]), show(cs[1]))).encode()).hexdigest()[:8], 16))
    GP[name] = ([the_atom(k) for k in ks], cs, [var("idx:?h%d" % i, "I") for i in range(len(fr))])
    args = (rel,) + tuple(E_of(a) for a in fr)
    for d in range(len(ks)):
        T._num_hooks.setdefault("%s.%d" % (name, d), (lambda d: lambda m, a: gpos_num(m, name, d, a))(d))
    pos = [app("%s.%d" % (name, d), args, "I") for d in range(len(ks))]
    return subst(item, {the_atom(k): p for k, p in zip(ks, pos)})


def filtered(n, pa, body):
    """a sum or quantifier over the positions of a filtered sequence is one over its generator: position k < length is the k-th index
    (tuple) that satisfies the condition, each exactly once"""
    if not GP:
        return None
    hits, seen = {}, set()

    def walk(x):
        if isinstance(x, (E, B, Atom)):
            if pa not in x.free or x in seen:
                return
            seen.add(x)
        if isinstance(x, E):
            for m, c in x.t:
                for a, e in m:
                    walk(a)
        elif isinstance(x, B):
            for y in x.a:
                walk(y)
        elif isinstance(x, Atom):
            if x.kind == "app" and x.args[0].split(".")[0] in GP and the_atom(x.args[1][0]) is pa:
                hits.setdefault((x.args[0].split(".")[0], x.args[1][1:]), []).append(x)
                return
            for y in x.args:
                walk(y)
        elif isinstance(x, (tuple, list)):
            for y in x:
                walk(y)
        elif isinstance(x, W):
            for a, s in x.w:
                walk(a)
        elif isinstance(x, Str):
            walk(x.p)

    walk(body)
    if len(hits) != 1:
        return None
    ((name, hargs), apps), = hits.items()
    ks0, (ns, cond), hs = GP[name]
    ks = [var("idx:?f%d_%d" % (T._nest[0], i), "I") for i in range(len(ks0))]
    m = {a: k for a, k in zip(ks0, ks)}
    m.update({the_atom(h): a for h, a in zip(hs, hargs)})
    ns, cond = [subst(x, m) for x in ns], subst(cond, m)
    ka = [the_atom(k) for k in ks]
    T._nest[0] += 1
    try:
        L = T.nest(summ, ka, ns, ite(cond, ONE, ZERO))
        if L != n:
            return None
        b2 = subst(body, {a: ks[int(a.args[0].split(".")[1])] for a in apps})
        if pa in b2.free:
            return None
        return ka, ns, cond, b2
    finally:
        T._nest[0] -= 1


T.FILTERED.append(filtered)


def E_of(a):
    return var(a.args[0], a.sort)


def gpos_num(m, name, d, args):
    """numeric position: enumerate the generator"""
    ks, (ns, cond), hs = GP[name]
    want = int(m.e(args[0]))
    base = {the_atom(h): num(int(m.e(a))) for h, a in zip(hs, args[1:])}

    def rec(i, sub):
        if i == len(ks):
            if m.b(subst(cond, sub)):
                yield sub
            return
        for v in range(int(m.e(subst(ns[i], sub)))):
            s2 = dict(sub)
            s2[ks[i]] = num(v)
            yield from rec(i + 1, s2)

    for j, sub in enumerate(rec(0, base)):
        if j == want:
            return int(sub[ks[d]].const())
    raise EvalFail("position out of range")


def divmod_(k, L):
    c = k.const()
    if L == 1:
        return k, ZERO
    if c is not None:
        return num(int(c) // L), num(int(c) % L)
    # split multiples of L
    q = ZERO
    rest = ZERO
    for m, cf in k.t:
        if cf.denominator == 1 and cf.numerator % L == 0:
            q = q + E(((m, cf / L),)) if m else q + num(cf / L)
        else:
            rest = rest + (E(((m, cf),)) if m else num(cf))
    rc = rest.const()
    if rc is not None:
        return q + num(int(rc) // L), num(int(rc) % L)
    return q + app("idiv", (rest, num(L)), "I"), app("imod", (rest, num(L)), "I")


# ------------------------------------------------------------------------------------------------------- value level merging
class CannotMerge(Unsupported):
    pass


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (E, B, Str, Ptr, W)):
        return a == b
    if isinstance(a, Mat):
        return (a.r, a.c) == (b.r, b.c) and a.e == b.e
    if isinstance(a, Iso):
        return a.w == b.w
    if isinstance(a, Struct):
        return a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Arr):
        return len(a.v) == len(b.v) and all(same(x, y) for x, y in zip(a.v, b.v))
    if isinstance(a, (Null, Undef)):
        return True
    if isinstance(a, Quat):
        return a.w == b.w and a.c == b.c
    if isinstance(a, AA):
        return a.angle == b.angle and a.axis.e == b.axis.e
    if isinstance(a, Ref):
        return a.loc == b.loc and a.path == b.path
    if isinstance(a, Seq):
        return seq_same(a, b)
    if isinstance(a, DMat):
        if a.r != b.r or a.c != b.c:
            return False
        if a.cell is b.cell:
            return True
        i, j = var("idx:?si", "I"), var("idx:?sj", "I")
        return a.cell(i, j) == b.cell(i, j)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if hasattr(a, "same_"):
        return a.same_(b)
    return False


def seq_same(a, b):
    if len(a.segs) != len(b.segs):
        return False
    for s, t in zip(a.segs, b.segs):
        if type(s) is not type(t):
            return False
        if s is t:
            continue
        if isinstance(s, Items):
            if len(s.v) != len(t.v) or not all(same(x, y) for x, y in zip(s.v, t.v)):
                return False
        elif isinstance(s, Fun):
            if s.n != t.n:
                return False
            if s.cell is not t.cell:
                v = fresh("idx")
                if not same(s.cell(v), t.cell(v)):
                    return False
        elif isinstance(s, Gen):
            if s.n != t.n:
                return False
            if s.f is not t.f:
                v = fresh("idx")
                if not same(s.f(v), t.f(v)):
                    return False
        elif isinstance(s, If):
            if s.c != t.c or not seq_same(s.s, t.s):
                return False
        elif isinstance(s, PHSeg):
            if s.name != t.name:
                return False
    return True


KNOWN = []  # facts under which a conditional value is being built (an index is below the length of its sequence)


def vite(c, a, b):
    if KNOWN and c != TRUE and c != FALSE:
        if c.k == "and":
            c = band(*[x for x in c.a if x not in KNOWN])
        elif c in KNOWN:
            c = TRUE
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a is b or same(a, b):
        return a
    if isinstance(a, Undef):
        return b  # an uninitialised alternative may take any value
    if isinstance(b, Undef):
        return a
    if isinstance(a, Havoc):
        return a
    if isinstance(b, Havoc):
        return b
    if isinstance(a, (E, B)) and isinstance(b, (E, B)):
        return ite(c, a, b)
    if isinstance(a, Str) and isinstance(b, Str):
        return str_ite(c, a, b)
    if isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) == (b.r, b.c):
        return Mat(a.r, a.c, [ite(c, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, (Mat, DMat)) and isinstance(b, (Mat, DMat)):
        a, b = to_dmat(a), to_dmat(b)
        return DMat(ite(c, a.r, b.r), ite(c, a.c, b.c), lambda i, j: ite(c, a.cell(i, j), b.cell(i, j)))
    if isinstance(a, Struct) and isinstance(b, Struct) and a.f.keys() == b.f.keys():
        return Struct(a.ty, {k: vite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.v) == len(b.v):
        return Arr([vite(c, x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, Iso) and isinstance(b, Iso):
        # common prefix is kept
        i = 0
        while i < len(a.w) and i < len(b.w) and a.w[i] == b.w[i]:
            i += 1
        ra, rb = Iso(a.w[i:]), Iso(b.w[i:])
        return Iso(a.w[:i]) * Iso([(IteP(c, ra, rb), 1)])
    if isinstance(a, Seq) and isinstance(b, Seq):
        i = 0
        while i < len(a.segs) and i < len(b.segs) and seq_same(Seq(a.segs[i : i + 1]), Seq(b.segs[i : i + 1])):
            i += 1
        ra, rb = a.segs[i:], b.segs[i:]
        if len(ra) == 1 and len(rb) == 1 and callable(getattr(ra[0], "cell", None)) and callable(getattr(rb[0], "cell", None)) and num(ra[0].n) == num(rb[0].n):
            fa, fb = ra[0].cell, rb[0].cell
            try:
                p = fresh("idx")
                vite(c, fa(p), fb(p))
                return Seq(a.segs[:i] + (Fun(ra[0].n, lambda k: vite(c, fa(k), fb(k))),), a.ety)
            except CannotMerge:
                pass
        return Seq(a.segs[:i] + (If(c, Seq(ra)), If(bnot(c), Seq(rb))), a.ety)
    if isinstance(a, Quat) and isinstance(b, Quat):
        return Quat(None, tuple(ite(c, x, y) for x, y in zip(a.coeffs(), b.coeffs())))
    if isinstance(a, (Ptr, Null, Cond)) and isinstance(b, (Ptr, Null, Cond)) or hasattr(a, "phval") or hasattr(b, "phval"):
        return Cond(c, a, b)
    if isinstance(a, AA) and isinstance(b, AA):
        return AA(ite(c, a.angle, b.angle), vite(c, a.axis, b.axis))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if hasattr(a, "vite_"):
        return a.vite_(c, b)
    raise CannotMerge("merge of %s and %s" % (type(a).__name__, type(b).__name__))
