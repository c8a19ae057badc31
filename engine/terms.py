"""Terms: real/integer scalars kept in a canonical polynomial normal form, booleans, and their numeric evaluation.

A scalar is a polynomial over interned atoms with rational coefficients (exponents may be negative: 1/x is x^-1).
Machine doubles are treated as mathematical reals (stated in the evidence as an assumption); literals keep the exact
value of the double the compiler uses.
"""
from fractions import Fraction
import hashlib, math

F0, F1 = Fraction(0), Fraction(1)


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "args", "sort", "free", "lvl", "loose")

    def __repr__(self):
        return show_atom(self)


_atoms = {}


def atom(kind, args, sort="R"):
    key = (kind, args, sort)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = len(_atoms)
        a.kind = kind
        a.args = args
        a.sort = sort
        fr = set()
        lvl = 0
        if kind == "var":
            fr.add(a)
        for x in args:
            f = free_of(x)
            fr |= f
            lvl = max(lvl, level_of(x))
        if kind == "bv":
            lvl = args[0] + 1
        elif kind == "sum":
            # args: n, level, body
            fr = set(free_of(args[0])) | set(free_of(args[2]))
        a.free = frozenset(fr)
        a.lvl = lvl
        if kind == "bv":
            a.loose = frozenset((args[0],))
        elif kind == "sum":
            a.loose = loose_of(args[0]) | (loose_of(args[2]) - {args[1]})
        else:
            a.loose = NOLOOSE if lvl == 0 else loose_of(args)
        _atoms[key] = a
    return a


def free_of(x):
    if isinstance(x, (E, B, Atom)):
        return x.free
    if isinstance(x, tuple):
        s = set()
        for y in x:
            s |= free_of(y)
        return s
    return getattr(x, "free", frozenset())


NOLOOSE = frozenset()


def loose_of(x):
    """the levels of the bound variables that x leaves unbound"""
    if isinstance(x, (E, B, Atom)):
        return x.loose
    if isinstance(x, tuple):
        s = NOLOOSE
        for y in x:
            s |= loose_of(y)
        return s
    if getattr(x, "lvl", 0) == 0:
        return NOLOOSE
    w = getattr(x, "w", None)
    if w is not None:
        s = NOLOOSE
        for a, _ in w:
            s |= a.loose
        return s
    return frozenset(range(x.lvl))


def level_of(x):
    if isinstance(x, (E, B, Atom)):
        return x.lvl
    if isinstance(x, tuple):
        return max([level_of(y) for y in x], default=0)
    return getattr(x, "lvl", 0)


# ---------------------------------------------------------------------------------------------------------- polynomials
class E:
    """immutable polynomial; .t : tuple of (mono, coef) sorted; mono: tuple of (atom id order) (Atom, exp)"""

    __slots__ = ("t", "_h", "free", "lvl", "isint", "loose")

    def __init__(self, t):
        self.t = t
        self._h = hash(t)
        fr = set()
        lvl = 0
        isint = True
        for m, c in t:
            if c.denominator != 1:
                isint = False
            for a, e in m:
                fr |= a.free
                lvl = max(lvl, a.lvl)
                if a.sort != "I" or e < 0:
                    isint = False
        self.free = frozenset(fr)
        self.lvl = lvl
        self.loose = NOLOOSE if lvl == 0 else frozenset().union(*[a.loose for m, c in t for a, e in m])
        self.isint = isint

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, E) and self._h == o._h and self.t == o.t)

    def __add__(self, o):
        return add(self, num(o))

    __radd__ = __add__

    def __sub__(self, o):
        return add(self, scale(num(o), -F1))

    def __rsub__(self, o):
        return add(num(o), scale(self, -F1))

    def __neg__(self):
        return scale(self, -F1)

    def __mul__(self, o):
        return mul(self, num(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, num(o))

    def __rtruediv__(self, o):
        return div(num(o), self)

    def const(self):
        if not self.t:
            return F0
        if len(self.t) == 1 and not self.t[0][0]:
            return self.t[0][1]
        return None

    def __repr__(self):
        return show(self)


def _mk(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda x: tuple((a.id, e) for a, e in x[0]))
    return E(tuple(items))


def num(x):
    if isinstance(x, E):
        return x
    if isinstance(x, bool):
        return _mk({(): Fraction(int(x))})
    if isinstance(x, (int, Fraction)):
        return _mk({(): Fraction(x)})
    if isinstance(x, float):
        return _mk({(): Fraction(x)})
    if isinstance(x, B):
        return ite(x, ONE, ZERO)
    raise Unsupported("not a number: %r" % (x,))


def of_atom(a, e=1):
    return E((((((a, e),)), F1),))


def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    d = dict(a.t)
    for m, c in b.t:
        d[m] = d.get(m, F0) + c
    return _mk(d)


def scale(a, k):
    if k == 0:
        return ZERO
    return E(tuple((m, c * k) for m, c in a.t))


MAXTERMS = 20000


def _mono_mul(m1, m2):
    """returns (mono, extra) where extra is None or a polynomial factor coming from sqrt/abs powers"""
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    extra = None
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
            continue
        if a.kind == "sqrt" and abs(e) >= 2:
            k = e // 2 if e > 0 else -((-e) // 2)
            r = e - 2 * k
            if r:
                d[a] = r
            else:
                del d[a]
            f = power(a.args[0], k)
            extra = f if extra is None else mul(extra, f)
        elif a.kind == "abs" and abs(e) >= 2:
            k = e // 2 if e > 0 else -((-e) // 2)
            r = e - 2 * k
            if r:
                d[a] = r
            else:
                del d[a]
            f = power(mul(a.args[0], a.args[0]), k)
            extra = f if extra is None else mul(extra, f)
        elif a.kind == "inv" and e < 0:
            del d[a]
            f = power(a.args[0], -e)
            extra = f if extra is None else mul(extra, f)
    m = tuple(sorted(d.items(), key=lambda x: x[0].id))
    return m, extra


def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    ca, cb = a.const(), b.const()
    if ca is not None:
        return scale(b, ca)
    if cb is not None:
        return scale(a, cb)
    if len(a.t) * len(b.t) > MAXTERMS:
        raise Unsupported("polynomial too large")
    # (p) * inv(p) = 1
    for x, y in ((a, b), (b, a)):
        if len(y.t) == 1:
            m, c = y.t[0]
            for at, e in m:
                if at.kind == "inv" and len(x.t) > 1:
                    k = proportional(x, at.args[0])
                    if k is not None:
                        rest = tuple((q, f - 1 if q is at else f) for q, f in m if not (q is at and f == 1))
                        return E(((rest, c * k),)) if rest else num(c * k)
    d = {}
    extras = []
    for m1, c1 in a.t:
        for m2, c2 in b.t:
            m, ex = _mono_mul(m1, m2)
            if ex is None:
                d[m] = d.get(m, F0) + c1 * c2
            else:
                extras.append(mul(E(((m, c1 * c2),)) if m else num(c1 * c2), ex))
    r = _mk(d)
    for x in extras:
        r = add(r, x)
    return r


def proportional(p, q):
    if len(p.t) != len(q.t):
        return None
    k = p.t[0][1] / q.t[0][1]
    for (m1, c1), (m2, c2) in zip(p.t, q.t):
        if m1 != m2 or c1 != k * c2:
            return None
    return k


def power(a, k):
    if k == 0:
        return ONE
    if k < 0:
        return div(ONE, power(a, -k))
    r = a
    for _ in range(k - 1):
        r = mul(r, a)
    return r


def inv(b):
    c = b.const()
    if c is not None:
        if c == 0:
            return of_atom(atom("divzero", ()))
        return num(F1 / c)
    if len(b.t) == 1:
        m, c = b.t[0]
        # sqrt^-1 is kept; inv^-1 becomes the polynomial
        r = num(F1 / c)
        out = []
        for a, e in m:
            if a.kind == "inv":
                r = mul(r, power(a.args[0], e))
            else:
                out.append((a, -e))
        if out:
            r = mul(r, E(((tuple(out), F1),)))
        return r
    # common monomial content is pulled out, then the leading coefficient is normalised
    common = None
    for m, c in b.t:
        d = dict(m)
        common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d and e > 0 and d[a] > 0}
    if common:
        cm = tuple(sorted(common.items(), key=lambda x: x[0].id))
        if all(e > 0 for _, e in cm):
            icm = E(((tuple((a, -e) for a, e in cm), F1),))
            return mul(icm, inv(mul(b, icm)))
    k = b.t[-1][1]
    nb = scale(b, F1 / k)
    return scale(of_atom(atom("inv", (nb,))), F1 / k)


def div(a, b):
    if not a.t and b.t:
        return ZERO
    k = proportional(a, b) if len(a.t) == len(b.t) and a.t else None
    if k is not None:
        return num(k)
    return mul(a, inv(b))


ZERO = E(())
ONE = E((((), F1),))


def var(name, sort="R"):
    return of_atom(atom("var", (name,), sort))


def app(fn, args, sort="R"):
    return of_atom(atom("app", (fn, tuple(args)), sort))


def bv(level):
    return of_atom(atom("bv", (level,), "I"))


def sqrt(p):
    c = p.const()
    if c is not None and c >= 0:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return num(Fraction(n, d))
    if len(p.t) == 1:
        m, c = p.t[0]
        if m and c > 0 and all(e % 2 == 0 for _, e in m):
            r = ONE
            for a, e in m:
                r = mul(r, eabs(power(of_atom(a), abs(e) // 2)) if e > 0 else inv(eabs(power(of_atom(a), abs(e) // 2))))
            return mul(sqrt(num(c)), r)
    return of_atom(atom("sqrt", (p,)))


def nonneg(p):
    """syntactically non-negative"""
    for m, c in p.t:
        if c < 0:
            return False
        for a, e in m:
            if e % 2 == 0:
                continue
            if a.kind in ("sqrt", "abs"):
                continue
            if a.kind == "app" and a.sort == "I" and isinstance(a.args[0], str) and a.args[0].startswith("len:"):
                continue
            if a.kind == "var" and a.sort == "I" and a.args[0].startswith(("len:", "idx:")):
                continue
            if a.kind == "inv" and nonneg(a.args[0]):
                continue
            if a.kind == "bv":
                continue
            if a.kind == "sum" and nonneg(a.args[-1]):
                continue
            if a.kind == "ite" and nonneg(a.args[1]) and nonneg(a.args[2]):
                continue
            return False
    return True


def eabs(p):
    c = p.const()
    if c is not None:
        return num(abs(c))
    if nonneg(p):
        return p
    if p.t[-1][1] < 0:
        p = -p
        if nonneg(p):
            return p
    if len(p.t) == 1:
        m, c = p.t[0]
        if len(m) > 1 or abs(c) != 1 or m[0][1] != 1:
            r = num(abs(c))
            for a, e in m:
                x = of_atom(a)
                ax = x if nonneg(x) else of_atom(atom("abs", (x,)))
                r = mul(r, power(ax, e))
            return r
    return of_atom(atom("abs", (p,)))


# ------------------------------------------------------------------------------------------------------------- booleans
class B:
    __slots__ = ("k", "a", "_h", "free", "lvl", "loose")

    def __init__(self, k, a):
        self.k = k
        self.a = a
        self._h = hash((k, a))
        self.free = frozenset(free_of(a) if isinstance(a, tuple) else ())
        self.lvl = level_of(a)
        if self.lvl == 0:
            self.loose = NOLOOSE
        elif k == "ex":
            self.loose = loose_of(a[0]) | (loose_of(a[2]) - {a[1]})
        else:
            self.loose = loose_of(a)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, B) and self._h == o._h and self.k == o.k and self.a == o.a)

    def __repr__(self):
        return show(self)


TRUE = B("c", (True,))
FALSE = B("c", (False,))


def bconst(b):
    return TRUE if b else FALSE


def _normscale(p):
    """divide by a positive constant so that the leading coefficient is +-1 (reals) or primitive (ints)"""
    k = abs(p.t[-1][1])
    if p.isint:
        from math import gcd

        g = 0
        for m, c in p.t:
            if m:
                g = gcd(g, abs(c.numerator))
        return p if g <= 1 else None
    return scale(p, F1 / k)


def le0(p):
    c = p.const()
    if c is not None:
        return bconst(c <= 0)
    if nonneg(-p):
        return TRUE
    if p.isint:
        # divide by gcd of the non constant coefficients, tighten
        from math import gcd

        g = 0
        k0 = F0
        for m, c in p.t:
            if m:
                g = gcd(g, abs(c.numerator))
            else:
                k0 = c
        if g > 1:
            rest = scale(p - num(k0), Fraction(1, g))
            # rest*g + k0 <= 0  <=> rest <= floor(-k0/g)
            p = rest - num((-k0.numerator) // g)
        d = dict(p.t)
        k0 = d.get((), F0)
        # c + 1 <= 0 where all other terms are non-negative
        if k0 > 0 and nonneg(p):
            return FALSE
        sm = count_atom(p)
        if sm is not None and sm[1] == -1 and k0 == 1:
            return bnot(eq0(of_atom(sm[0])))
        if sm is not None and sm[1] == 1 and k0 == 0:
            return eq0(of_atom(sm[0]))
        m = _none_distinct(p, k0)
        if m is not None:
            return m
        return B("le", (p,))
    return B("le", (scale(p, F1 / abs(p.t[-1][1])),))


def _none_distinct(p, k0):
    """there are no different values iff there are no values"""
    if len(p.t) == 1 + (k0 != 0):
        mono, c = [x for x in p.t if x[0]][0]
        a = mono[0][0]
        if len(mono) == 1 and mono[0][1] == 1 and a.kind == "app" and a.args[0] == "len:distinct":
            if (c, k0) == (-1, 1):
                return bnot(eq0(a.args[1][0]))
            if (c, k0) == (1, 0):
                return eq0(a.args[1][0])


def lt0(p):
    c = p.const()
    if c is not None:
        return bconst(c < 0)
    if p.isint:
        return le0(p + 1)
    if nonneg(p):
        return FALSE
    return B("lt", (scale(p, F1 / abs(p.t[-1][1])),))


def eq0(p):
    c = p.const()
    if c is not None:
        return bconst(c == 0)
    if p.isint:
        from math import gcd

        g, kc = 0, F0
        for m, c in p.t:
            if m:
                g = gcd(g, abs(c.numerator))
            else:
                kc = c
        if g > 1 and kc.numerator % g:
            return FALSE
        if not kc and len(p.t) == 1:
            z = _none_distinct(scale(p, F1 / p.t[0][1]), F0)
            if z is not None:
                return z
    k = p.t[-1][1]
    q = scale(p, F1 / k)
    if len(p.t) <= 2:
        a = the_atom(scale(_mk({m: c for m, c in p.t if m}), F1)) if len([1 for m, c in p.t if m]) == 1 else None
        if a is None and len([1 for m, c in p.t if m]) == 1:
            mm, cc = [(m, c) for m, c in p.t if m][0]
            if len(mm) == 1 and mm[0][1] == 1:
                a = mm[0][0]
        if a is not None and a.kind == "ite" and a.args[1].const() is not None and a.args[2].const() is not None:
            cc = [c for m, c in p.t if m][0]
            kk = dict(p.t).get((), F0)
            f = lambda x: eq0(num(cc * x.const() + kk))
            return ite(a.args[0], f(a.args[1]), f(a.args[2]))
    d = dict(p.t)
    k0 = d.get((), F0)
    if k0 > 0 and nonneg(p) or k0 < 0 and nonneg(-p):
        return FALSE
    sm = count_atom(p)
    if sm is not None and not k0:
        # a sum of non-negative terms is zero iff every term is
        n, lvl, body = sm[0].args
        z = bnot(eq0(body))
        return TRUE if z == FALSE else bnot(B("ex", (n, lvl, z)))
    return B("eq", (q,))


def count_atom(p):
    """(sum atom, coefficient) if p = k0 + coefficient * (a sum of non-negative integer terms), else None"""
    ms = [(m, c) for m, c in p.t if m]
    if len(ms) == 1 and len(ms[0][0]) == 1:
        a, e = ms[0][0][0]
        if e == 1 and a.kind == "sum" and a.sort == "I" and nonneg(a.args[2]):
            return a, ms[0][1]
    return None


def le(a, b):
    return le0(num(a) - num(b))


def lt(a, b):
    return lt0(num(a) - num(b))


def eq(a, b):
    return eq0(num(a) - num(b))


def pred(name, *args):
    return B("p", (name,) + tuple(args))


def bnot(b):
    if b is TRUE or b == TRUE:
        return FALSE
    if b == FALSE:
        return TRUE
    if b.k == "le":
        return lt0(-b.a[0])
    if b.k == "lt":
        return le0(-b.a[0])
    if b.k == "not":
        return b.a[0]
    if b.k == "and":
        return bor(*[bnot(x) for x in b.a])
    if b.k == "or":
        return band(*[bnot(x) for x in b.a])
    return B("not", (b,))


def _bkey(b):
    return show(b)


def band(*bs):
    out = []
    for b in bs:
        if b == TRUE:
            continue
        if b == FALSE:
            return FALSE
        if b.k == "and":
            out += [x for x in b.a if x not in out]
        elif b not in out:
            out.append(b)
    for b in out:
        if bnot(b) in out:
            return FALSE
        if b.k == "le" and len(out) > 1 and B("le", (-b.a[0],)) in out:
            # p <= 0 and -p <= 0
            rest = [x for x in out if x != b and x != B("le", (-b.a[0],))]
            return band(eq0(b.a[0]), *rest)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=_bkey)
    return B("and", tuple(out))


def bor(*bs):
    out = []
    for b in bs:
        if b == FALSE:
            continue
        if b == TRUE:
            return TRUE
        if b.k == "or":
            out += [x for x in b.a if x not in out]
        elif b not in out:
            out.append(b)
    for b in out:
        if bnot(b) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=_bkey)
    return B("or", tuple(out))


def implies(a, b):
    return bor(bnot(a), b)


def ite(c, a, b):
    """scalar or boolean if-then-else"""
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if isinstance(a, B) or isinstance(b, B):
        a = a if isinstance(a, B) else bnot(eq(a, 0))
        b = b if isinstance(b, B) else bnot(eq(b, 0))
        if a == b:
            return a
        return bor(band(c, a), band(bnot(c), b))
    a, b = _branch(num(a), c, 1), _branch(num(b), c, 2)
    if a == b:
        return a
    if c.k == "eq":
        sv = solve_idx(c.a[0])
        if sv is not None:
            v, e = sv
            if v in a.free or v in b.free:
                m = {v: e}
                sa = subst(a, m)
                if sa == subst(b, m):
                    return b
                a = sa
    # common terms are pulled out
    db = dict(b.t)
    com = [(m, k) for m, k in a.t if db.get(m) == k]
    if com:
        p = _mk(dict(com))
        return p + ite(c, a - p, b - p)
    if c.k in ("not",) or (c.k in ("le", "lt") and c.a[0].t[-1][1] < 0) or c.k == "or":
        n = bnot(c)
        if n.k != "or":
            c, a, b = n, b, a
    # if x == e then a else b : substitute x:=e in neither (kept syntactic)
    sort = "I" if a.isint and b.isint else "R"
    return of_atom(atom("ite", (c, a, b), sort))


def _branch(x, c, k):
    """x under the condition c (k=1) or its negation (k=2), where x is itself a choice on c"""
    while len(x.t) == 1 and x.t[0][1] == 1 and len(x.t[0][0]) == 1 and x.t[0][0][0][1] == 1:
        a = x.t[0][0][0][0]
        if a.kind != "ite" or a.args[0] != c:
            break
        x = a.args[k]
    return x


def solve_idx(p):
    """p == 0 solved for the youngest index variable occurring linearly with coefficient +-1"""
    best = None
    for m, c in p.t:
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            a = m[0][0]
            if a.kind == "var" and a.args[0].startswith("idx:"):
                rest = _mk({mm: cc for mm, cc in p.t if mm != m})
                if a in rest.free:
                    continue
                if best is None or a.id > best[0].id:
                    best = (a, scale(rest, -F1 / c))
    return best


_nest = [0]  # a nested sum or quantifier gets a probe variable of its own


def summ(n, f):
    """sum_{t<n} f(t)"""
    n = num(n)
    c = n.const()
    if c is not None and c <= 8:
        r = ZERO
        for i in range(int(c)):
            r = r + f(num(i))
        return r
    probe = var("?sum%d" % _nest[0], "I")
    _nest[0] += 1
    try:
        body = num(f(probe))
    finally:
        _nest[0] -= 1
    pa = probe.t[0][0][0][0]
    if FILTERED and pa in body.free:
        r = FILTERED[0](n, pa, body)
        if r is not None:
            ks, ns, cond, b2 = r
            return nest(summ, ks, ns, ite(cond, b2, ZERO))
    out = ZERO
    indep = {}
    for m, cf in body.t:
        dep = tuple((a, e) for a, e in m if pa in a.free)
        ind = tuple((a, e) for a, e in m if pa not in a.free)
        key = dep
        indep[key] = indep.get(key, ZERO) + E(((ind, cf),)) if ind else indep.get(key, ZERO) + num(cf)
    for dep, k in indep.items():
        if not dep:
            out = out + k * n
        else:
            b = E(((dep, F1),))
            lvl = max(level_of(b), level_of(n))
            nb = subst(b, {pa: bv(lvl)})
            out = out + k * of_atom(atom("sum", (n, lvl, nb), "I" if nb.isint else "R"))
    return out


FILTERED = []  # (extent, index, body) -> (binders, extents, condition, body) for a range over the positions of a filtered sequence


def nest(q, ks, ns, body):
    """q_{k0<n0} q_{k1<n1} ... body"""
    if not ks:
        return body
    k = ks[0]
    return q(ns[0], lambda t: nest(q, ks[1:], [subst(x, {k: t}) for x in ns[1:]], subst(body, {k: t})))


def _monotone(n, pa, body):
    """a bound on the values of an ascending arrangement ("distinct" of all its values): reached by one of them iff by the
    last one (an upper one: the first one)"""
    if body.k not in ("le", "lt"):
        return None
    a = the_atom(n)
    if a is None or a.kind != "app" or a.args[0] != "len:distinct":
        return None
    it = None
    for mono, c in body.a[0].t:
        for x, e in mono:
            if pa is x or pa in x.free:
                if it is not None or len(mono) != 1 or e != 1 or x.kind != "app" or x.args[0] != "distinct":
                    return None
                it = x, c
    if it is None:
        return None
    x, c = it
    m = x.args[1][:-1]
    if tuple(m) != tuple(a.args[1]) or x.args[1][-1] != E((((( pa, 1),), F1),)) or any(isinstance(q, (E, B)) and pa in q.free for q in m):
        return None
    # body is  c*value + rest <= 0 : with c < 0 reached first by the largest value
    return subst(body, {pa: n - 1 if c < 0 else ZERO})


def quant(kind, n, f):
    """kind 'ex' / 'all' over t in [0,n)"""
    n = num(n)
    c = n.const()
    if c is not None and c <= 8:
        xs = [f(num(i)) for i in range(int(c))]
        return bor(*xs) if kind == "ex" else band(*xs)
    if kind == "all":
        return bnot(quant("ex", n, lambda t: bnot(f(t))))
    probe = var("?q%d" % _nest[0], "I")
    pa = probe.t[0][0][0][0]
    _nest[0] += 1
    try:
        body = f(probe)
    finally:
        _nest[0] -= 1
    if body == FALSE:
        return FALSE
    if pa not in body.free:
        return band(lt0(-n), body)
    m = _monotone(n, pa, body)
    if m is not None:
        return band(lt0(-n), m)
    if FILTERED:
        r = FILTERED[0](n, pa, body)
        if r is not None:
            ks, ns, cond, b2 = r
            return nest(lambda x, g: quant("ex", x, g), ks, ns, band(cond, b2))
    lvl = max(level_of(body), level_of(n))
    nb = subst(body, {pa: bv(lvl)})
    b = B("ex", (n, lvl, nb))
    return b


# --------------------------------------------------------------------------------------------------------- substitution
_subst_hooks = {}


def subst(x, m, memo=None):
    """m: Atom -> E"""
    if memo is None:
        memo = {}
    if isinstance(x, (E, B)):
        if isinstance(x, E) and not _touches(x, m):
            return x
        if isinstance(x, B) and not _touches(x, m):
            return x
        r = memo.get(x)
        if r is not None:
            return r
    if isinstance(x, E):
        out = ZERO
        for mono, c in x.t:
            t = num(c)
            for a, e in mono:
                t = mul(t, power(subst_atom(a, m, memo), e))
            out = add(out, t)
        memo[x] = out
        return out
    if isinstance(x, B):
        r = subst_bool(x, m, memo)
        memo[x] = r
        return r
    if isinstance(x, tuple):
        return tuple(subst(y, m, memo) for y in x)
    if hasattr(x, "subst_"):
        return x.subst_(m, memo)
    return x


def _touches(x, m):
    if any(a in x.free for a in m):
        return True
    for a in m:
        if a.kind == "bv" and x.lvl > a.args[0]:
            return True
        if a.kind not in ("var", "bv"):
            return True
    return False


def subst_atom(a, m, memo):
    r = m.get(a)
    if r is not None:
        return r
    if a.kind in ("var", "bv"):
        return of_atom(a)
    key = ("a", a)
    r = memo.get(key)
    if r is None:
        if not any(v in a.free for v in m) and not any(
            (k.kind == "bv" and a.lvl > k.args[0]) or k.kind not in ("var", "bv") for k in m
        ):
            r = of_atom(a)
        else:
            r = rebuild(a, lambda y: subst(y, m, memo))
        memo[key] = r
    return r


def rebuild(a, f):
    k = a.kind
    if k == "app":
        fn, args = a.args
        hook = _subst_hooks.get(fn)
        nargs = tuple(f(y) for y in args)
        if hook:
            return hook(nargs, a.sort)
        return app(fn, nargs, a.sort)
    if k == "inv":
        return inv(f(a.args[0]))
    if k == "sqrt":
        return sqrt(f(a.args[0]))
    if k == "abs":
        return eabs(f(a.args[0]))
    if k == "ite":
        return ite(f(a.args[0]), f(a.args[1]), f(a.args[2]))
    if k == "sum":
        n, lvl, body = a.args
        return resum(f(n), lvl, f(body))
    if k == "ent":
        from values import ent_rebuild

        return ent_rebuild(a, f)
    if k in ("divzero",):
        return of_atom(a)
    h = _rebuild_hooks.get(k)
    if h:
        return h(a, f)
    if k == "rvarx":
        return of_atom(a)
    raise Unsupported("rebuild " + k)


_rebuild_hooks = {}


def resum(n, lvl, body):
    v = var("?rs%d" % lvl, "I")
    b = bv(lvl).t[0][0][0][0]
    body = subst(body, {b: v})
    va = v.t[0][0][0][0]
    return summ(n, lambda t: subst(body, {va: t}))


def subst_bool(x, m, memo):
    f = lambda y: subst(y, m, memo)
    k = x.k
    if k == "c":
        return x
    if k == "le":
        return le0(f(x.a[0]))
    if k == "lt":
        return lt0(f(x.a[0]))
    if k == "eq":
        return eq0(f(x.a[0]))
    if k == "not":
        return bnot(f(x.a[0]))
    if k == "and":
        return band(*[f(y) for y in x.a])
    if k == "or":
        return bor(*[f(y) for y in x.a])
    if k == "p":
        h = _subst_hooks.get(x.a[0])
        args = tuple(f(y) for y in x.a[1:])
        return h(args, "B") if h else pred(x.a[0], *args)
    if k == "ex":
        n, lvl, body = x.a
        v = var("?rq%d" % lvl, "I")
        b = bv(lvl).t[0][0][0][0]
        va = v.t[0][0][0][0]
        body = f(subst(body, {b: v}))
        return quant("ex", f(n), lambda t: subst(body, {va: t}))
    raise Unsupported("subst bool " + k)


def the_atom(e):
    """the atom of an expression that is exactly one atom"""
    if isinstance(e, E) and len(e.t) == 1 and e.t[0][1] == 1 and len(e.t[0][0]) == 1 and e.t[0][0][0][1] == 1:
        return e.t[0][0][0][0]
    return None


# ---------------------------------------------------------------------------------------------------------- pretty print
def show_atom(a):
    k = a.kind
    if k == "var":
        return a.args[0]
    if k == "bv":
        return "$%d" % a.args[0]
    if k == "app":
        return "%s(%s)" % (a.args[0], ",".join(show(x) for x in a.args[1]))
    if k == "ite":
        return "ite(%s, %s, %s)" % tuple(show(x) for x in a.args)
    if k == "sum":
        return "sum[$%d<%s](%s)" % (a.args[1], show(a.args[0]), show(a.args[2]))
    return "%s(%s)" % (k, ",".join(show(x) for x in a.args))


_show_memo = {}


def show(x):
    if isinstance(x, E):
        r = _show_memo.get(x)
        if r is not None:
            return r
        if not x.t:
            return "0"
        out = []
        for m, c in x.t:
            f = "*".join(show_atom(a) + ("^%d" % e if e != 1 else "") for a, e in m)
            if not f:
                s = str(c) if c.denominator < 10**6 else repr(float(c))
            elif c == 1:
                s = f
            elif c == -1:
                s = "-" + f
            else:
                s = (str(c) if c.denominator < 10**6 else repr(float(c))) + "*" + f
            out.append(s)
        r = " + ".join(out)
        r = r if len(out) == 1 else "(" + r + ")"
        _show_memo[x] = r
        return r
    if isinstance(x, B):
        k = x.k
        if k == "c":
            return str(x.a[0])
        if k == "le":
            return show(x.a[0]) + "<=0"
        if k == "lt":
            return show(x.a[0]) + "<0"
        if k == "eq":
            return show(x.a[0]) + "==0"
        if k == "not":
            return "!(" + show(x.a[0]) + ")"
        if k == "and":
            return "(" + " && ".join(show(y) for y in x.a) + ")"
        if k == "or":
            return "(" + " || ".join(show(y) for y in x.a) + ")"
        if k == "p":
            return "%s(%s)" % (x.a[0], ",".join(show(y) for y in x.a[1:]))
        if k == "ex":
            return "exists[$%d<%s](%s)" % (x.a[1], show(x.a[0]), show(x.a[2]))
    if isinstance(x, tuple):
        return "[" + ",".join(show(y) for y in x) + "]"
    return str(x)


# ------------------------------------------------------------------------------------------------------ numeric evaluation
class EvalFail(Exception):
    pass


class Model:
    """a pseudo-random interpretation of all variables and uninterpreted functions, determined by a seed"""

    def __init__(self, seed, fixed=None, scale=1.0, maxlen=3):
        self.seed = seed
        self.memo = {}
        self.env = {}
        self.scale = scale
        self.maxlen = maxlen
        self.fixed = fixed or {}
        self.ov = None
        self.trace = None
        self.cmps = None  # comparisons met: (polynomial, surrounding indices, exact)

    def cmp(self, x, exact):
        v = self.e(x)
        if self.cmps is not None and isinstance(v, float) and len(self.cmps) < 400:
            self.cmps.append((x, dict(self.env), exact))
        return v

    def rnd(self, *key):
        h = hashlib.md5(repr((self.seed,) + key).encode()).digest()
        return int.from_bytes(h[:7], "big") / float(1 << 56)

    def atom(self, a):
        k = a.kind
        if k == "bv":
            if a.args[0] not in self.env:
                raise EvalFail("unbound")
            return self.env[a.args[0]]
        memo = not a.loose
        if memo and a in self.memo:
            return self.memo[a]
        v = self._atom(a)
        if memo:
            self.memo[a] = v
        return v

    def leaf(self, name, args, sort):
        if self.trace is not None:
            self.trace[(name, args)] = sort
        if self.ov and (name, args) in self.ov:
            return self.ov[(name, args)]
        if (name, args) in self.fixed:
            return self.fixed[(name, args)]
        if name in self.fixed:
            f = self.fixed[name]
            return f(*args) if callable(f) else f
        r = self.rnd(name, args)
        if sort == "I":
            if name.startswith("len:"):
                return int(r * (self.maxlen + 1))
            return int(r * 5)
        if name.startswith("pos:"):
            return 0.2 + r * 3
        # a mixture: mostly moderate, with exact small values now and then
        q = self.rnd(name, args, "kind")
        if q < 0.08:
            return float(int(r * 5) - 2)
        return (r * 2 - 1) * 2 * self.scale

    def _atom(self, a):
        k = a.kind
        if k == "var":
            return self.leaf(a.args[0], (), a.sort)
        if k == "app":
            fn, args = a.args
            h = _num_hooks.get(fn)
            if h:
                return h(self, args)
            vals = tuple(self.val(x) for x in args)
            return self.leaf(fn, tuple(_rk(v) for v in vals), a.sort)
        if k == "inv":
            d = self.e(a.args[0])
            if abs(d) < 1e-9:
                raise EvalFail("div0")
            return 1.0 / d
        if k == "sqrt":
            d = self.e(a.args[0])
            if d < 0:
                if d > -1e-12:
                    return 0.0
                raise EvalFail("sqrt<0")
            return math.sqrt(d)
        if k == "abs":
            return abs(self.e(a.args[0]))
        if k == "ite":
            return self.e(a.args[1]) if self.b(a.args[0]) else self.e(a.args[2])
        if k == "sum":
            n, lvl, body = a.args
            r = 0.0
            old = self.env.get(lvl)
            for i in range(int(round(self.e(n)))):
                self.env[lvl] = i
                r += self.e(body)
            if old is None:
                self.env.pop(lvl, None)
            else:
                self.env[lvl] = old
            return r
        if k == "ent":
            from values import ent_num

            return ent_num(self, a)
        h = _num_hooks.get(k)
        if h:
            return h(self, a)
        raise EvalFail("no numeric meaning: " + k)

    def val(self, x):
        if isinstance(x, E):
            return self.e(x)
        if isinstance(x, B):
            return self.b(x)
        if isinstance(x, tuple):
            return tuple(self.val(y) for y in x)
        if hasattr(x, "num_"):
            return x.num_(self)
        return x

    def e(self, x):
        r = 0.0
        isint = True
        for m, c in x.t:
            t = float(c) if c.denominator != 1 else c.numerator
            for a, e in m:
                v = self.atom(a)
                if e < 0 and v == 0:
                    raise EvalFail("div0")
                t = t * (v**e)
            r = r + t
        if isinstance(r, float) and (math.isnan(r) or math.isinf(r)):
            raise EvalFail("nan")
        return r

    def b(self, x):
        k = x.k
        if k == "c":
            return x.a[0]
        if k == "le":
            return self.cmp(x.a[0], False) <= 0
        if k == "lt":
            return self.cmp(x.a[0], False) < 0
        if k == "eq":
            v = self.cmp(x.a[0], True)
            return v == 0 if isinstance(v, int) else abs(v) < 1e-13
        if k == "not":
            return not self.b(x.a[0])
        if k == "and":
            return all(self.b(y) for y in x.a)
        if k == "or":
            return any(self.b(y) for y in x.a)
        if k == "p":
            h = _num_hooks.get(x.a[0])
            if h:
                return h(self, x.a[1:])
            vals = tuple(_rk(self.val(y)) for y in x.a[1:])
            if (x.a[0], vals) in self.fixed:
                return self.fixed[(x.a[0], vals)]
            return self.rnd(x.a[0], vals) < 0.5
        if k == "ex":
            n, lvl, body = x.a
            old = self.env.get(lvl)
            try:
                for i in range(int(round(self.e(n)))):
                    self.env[lvl] = i
                    if self.b(body):
                        return True
                return False
            finally:
                if old is None:
                    self.env.pop(lvl, None)
                else:
                    self.env[lvl] = old
        raise EvalFail(k)


def _rk(v):
    if isinstance(v, float):
        return float("%.9g" % (v + 0.0))
    if isinstance(v, tuple):
        return tuple(_rk(x) for x in v)
    return v


_num_hooks = {}


def fn1(name, pyf, even=None):
    """unary real function with constant folding hooks"""

    def hook(m, args):
        try:
            return pyf(*[m.e(x) for x in args])
        except (ValueError, OverflowError, ZeroDivisionError):
            raise EvalFail(name)

    _num_hooks[name] = hook


fn1("cos", math.cos)
fn1("sin", math.sin)
fn1("tan", math.tan)
fn1("acos", math.acos)
fn1("asin", math.asin)
fn1("atan", math.atan)
fn1("atan2", math.atan2)
fn1("exp", math.exp)
fn1("log", math.log)
fn1("pow", lambda a, b: a**b)
fn1("floor", lambda a: int(math.floor(a)))
fn1("ceil", lambda a: int(math.ceil(a)))
fn1("round", lambda a: int(math.floor(abs(a) + 0.5)) * (1 if a >= 0 else -1))
fn1("trunc", lambda a: int(a))
fn1("idiv", lambda a, b: int(int(a) // int(b)))
fn1("imod", lambda a, b: int(int(a) % int(b)))


def cos(x):
    c = x.const()
    if c is not None and c == 0:
        return ONE
    if c is None and x.t[-1][1] < 0:
        x = -x
    return app("cos", (x,))


def sin(x):
    c = x.const()
    if c is not None and c == 0:
        return ZERO
    if c is None and x.t[-1][1] < 0:
        return -app("sin", (-x,))
    return app("sin", (x,))


def idiv(a, b):
    from values import divmod_

    c, d = a.const(), b.const()
    if d is not None and d > 0 and d.denominator == 1:
        return divmod_(a, int(d))[0]
    return app("idiv", (a, b), "I")


def imod(a, b):
    from values import divmod_

    c, d = a.const(), b.const()
    if d is not None and d > 0 and d.denominator == 1:
        return divmod_(a, int(d))[1]
    if d is None:
        return a - b * idiv(a, b)
    return app("imod", (a, b), "I")


_subst_hooks["idiv"] = lambda a, s: idiv(a[0], a[1])
_subst_hooks["imod"] = lambda a, s: imod(a[0], a[1])
_subst_hooks["cos"] = lambda a, s: cos(a[0])
_subst_hooks["sin"] = lambda a, s: sin(a[0])
