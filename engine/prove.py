"""Discharging obligations: syntactic normal form, case split, orthogonality of rotation entries, z3, cvc5; refutation by
numeric evaluation of both sides under a pseudo-random interpretation that satisfies the path condition."""
import time
import z3
from terms import *
from values import *
import terms as T

STATS = {"nf": 0, "split": 0, "orth": 0, "z3": 0, "cvc5": 0, "numeric": 0, "undecided": 0, "z3_time": 0.0, "decide": 0, "cvc5_time": 0.0}


# -------------------------------------------------------------------------------------------------------- z3 translation
class Z3Tr:
    def __init__(self, lin=False):
        self.lin = lin  # products of unknowns as opaque unknowns (sound for "unsat", and fast)
        self.memo = {}
        self.axioms = []
        self.ufs = {}
        self.bound = {}
        self.quants = []
        self.n = 0

    def fn(self, name, arity, isint):
        k = (name, arity, isint)
        f = self.ufs.get(k)
        if f is None:
            rng = z3.BoolSort() if isint == "B" else (z3.IntSort() if isint else z3.RealSort())
            f = z3.Function("%s/%d%s" % (name, arity, isint), *([z3.RealSort()] * arity + [rng]))
            self.ufs[k] = f
        return f

    def args(self, xs):
        out = []
        for x in xs:
            if isinstance(x, E):
                out.append(self.real(x))
            elif isinstance(x, B):
                out.append(z3.If(self.b(x), z3.RealVal(1), z3.RealVal(0)))
            elif isinstance(x, tuple):
                out += self.args(x)
            else:
                # opaque object identified syntactically
                k = ("obj", x if not isinstance(x, (W, Str)) else x)
                v = self.memo.get(k)
                if v is None:
                    v = z3.RealVal(1000 + len(self.memo))
                    self.memo[k] = v
                out.append(v)
        return out

    def real(self, e):
        r = self.e(e)
        return z3.ToReal(r) if r.sort() == z3.IntSort() else r

    def atom(self, a):
        k = a.kind
        if k == "bv":
            return self.bound[a.args[0]]
        if not a.loose and a in self.memo:
            return self.memo[a]
        if k == "var":
            v = z3.Int(a.args[0]) if a.sort == "I" else z3.Real(a.args[0])
            if a.sort == "I" and a.args[0].startswith(("len:", "idx:")):
                self.axioms.append(v >= 0)
        elif k == "app":
            fn, args = a.args
            xs = self.args(args)
            if fn in ("idiv", "imod") and all(x.isint for x in args) and args[1].const():
                p, q = self.e(args[0]), self.e(args[1])
                v = p / q if fn == "idiv" else p % q
            else:
                v = self.fn(fn, len(xs), a.sort == "I")(*xs) if xs else (z3.Int(fn) if a.sort == "I" else z3.Real(fn))
                if fn.startswith("len:") and not a.loose:
                    self.axioms.append(v >= 0)
                if fn in ("cos", "sin") and not a.loose:
                    c = self.fn("cos", 1, False)(*xs)
                    s = self.fn("sin", 1, False)(*xs)
                    self.axioms.append(c * c + s * s == 1)
                if fn == "u01" and not a.loose:
                    self.axioms.append(z3.And(v >= 0, v <= 1))
                if fn == "rint" and not a.loose:
                    self.axioms.append(z3.Implies(xs[0] <= xs[1], z3.And(v >= xs[0], v <= xs[1])))
                if fn in ("norm", "angdist", "aangle") and not a.loose:
                    self.axioms.append(v >= 0)
        elif k == "inv":
            p = self.real(a.args[0])
            v = self.fn("inv", 1, False)(p)
            if not a.loose:
                self.axioms.append(z3.Implies(p != 0, v * p == 1))
        elif k == "sqrt":
            p = self.real(a.args[0])
            v = self.fn("sqrt", 1, False)(p)
            if not a.loose:
                self.axioms.append(z3.Implies(p >= 0, z3.And(v >= 0, v * v == p)))
        elif k == "abs":
            p = self.real(a.args[0])
            v = z3.If(p >= 0, p, -p)
        elif k == "ite":
            x, y = self.e(a.args[1]), self.e(a.args[2])
            if x.sort() != y.sort():
                x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
                y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
            v = z3.If(self.b(a.args[0]), x, y)
        else:
            self.n += 1
            if a.loose:
                # depends on bound variables: uninterpreted function of them
                bs = [self.bound[i] for i in sorted(a.loose)]
                v = self.fn("atom%d" % a.id, len(bs), a.sort == "I")(*[z3.ToReal(b) for b in bs])
            else:
                v = z3.Int("atom%d" % a.id) if a.sort == "I" else z3.Real("atom%d" % a.id)
        if not a.loose:
            self.memo[a] = v
            if k == "sum":
                self.least(a, v)
        return v

    def least(self, a, v):
        """the first index of a range at which a condition holds (loops.least): what it is"""
        n, lvl, b = a.args
        m = b.t[0][0] if len(b.t) == 1 and b.t[0][1] == 1 else ()
        if len(m) != 1 or m[0][1] != 1 or m[0][0].kind != "ite" or a.sort != "I":
            return
        c, x, y = m[0][0].args
        if c.k != "ex" or x.t or y != ONE or c.a[0] != T.bv(lvl) + 1:
            return
        n2, l2, body = c.a
        if lvl in T.loose_of(body):
            return
        self.n += 1
        j = z3.Int("least%d" % self.n)
        old = self.bound.get(l2)
        at = lambda i: (self.bound.__setitem__(l2, i), self.b(body))[1]
        hi, pv, pj = self.e(n), at(v), at(j)
        if old is None:
            del self.bound[l2]
        else:
            self.bound[l2] = old
        # 0 <= v <= n, nothing holds before v, and if v < n then it holds at v
        self.quants += [z3.Implies(hi >= 0, z3.And(v >= 0, v <= hi)), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < v, j < hi), z3.Not(pj))), z3.Implies(z3.And(hi >= 0, v < hi), pv)]

    def e(self, x):
        r = None
        for m, c in x.t:
            if x.isint:
                t = z3.IntVal(c.numerator)
            else:
                t = z3.RealVal(str(c))
            if self.lin and (len(m) > 1 or (m and m[0][1] != 1)) and all(not a.loose for a, _ in m):
                v = self.memo.get(m)
                if v is None:
                    nm = "mono%d" % len(self.memo)
                    v = z3.Int(nm) if all(a.sort == "I" for a, _ in m) and all(q > 0 for _, q in m) else z3.Real(nm)
                    self.memo[m] = v
                if not x.isint and v.sort() == z3.IntSort():
                    v = z3.ToReal(v)
                t = t * v
                r = t if r is None else r + t
                continue
            for a, e in m:
                v = self.atom(a)
                if not x.isint and v.sort() == z3.IntSort():
                    v = z3.ToReal(v)
                if e > 0:
                    for _ in range(e):
                        t = t * v
                else:
                    w = self.fn("inv", 1, False)(v)
                    if not a.loose:
                        self.axioms.append(z3.Implies(v != 0, w * v == 1))
                    for _ in range(-e):
                        t = t * w
            r = t if r is None else r + t
        if r is None:
            return z3.IntVal(0)
        return r

    def b(self, x):
        k = x.k
        if k == "c":
            return z3.BoolVal(x.a[0])
        if k == "le":
            return self.e(x.a[0]) <= 0
        if k == "lt":
            return self.e(x.a[0]) < 0
        if k == "eq":
            return self.e(x.a[0]) == 0
        if k == "not":
            return z3.Not(self.b(x.a[0]))
        if k == "and":
            return z3.And(*[self.b(y) for y in x.a])
        if k == "or":
            return z3.Or(*[self.b(y) for y in x.a])
        if k == "p":
            xs = self.args(x.a[1:])
            return self.fn("p:" + x.a[0], len(xs), "B")(*xs) if xs else z3.Bool("p:" + x.a[0])
        if k == "ex":
            n, lvl, body = x.a
            v = z3.Int("bv%d_%d" % (lvl, self.n))
            self.n += 1
            old = self.bound.get(lvl)
            self.bound[lvl] = v
            r = z3.Exists([v], z3.And(v >= 0, v < self.e(n), self.b(body)))
            if old is None:
                del self.bound[lvl]
            else:
                self.bound[lvl] = old
            return r
        raise Unsupported("z3 " + k)


_dec_cache = {}
SLOW = 1  # factor of the solver time limits


_divs = {}


def div_lemmas(formulas):
    """what holds of the quotients by symbolic divisors in the formulas: with q = p div d, 0 < d and 0 <= p, also 0 <= q,
    0 <= p - d q < d, and q < c if p < c d"""
    ds = []
    for f in formulas:
        v = _divs.get(f)
        if v is None:
            v = _divs[f] = divs(f, [], set())
        ds += [a for a in v if a not in ds]
    if not ds:
        return []
    facts = set()
    for f in formulas:
        facts.update(f.a if f.k == "and" else (f,))
    out = []
    for a in ds:
        p, d = a.args[1]
        if d.const() is not None or not (p.isint and d.isint):
            continue
        q = E(((((a, 1),), Fraction(1)),))
        pre = (lt(0, d), le(0, p))
        ups = []
        da = the_atom(d)
        for f in facts:
            if f.k not in ("lt", "le") or not isinstance(f.a[0], E) or da is None:
                continue
            # p < u with u = c d
            u = p - f.a[0] + (1 if f.k == "le" else 0)
            if u.t and all(any(b == da and e >= 1 for b, e in m) for m, c in u.t):
                c = ZERO
                for m, k in u.t:
                    c = c + E(((tuple((b, e - (1 if b == da else 0)) for b, e in m if b != da or e > 1), k),))
                ups.append((lt(p, u), lt(q, c)))
        no = bor(*[bnot(x) for x in pre])
        out += [bor(no, x) for x in (le(0, q), le(d * q, p), lt(p, d * q + d))]
        out += [bor(no, bnot(x), y) for x, y in ups]
    return out


def z3_check(formulas, timeout_ms):
    """'unsat' / 'sat' / 'unknown' for the conjunction of B formulas"""
    timeout_ms *= SLOW
    formulas = list(formulas) + div_lemmas(formulas)
    r = z3_check1(formulas, min(timeout_ms, 1000 * SLOW), True)
    return r if r == "unsat" else z3_check1(formulas, timeout_ms, False)


def z3_check1(formulas, timeout_ms, lin):
    tr = Z3Tr(lin)
    t0 = time.time()
    try:
        fs = [tr.b(f) for f in formulas]
        s = z3.Solver()
        s.set("timeout", timeout_ms)
        for a in fs:
            s.add(a)
        for a in tr.axioms if not lin else [a for a in tr.axioms if a.decl().kind() in (z3.Z3_OP_GE, z3.Z3_OP_LE)]:
            s.add(a)
        for a in tr.quants:
            s.add(a)
        r = str(s.check())
    except z3.Z3Exception:
        r = "unknown"
    STATS["z3_time"] += time.time() - t0
    return r


def relevant(pc, b):
    """path facts connected to b"""
    fr = set(b.free)
    out = []
    rest = [p for p in pc if p != TRUE]
    changed = True
    while changed:
        changed = False
        for p in list(rest):
            if not p.free or (p.free & fr):
                out.append(p)
                rest.remove(p)
                fr |= p.free
                changed = True
    return out


def decide(pc, b, timeout_ms=400):
    """is b decided by the path condition? True / False / None"""
    if b.k == "c":
        return b.a[0]
    nb = bnot(b)
    flat = set()
    for p in pc:
        flat.add(p)
        if p.k == "and":
            flat.update(p.a)
    if b in flat:
        return True
    if nb in flat:
        return False
    key = (tuple(sorted((hash(p) for p in flat))), b)
    if key in _dec_cache:
        return _dec_cache[key]
    STATS["decide"] += 1
    rel = relevant(flat, b)
    r = None
    # without any related fact only integer bounds can decide it
    if z3_check(rel + [nb], timeout_ms) == "unsat":
        r = True
    elif z3_check(rel + [b], timeout_ms) == "unsat":
        r = False
    _dec_cache[key] = r
    return r


# ---------------------------------------------------------------------------------------------------------- simplification
def ite_conds(x, acc=None, seen=None):
    """conditions of ite atoms occurring outside binders"""
    if acc is None:
        acc, seen = [], set()
    if isinstance(x, E):
        if x in seen:
            return acc
        seen.add(x)
        for m, c in x.t:
            for a, e in m:
                if a in seen:
                    continue
                seen.add(a)
                if a.kind == "ite":
                    if not a.args[0].loose and a.args[0] not in acc:
                        acc.append(a.args[0])
                    ite_conds(a.args[0], acc, seen)
                    ite_conds(a.args[1], acc, seen)
                    ite_conds(a.args[2], acc, seen)
                else:
                    for y in a.args:
                        ite_conds(y, acc, seen)
    elif isinstance(x, B):
        if x in seen:
            return acc
        seen.add(x)
        for y in x.a:
            ite_conds(y, acc, seen)
    elif isinstance(x, tuple):
        for y in x:
            ite_conds(y, acc, seen)
    elif isinstance(x, W):
        for a, s in x.w:
            for y in a.args:
                ite_conds(y, acc, seen)
    return acc


def resolve(x, pc):
    """x with the conditionals that the facts decide replaced by the chosen alternative"""
    for _ in range(40):
        ch = False
        for c in ite_conds(x):
            if not c.loose:
                d = decide(list(pc), c)
                if d is not None:
                    x = assume_in(x, c, d)
                    ch = True
                    break
        if not ch:
            break
    return x


def assume_in(x, c, val, memo=None):
    """replace ite(c,..) / the boolean c in x by its value"""
    if memo is None:
        memo = {}
    key = x if isinstance(x, (E, B)) else None
    if key is not None and key in memo:
        return memo[key]
    r = _assume_in(x, c, val, memo)
    if key is not None:
        memo[key] = r
    return r


def _assume_in(x, c, val, memo):
    f = lambda y: assume_in(y, c, val, memo)
    if isinstance(x, E):
        out = ZERO
        for m, k in x.t:
            t = num(k)
            for a, e in m:
                t = t * power(_assume_atom(a, c, val, memo), e)
            out = out + t
        return out
    if isinstance(x, B):
        if x == c:
            return TRUE if val else FALSE
        if x == bnot(c):
            return FALSE if val else TRUE
        k = x.k
        if k == "c":
            return x
        if k == "le":
            return le0(f(x.a[0]))
        if k == "lt":
            return lt0(f(x.a[0]))
        if k == "eq":
            return eq0(f(x.a[0]))
        if k == "not":
            return bnot(f(x.a[0]))
        if k == "and":
            return band(*[f(y) for y in x.a])
        if k == "or":
            return bor(*[f(y) for y in x.a])
        if k == "p" and x.a[0] == "streq":
            return str_eq(f(x.a[1]), f(x.a[2]))
        return x
    if isinstance(x, tuple):
        return tuple(f(y) for y in x)
    if isinstance(x, W):
        r = ID
        for a, s in x.w:
            w = assume_rot(a, f)
            r = r * (w if s > 0 else w.inv())
        return r
    if isinstance(x, Str):
        out = []
        for q in x.p:
            if isinstance(q, Atom) and q.kind == "site":
                cc = f(q.args[0])
                out += list(str_ite(cc, f(q.args[1]), f(q.args[2])).p)
            else:
                out.append(q)
        return Str(out)
    return x


def assume_rot(a, f):
    if a.kind == "raa":
        return raa(*[f(x) for x in a.args])
    if a.kind == "raxis":
        return raxis(a.args[0], f(a.args[1]))
    if a.kind == "rvar":
        return rvar(a.args[0], f(a.args[1]))
    return W([(a, 1)])


def _assume_atom(a, c, val, memo):
    key = ("a", a)
    if key in memo:
        return memo[key]
    if a.kind in ("var", "bv"):
        r = of_atom(a)
    elif a.kind in ("sum", "fold"):
        r = of_atom(a)
    else:
        r = T.rebuild(a, lambda y: assume_in(y, c, val, memo))
    memo[key] = r
    return r


# rotation orthogonality: rows (sum_j r_ij r_kj = d_ik) and columns
def orth_reduce(p, which):
    """rewrite products of two entries of one rotation"""
    for _ in range(200):
        hit = None
        for m, c in p.t:
            ents = [(a, e) for a, e in m if a.kind == "ent" and e > 0]
            for x in range(len(ents)):
                for y in range(x, len(ents)):
                    a, e1 = ents[x]
                    b, e2 = ents[y]
                    if a.args[0] is not b.args[0]:
                        continue
                    if x == y and e1 < 2:
                        continue
                    _, i, j = a.args
                    _, k, l = b.args
                    if which == "row" and j == 0 and l == 0:
                        hit = (m, c, a, b, i, k)
                    elif which == "col" and i == 0 and k == 0:
                        hit = (m, c, a, b, j, l)
                    if hit:
                        break
                if hit:
                    break
            if hit:
                break
        if not hit:
            return p
        m, c, a, b, u, v = hit
        r = a.args[0]
        en = lambda i, j: of_atom(atom("ent", (r, i, j)))
        if which == "row":
            rep = num(1 if u == v else 0) - en(u, 1) * en(v, 1) - en(u, 2) * en(v, 2)
        else:
            rep = num(1 if u == v else 0) - en(1, u) * en(1, v) - en(2, u) * en(2, v)
        # all monomials at once
        out = ZERO
        for mm, cc in p.t:
            d = dict(mm)
            need = {a: 2} if a is b else {a: 1, b: 1}
            if all(d.get(q, 0) >= n for q, n in need.items()):
                for q, n in need.items():
                    d[q] -= n
                rest = tuple(sorted(((q, e) for q, e in d.items() if e), key=lambda z: z[0].id))
                out = out + (E(((rest, cc),)) if rest else num(cc)) * rep
            else:
                out = out + E(((mm, cc),))
        p = out
        if len(p.t) > 5000:
            return p
    return p


def trig_reduce(p):
    """sin^2 -> 1 - cos^2"""
    for _ in range(50):
        hit = None
        for m, c in p.t:
            for a, e in m:
                if a.kind == "app" and a.args[0] == "sin" and e >= 2:
                    hit = a
                    break
            if hit:
                break
        if not hit:
            return p
        cs = of_atom(atom("app", ("cos", hit.args[1])))
        out = ZERO
        for m, c in p.t:
            d = dict(m)
            if d.get(hit, 0) >= 2:
                d[hit] -= 2
                rest = tuple(sorted(((q, e) for q, e in d.items() if e), key=lambda z: z[0].id))
                out = out + (E(((rest, c),)) if rest else num(c)) * (ONE - cs * cs)
            else:
                out = out + E(((m, c),))
        p = out
    return p


def zero_by_orth(d):
    if not d.t:
        return True
    d2 = clear_inv(d)
    for x in (d, d2):
        if x is None:
            continue
        x = trig_reduce(x)
        for order in (("row",), ("col",), ("row", "col"), ("col", "row"), ("row", "col", "row"), ("col", "row", "col")):
            y = x
            for w in order:
                y = orth_reduce(y, w)
            if not y.t:
                return True
    return False


def clear_inv(d):
    """multiply by the denominators (valid where they are non-zero)"""
    for _ in range(6):
        target = None
        for m, c in d.t:
            for a, e in m:
                if a.kind == "inv" or e < 0:
                    target = (a, -e if e < 0 else e)
                    break
            if target:
                break
        if not target:
            return d
        a, _e = target
        try:
            if a.kind == "inv":
                mx = max([dict(m).get(a, 0) for m, c in d.t])
                f = power(a.args[0], mx)
                out = ZERO
                for m, c in d.t:
                    k = dict(m).get(a, 0)
                    rest = tuple((q, e) for q, e in m if q is not a)
                    t = E(((rest, c),)) if rest else num(c)
                    out = out + t * power(a.args[0], mx - k)
                d = out
            else:
                mn = min([dict(m).get(a, 0) for m, c in d.t])
                d = d * power(of_atom(a), -mn)
        except Unsupported:
            return None
        if len(d.t) > 20000:
            return None
    return d


class Result:
    def __init__(self, status, how="", detail=""):
        self.status, self.how, self.detail = status, how, detail

    def __repr__(self):
        return "%s(%s) %s" % (self.status, self.how, self.detail)


def rewrite(x, fa, memo):
    """x with every atom a (bottom up) replaced by fa(a) where that is not None"""
    f = lambda y: rewrite(y, fa, memo)
    if isinstance(x, (E, B)) and x in memo:
        return memo[x]
    if isinstance(x, E):
        out = ZERO
        for m, k in x.t:
            t = num(k)
            for a, e in m:
                r = memo.get(("a", a))
                if r is None:
                    r = of_atom(a) if a.kind in ("var", "bv", "sum", "fold", "site") else T.rebuild(a, f)
                    b = the_atom(r)
                    y = fa(b) if b is not None else None
                    r = memo[("a", a)] = r if y is None else y
                t = t * power(r, e)
            out = out + t
    elif isinstance(x, B):
        k = x.k
        if k in ("le", "lt", "eq"):
            out = {"le": le0, "lt": lt0, "eq": eq0}[k](f(x.a[0]))
        elif k == "not":
            out = bnot(f(x.a[0]))
        elif k in ("and", "or"):
            out = (band if k == "and" else bor)(*[f(y) for y in x.a])
        else:
            return x
    elif isinstance(x, tuple):
        return tuple(f(y) for y in x)
    else:
        return x
    memo[x] = out
    return out


def divs(x, acc, seen):
    """quotients by a symbolic divisor that occur in x"""
    if isinstance(x, (E, B)):
        if x in seen:
            return acc
        seen.add(x)
    if isinstance(x, E):
        for m, c in x.t:
            for a, e in m:
                if a in seen:
                    continue
                seen.add(a)
                if a.kind == "app" and a.args[0] == "idiv" and not a.loose:
                    acc.append(a)
                for y in a.args:
                    divs(y, acc, seen)
    elif isinstance(x, (B, tuple)):
        for y in x.a if isinstance(x, B) else x:
            divs(y, acc, seen)
    return acc


def quotient(a, pc):
    """(q * i + j) / q with 0 <= j < q, j the terms without q: i"""
    p, q = a.args[1]
    qa = the_atom(q)
    if qa is None or q.const() is not None:
        return None
    i, j = ZERO, ZERO
    for m, c in p.t:
        if any(b == qa and e >= 1 for b, e in m):
            i = i + E((((tuple((b, e - (1 if b == qa else 0)) for b, e in m if b != qa or e > 1)), c),))
        else:
            j = j + E(((m, c),))
    for k in (0, -1, 1):
        # a constant number of divisors may have to be moved to the rest
        r = j - q * k
        if decide(list(pc), band(le(0, r), lt(r, q))) is True:
            return i + k
    return None


def simp_div(pc, *xs):
    """quotients by symbolic divisors that the facts determine"""
    eqs = False
    for _ in range(6):
        ds = []
        for x in tuple(pc) + xs:
            divs(x, ds, set())
        if ds and not eqs:
            eqs = True
            r = length_subst(pc, xs)
            if r:
                pc, xs = tuple(r[0]), tuple(r[1])
                continue
        m = {}
        for a in ds:
            if a not in m:
                v = quotient(a, pc)
                if v is not None:
                    m[a] = v
        if not m:
            break
        memo = {}
        pc = tuple(rewrite(p, m.get, memo) for p in pc)
        xs = tuple(rewrite(x, m.get, memo) for x in xs)
    return (pc,) + xs


def expand_defs(x):
    return x


def prove_eq(pc, a, b, depth=0, budget=None):
    """status: proved / undecided (never refuted; see refute)"""
    d = a - b
    if not d.t:
        return Result("proved", "nf")
    if budget is None:
        budget = [200]
    budget[0] -= 1
    if budget[0] <= 0:
        return Result("undecided", "budget")
    conds = ite_conds(d)
    if conds:
        # innermost (smallest) condition first
        conds.sort(key=lambda c: (len(ite_conds(c)), len(show(c))))
        c = conds[0]
        v = decide(pc, c)
        hows = set()
        for val in (True, False):
            if v is not None and v != val:
                continue
            pc2 = pc + [c if val else bnot(c)]
            if v is None and infeasible(pc2):
                continue
            d2 = assume_in(d, c, val)
            fact = c if val else bnot(c)
            d2 = subst_eqs(d2, fact)
            r = prove_eq([*pc2], d2, ZERO, depth + 1, budget)
            if r.status != "proved":
                return r
            hows.add(r.how)
        return Result("proved", "split")
    # equalities from the path condition
    d1 = d
    for p in pc:
        if p.k == "eq":
            d1 = subst_eqs(d1, p)
    if not d1.t:
        return Result("proved", "nf")
    if infeasible(pc):
        return Result("proved", "split")
    if zero_by_orth(d1):
        return Result("proved", "orth")
    r = z3_check(relevant(pc, eq0(d1) if eq0(d1).k != "c" else TRUE) + [bnot(eq0(d1))], 3000)
    if r == "unsat":
        return Result("proved", "z3")
    if cvc5_check(pc, bnot(eq0(d1))) == "unsat":
        return Result("proved", "cvc5")
    return Result("undecided", "", show(d1)[:600])


def subst_eqs(d, fact):
    if fact.k == "eq":
        sv = solve_idx(fact.a[0])
        if sv is not None:
            return subst(d, {sv[0]: sv[1]})
        # a real variable that is linear with a constant coefficient
        p = fact.a[0]
        for m, c in p.t:
            if len(m) == 1 and m[0][1] == 1:
                v = m[0][0]
                if v.kind in ("var", "app", "ent") and not v.loose:
                    rest = E(tuple((mm, cc) for mm, cc in p.t if mm != m))
                    if v.kind == "var" and v not in rest.free:
                        return subst(d, {v: scale(rest, -F1 / c)})
                    if v.kind != "var" and rest.const() is not None:
                        return subst(d, {v: scale(rest, -F1 / c)})
    elif fact.k == "and":
        for f in fact.a:
            d = subst_eqs(d, f)
    return d


_inf_cache = {}


def infeasible(pc):
    key = tuple(sorted(hash(p) for p in pc))
    if key in _inf_cache:
        return _inf_cache[key]
    r = any(p == FALSE for p in pc) or (bool(pc) and z3_check([p for p in pc], 400) == "unsat")
    _inf_cache[key] = r
    return r


def cvc5_check(pc, goal, timeout_ms=3000):
    try:
        import cvc5  # noqa
    except Exception:
        return "unknown"
    t0 = time.time()
    tr = Z3Tr()
    try:
        fs = [tr.b(f) for f in relevant(pc, goal) + [goal]]
        s = z3.Solver()
        for f in fs + tr.axioms + tr.quants:
            s.add(f)
        txt = s.to_smt2()
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        slv = cvc5.Solver(tm) if tm else cvc5.Solver()
        slv.setOption("tlimit-per", str(timeout_ms * SLOW))
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "o")
        sm = p.getSymbolManager()
        r = "unknown"
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            o = str(cmd.invoke(slv, sm)).strip()
            if o in ("sat", "unsat", "unknown"):
                r = o
    except Exception:
        r = "unknown"
    STATS["cvc5_time"] += time.time() - t0
    return r


def length_eqs(pc, b):
    """substitute lengths that the facts make equal; None if there is nothing to substitute"""
    r = length_subst(pc, (b,))
    return (r[0], r[1][0]) if r else None


def length_subst(pc, xs):
    flat = []
    for p in pc:
        flat += p.a if p.k == "and" else [p]
    done = False
    for n in range(len(flat)):
        p = flat[n]
        if p.k != "eq" or p.loose or not p.a[0].isint:
            continue
        for m, c in p.a[0].t:
            if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
                continue
            v = m[0][0]
            if v.kind not in ("var", "app") or v.loose or not (str(v.args[0]).startswith("len:") or v.kind == "var"):
                continue
            rest = scale(E(tuple((mm, cc) for mm, cc in p.a[0].t if mm != m)), -F1 / c)
            if v in rest.free:
                continue
            sub = {v: rest}
            flat = [q if q is p else subst(q, sub) for q in flat]
            xs = tuple(subst(x, sub) for x in xs)
            done = True
            break
    return (flat, xs) if done else None


def prove_bool(pc, b, top=True):
    if top and b != TRUE:
        r = prove_bool(pc, b, False)
        if r.status != "proved":
            q = length_eqs(pc, b)
            if q is not None:
                r2 = prove_bool(q[0], q[1], False)
                if r2.status == "proved":
                    return r2
        return r
    if b == TRUE:
        return Result("proved", "nf")
    flat = set(pc)
    for p in pc:
        if p.k == "and":
            flat.update(p.a)
    if b in flat:
        return Result("proved", "nf")
    if b.k == "and":
        hows = []
        for x in b.a:
            r = prove_bool(pc, x, top)
            if r.status != "proved":
                return r
            hows.append(r.how)
        return Result("proved", max(hows, key=["nf", "split", "orth", "z3", "cvc5"].index))
    if infeasible(list(pc)):
        return Result("proved", "split")
    if z3_check(relevant(list(flat), b) + [bnot(b)], 3000) == "unsat":
        return Result("proved", "z3")
    if cvc5_check(list(flat), bnot(b)) == "unsat":
        return Result("proved", "cvc5")
    if b.k == "ex" and not b.loose:
        # an index that the facts speak about as the witness
        n, lvl, body = b.a
        ws = {a for p in pc for a in p.free if a.kind == "var" and a.sort == "I" and str(a.args[0]).startswith("idx:")}
        for a in sorted(ws, key=lambda a: a.id)[:6]:
            w = E(((((a, 1),), Fraction(1)),))
            if decide(list(pc), lt(w, n)) is not True:
                continue
            if prove_bool(pc, band(le(0, w), subst(body, {the_atom(T.bv(lvl)): w})), False).status == "proved":
                return Result("proved", "z3")
    # split on ite conditions
    conds = ite_conds(b)
    if conds:
        c = conds[0]
        ok = True
        for val in (True, False):
            pc2 = list(pc) + [c if val else bnot(c)]
            if infeasible(pc2):
                continue
            r = prove_bool(pc2, assume_in(b, c, val), False)
            if r.status != "proved":
                ok = False
                break
        if ok:
            return Result("proved", "split")
    return Result("undecided", "", show(b)[:600])


def equiv(pc, a, b):
    """two booleans"""
    if a == b:
        return Result("proved", "nf")
    r = prove_bool(list(pc) + [a], b)
    if r.status != "proved":
        return r
    return prove_bool(list(pc) + [b], a)


# --------------------------------------------------------------------------------------------------------------- refutation
def refute(pc, kind, a, b, samples=60, seed=1, fixed=None):
    """look for an interpretation with pc true and a != b; ('refuted', model description) / ('agree', n)"""
    good = 0
    bad = 0
    wit = None
    for s in range(samples * 8):
        m = Model((seed, s), fixed=fixed, scale=1.0 if s % 3 else 0.3, maxlen=9 if s % 8 == 7 else 3)
        try:
            if not all(m.b(p) for p in pc):
                continue
            if kind == "eq":
                x, y = m.e(a), m.e(b)
                ok = abs(x - y) <= 1e-7 * (1 + abs(x) + abs(y))
                if not ok and abs(x - y) <= 1e-4 * (1 + abs(x) + abs(y)):
                    continue
            elif kind == "str":
                x, y = a.num_(m), b.num_(m)
                ok = x == y
            else:
                x, y = m.b(a), m.b(b)
                ok = x == y
        except (EvalFail, KeyError, OverflowError, ZeroDivisionError, ValueError):
            continue
        if ok:
            good += 1
        else:
            bad += 1
            if wit is None:
                wit = (m, x, y)
        if good + bad >= samples or bad >= 3:
            break
    if bad < 2:
        w = boundary(pc, kind, a, b, seed, fixed)
        if w is not None:
            wit, bad = w
    if bad >= 2:
        m, x, y = wit
        asg = {}
        for at, v in m.memo.items():
            if isinstance(at, Atom) and at.kind in ("var", "app") and isinstance(v, (int, float)):
                asg[show_atom(at)] = v
        return ("refuted", {"code": str(x), "spec": str(y), "assignment": dict(list(asg.items())[:80]), "samples_ok": good, "samples_bad": bad})
    return ("agree", good)


def _disagree(m, pc, kind, a, b, tol):
    """None when the interpretation does not satisfy pc or has no value, else (differs, x, y)"""
    try:
        if not all(m.b(p) for p in pc):
            return None
        if kind == "eq":
            x, y = m.e(a), m.e(b)
            return (abs(x - y) > tol * (1 + abs(x) + abs(y)), x, y)
        if kind == "str":
            x, y = a.num_(m), b.num_(m)
        else:
            x, y = m.b(a), m.b(b)
        return (x != y, x, y)
    except (EvalFail, KeyError, OverflowError, ZeroDivisionError, ValueError):
        return None


def boundary(pc, kind, a, b, seed, fixed, limit=6.0):
    """interpretations just beside the points at which a comparison in the obligation changes its outcome"""
    t0 = time.time()
    seen = set()
    bad, wit = 0, None
    scan = sorted([s * v for s in (1, -1) for v in (1e-6, 1e-3, 0.05, 0.2, 0.5, 1, 1.7, 3, 6, 20, 100)] + [0.0])
    for s in range(40):
        if time.time() - t0 > limit:
            break
        mk = lambda ov: _with(Model((seed, "b", s), fixed=fixed, maxlen=9 if s % 8 == 7 else 3), ov)
        m = mk(None)
        m.cmps = []
        _disagree(m, pc, kind, a, b, 1e-4)
        for x, env, exact in m.cmps:
            if (hash(x), s % 4) in seen or time.time() - t0 > limit:
                continue
            seen.add((hash(x), s % 4))

            def val(ov):
                q = mk(ov)
                q.env = dict(env)
                try:
                    return q.e(x)
                except (EvalFail, KeyError, OverflowError, ZeroDivisionError, ValueError):
                    return None

            q = mk(None)
            q.env = dict(env)
            q.trace = {}
            try:
                q.e(x)
            except Exception:
                continue
            leaves = [k for k, srt in q.trace.items() if srt != "I" and not (fixed and (k in fixed or k[0] in fixed))]
            for k in leaves[:5]:
                pts = [(t, val({k: t})) for t in scan if not (k[0].startswith("pos:") and t <= 0)]
                pts = [p for p in pts if p[1] is not None]
                roots = []
                for (t1, v1), (t2, v2) in zip(pts, pts[1:]):
                    if v1 == 0:
                        roots.append(t1)
                    elif v1 * v2 < 0:
                        lo, hi, vl = t1, t2, v1
                        for _ in range(80):
                            mid = (lo + hi) / 2
                            vm = val({k: mid})
                            if vm is None:
                                break
                            if vm * vl <= 0:
                                hi = mid
                            else:
                                lo = mid
                        roots.append(hi)
                for t in roots[:3]:
                    cand = [t * (1 + r) + r for r in (1e-7, -1e-7, 1e-5, -1e-5, 1e-3, -1e-3, 0.05, -0.05)]
                    if exact:
                        cand = [t] + cand
                    for u in cand:
                        mm = mk({k: u})
                        d = _disagree(mm, pc, kind, a, b, 1e-4)
                        if d is not None and d[0]:
                            bad += 1
                            wit = wit or (mm, d[1], d[2])
                    if bad >= 3:
                        return wit, bad
    return None


def _with(m, ov):
    m.ov = ov
    return m
