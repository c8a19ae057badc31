"""Loop rule.  A loop with a concrete trip count is unrolled.  Any other loop is summarised by inductive closed forms:
every location the body modifies is replaced by a placeholder, the body is executed once for an arbitrary iteration t,
and the transformation placeholder -> value after the iteration is solved (the solution S(t) satisfies S(0)=initial value
and S(t+1)=body(S(t)) by construction, so it is an inductive invariant for all iterations).  A location whose
transformation is not one of the recognised shapes becomes Havoc, and an obligation that depends on it is not discharged."""
from terms import *
from values import *
import values as V
import terms as T
from prove import decide, assume_in, ite_conds, prove_eq

UNROLL = 64
REG = {}
_n = [0]


# -------------------------------------------------------------------------------------------- placeholders and substitution
def token():
    _n[0] += 1
    return var("tok:%d" % _n[0], "I")


def ph_app(name, anc, args, sort="R"):
    if name not in T._subst_hooks:

        def hook(nargs, srt, name=name):
            a = the_atom(nargs[0])
            if a is not None and a in REG:
                if name in REG[a]:
                    return REG[a][name](*nargs[1:])
                nargs = (REG[a]["__anc__"],) + tuple(nargs[1:])
            return app(name, nargs, srt)

        T._subst_hooks[name] = hook
    return app(name, (anc,) + tuple(args), sort)


_rs = V.rot_subst


def rot_subst2(a, m, memo):
    if a.kind == "rvar" and a.args[1]:
        k = the_atom(a.args[1][0]) if isinstance(a.args[1][0], E) else None
        if k is not None and k in m:
            tk = the_atom(m[k])
            if tk in REG and a.args[0] in REG[tk]:
                args = [subst(x, m, memo) for x in a.args[1][1:]]
                return REG[tk][a.args[0]](*args)
            if tk in REG:
                return V.rvar(a.args[0], (a.args[1][0],) + tuple(subst(x, m, memo) for x in a.args[1][1:]))
    return _rs(a, m, memo)


V.rot_subst = rot_subst2


_ss = V.str_atom_subst


def str_atom_subst2(a, m, memo):
    if a.kind == "svar" and a.args[1]:
        k = the_atom(a.args[1][0]) if isinstance(a.args[1][0], E) else None
        if k is not None and k in m:
            tk = the_atom(m[k])
            if tk in REG and a.args[0] in REG[tk]:
                return REG[tk][a.args[0]](*[subst(x, m, memo) for x in a.args[1][1:]])
            if tk in REG:
                return Str([atom("svar", (a.args[0], (a.args[1][0],) + tuple(subst(x, m, memo) for x in a.args[1][1:])))])
    return _ss(a, m, memo)


V.str_atom_subst = str_atom_subst2


class PHIso:
    """placeholder for a rigid transform, usable as a primitive of Iso"""

    kind = "ph"

    def __init__(self, name, anc, args=()):
        self.name, self.anc, self.args = name, anc, tuple(args)
        self._k = (name, anc, self.args)

    def __eq__(self, o):
        return isinstance(o, PHIso) and self._k == o._k

    def __hash__(self):
        return hash(self._k)

    @property
    def free(self):
        return free_of((self.anc, self.args))

    @property
    def lvl(self):
        return level_of(self.args)

    def lin(self):
        return rotmat(rvar(self.name + ".R", (self.anc,) + self.args))

    def trans(self):
        return tuple(ph_app(self.name + ".t%d" % k, self.anc, self.args) for k in range(3))

    def subst_(self, m, memo):
        k = the_atom(self.anc)
        nargs = tuple(subst(x, m, memo) for x in self.args)
        if k in m:
            tk = the_atom(m[k])
            if tk in REG and self.name in REG[tk]:
                return REG[tk][self.name](*nargs)
        return Iso([(PHIso(self.name, self.anc, nargs), 1)])

    def __repr__(self):
        return "PH(%s)" % self.name


class PHV:
    """placeholder for a value without structure (a pointer held in a container)"""

    phval = True

    def __init__(self, name, anc, args=()):
        self.name, self.anc, self.args = name, anc, tuple(args)

    free = property(lambda s: free_of((s.anc, s.args)))
    lvl = property(lambda s: level_of(s.args))

    def same_(self, o):
        return (self.name, self.anc, self.args) == (o.name, o.anc, o.args)

    def subst_(self, m, memo):
        k = the_atom(self.anc)
        nargs = tuple(subst(x, m, memo) for x in self.args)
        if k in m:
            tk = the_atom(m[k])
            if tk in REG and self.name in REG[tk]:
                return REG[tk][self.name](*nargs)
        return PHV(self.name, self.anc, nargs)

    def __repr__(self):
        return "PH(%s)" % self.name


class PSeg(PHSeg):
    """placeholder for the content of a sequence at the loop head"""

    __slots__ = ("anc", "args")

    def __init__(self, name, n, cell, anc, args=()):
        PHSeg.__init__(self, name, n, cell)
        self.anc, self.args = anc, tuple(args)

    @property
    def free(self):
        return free_of((self.anc, self.n, self.args))

    def subst_(self, m, memo):
        raise AssertionError


_seq_subst = Seq.subst_


def seq_subst(self, m, memo):
    if not any(isinstance(s, PSeg) for s in self.segs):
        return _seq_subst(self, m, memo)
    out = []
    for s in self.segs:
        if isinstance(s, PSeg):
            nargs = tuple(subst(x, m, memo) for x in s.args)
            k = the_atom(s.anc)
            if k in m:
                tk = the_atom(m[k])
                if tk in REG and s.name in REG[tk]:
                    out += list(REG[tk][s.name](*nargs).segs)
                    continue
            mm = dict(m)
            out.append(PSeg(s.name, subst(s.n, m), (lambda c, mm: lambda q: subst_in(c, (q,), mm))(s.cell, mm), s.anc, nargs))
        else:
            out.append(s.subst_(m, memo))
    return Seq(out, self.ety)


Seq.subst_ = seq_subst

_seq_free = Seq.free.fget


def seq_free(self):
    r = _seq_free(Seq([s for s in self.segs if not isinstance(s, PSeg)])) if any(isinstance(s, PSeg) for s in self.segs) else _seq_free(self)
    for s in self.segs:
        if isinstance(s, PSeg):
            r = r | s.free
    return r


Seq.free = property(seq_free)


class Leaf:
    """one modified location"""

    def __init__(self, loc, path, init, name):
        self.loc, self.path, self.init, self.name = loc, path, init, name
        self.ph = None
        self.defs = {}  # placeholder function name -> selector on closed form value
        self.scal = {}  # scalar placeholder Atom -> selector
        self.closed = None  # function t -> value
        self.post = None
        self.keeplen = False
        self.ip = None  # set when the shape of elements is taken from their type
        self.names = set()

    def __repr__(self):
        return "%s%s" % (self.loc, "".join("." + str(p) for p in self.path))


def make_ph(lf, anc, v, args=(), name=None, sel=None):
    """placeholder value of the shape of v; registers how each placeholder atom is read off a closed-form value.
    args: index variables (for elements of sequences / matrices); sel: closed value, index args -> component"""
    name = name or lf.name
    sel = sel or (lambda val, *a: val)
    if args and isinstance(v, (Null, Ptr, Cond)):
        lf.defs[name] = lambda val, *a: sel(val, *a)
        return PHV(name, anc, args)
    if isinstance(v, Undef) or isinstance(v, (Null, Havoc, Ref, Lam)) or v is None:
        return v
    if isinstance(v, E):
        sort = "I" if v.isint else "R"
        lf.defs[name] = lambda val, *a: num(sel(val, *a)) if isinstance(sel(val, *a), (E, B)) else bad(sel(val, *a))
        return ph_app(name, anc, args, sort)
    if isinstance(v, B):
        def d(val, *a):
            x = sel(val, *a)
            return ite(x, ONE, ZERO) if isinstance(x, B) else num(x)

        lf.defs[name] = d
        return bnot(eq(ph_app(name, anc, args, "I"), 0))
    if isinstance(v, Mat):
        if v.rot is not None:
            # keep it a rotation
            lf.defs[name + ".R"] = lambda val, *a: need_rot(sel(val, *a))
            return rotmat(rvar(name + ".R", (anc,) + tuple(args)))
        out = []
        for i in range(v.r):
            for j in range(v.c):
                nm = "%s[%d,%d]" % (name, i, j)
                out.append(make_ph(lf, anc, v.at(i, j), args, nm, lambda val, *a, i=i, j=j: mat_at_any(sel(val, *a), i, j)))
        return Mat(v.r, v.c, out, None, v.rm)
    if isinstance(v, Iso):
        lf.defs[name] = lambda val, *a: sel(val, *a)
        lf.defs[name + ".R"] = lambda val, *a: need_rot(sel(val, *a).lin())
        for k in range(3):
            lf.defs[name + ".t%d" % k] = lambda val, *a, k=k: sel(val, *a).trans()[k]
        return Iso([(PHIso(name, anc, args), 1)])
    if isinstance(v, Struct):
        return type(v)(v.ty, {k: make_ph(lf, anc, x, args, name + "." + k, lambda val, *a, k=k: sel(val, *a).f[k]) for k, x in v.f.items()})
    if isinstance(v, Arr):
        return Arr([make_ph(lf, anc, x, args, "%s.%d" % (name, i), lambda val, *a, i=i: sel(val, *a).v[i]) for i, x in enumerate(v.v)])
    if isinstance(v, ArrV):
        return ArrV(make_ph(lf, anc, v.m, args, name, lambda val, *a: sel(val, *a).m))
    if isinstance(v, DMat):
        def cell(i, j):
            nm = name + ".c"
            lf.defs[nm] = lambda val, *a: to_dmat(sel(val, *a[:-2])).cell(a[-2], a[-1])
            return ph_app(nm, anc, tuple(args) + (i, j))

        cell(var("idx:?a", "I"), var("idx:?b", "I"))
        lf.defs[name + ".rows"] = lambda val, *a: to_dmat(sel(val, *a)).r
        lf.defs[name + ".cols"] = lambda val, *a: to_dmat(sel(val, *a)).c
        r = ph_app(name + ".rows", anc, args, "I") if getattr(lf, "growrows", False) else v.r
        return DMat(r, v.c, cell, v.rm)
    if isinstance(v, Seq):
        if lf.keeplen:
            n = v.length()
        else:
            n = ph_app("len:" + name, anc, args, "I")
        lf.defs["len:" + name] = lambda val, *a: sel(val, *a).length()

        def cellv(k):
            try:
                proto = v.at(var("idx:?e", "I"))
            except Unsupported:
                if v.segs or not v.ety or lf.ip is None:
                    raise
                import spec

                proto = spec.sym(lf.ip, v.ety, "proto")
            return make_ph(lf, anc, proto, tuple(args) + (k,), name + "[]", lambda val, *a: sel(val, *a[:-1]).at(a[-1]))

        if v.segs or (v.ety and lf.ip is not None):
            try:
                cellv(var("idx:?a", "I"))  # register the names
            except Unsupported:
                pass
        lf.defs[name] = lambda val, *a: sel(val, *a)
        return Seq([PSeg(name, n, cellv, anc, args)], v.ety)
    if isinstance(v, Str):
        lf.defs[name] = lambda val, *a: sel(val, *a)
        return Str([atom("svar", (name, (anc,) + tuple(args)))])
    if isinstance(v, Ptr):
        if v.off is None:
            raise Unsupported("object pointer modified in a loop")
        return v.to(make_ph(lf, anc, v.off, args, name + ".off", lambda val, *a: sel(val, *a).off))
    if hasattr(v, "ents"):
        import lib

        e = make_ph(lf, anc, v.ents, args, name + ".ents", lambda val, *a: sel(val, *a).ents)
        return lib.MapV(e, v.base, v.kty, v.vty)
    if isinstance(v, Quat):
        return Quat(None, [make_ph(lf, anc, x, args, "%s.q%d" % (name, i), lambda val, *a, i=i: sel(val, *a).coeffs()[i]) for i, x in enumerate(v.coeffs())])
    if hasattr(v, "ph_"):
        return v.ph_(lf, anc, args, name, sel)
    raise Unsupported("loop modifies a %s" % type(v).__name__)


def bad(v):
    raise Unsupported("value of type %s in a loop" % type(v).__name__)


def need_rot(m):
    if m.rot is None:
        raise Unsupported("rotation lost in a loop")
    return m.rot


def mat_at_any(m, i, j):
    if isinstance(m, DMat):
        return m.cell(num(i), num(j))
    if isinstance(m, Undef):
        raise Unsupported("uninitialised matrix entry")
    return m.at(i, j)


# ------------------------------------------------------------------------------------------------------------- differences
def diffs(pre, post, path, out):
    if pre is post:
        return
    if type(pre) is type(post):
        if isinstance(pre, Struct) and pre.f.keys() == post.f.keys():
            for k in pre.f:
                diffs(pre.f[k], post.f[k], path + (k,), out)
            return
        if isinstance(pre, Arr) and len(pre.v) == len(post.v):
            for i, (a, b) in enumerate(zip(pre.v, post.v)):
                diffs(a, b, path + (("i", num(i)),), out)
            return
        if isinstance(pre, Ref) and pre.loc == post.loc and pre.path == post.path:
            return
        if same(pre, post):
            return
    out.append(path)


def raw_get(v, path):
    for c in path:
        if isinstance(v, Struct):
            v = v.f[c]
        elif isinstance(v, Arr):
            v = v.v[int(c[1].const())]
        else:
            raise Unsupported("path")
    return v


def raw_set(v, path, x):
    if not path:
        return x
    c = path[0]
    if isinstance(v, Struct):
        d = dict(v.f)
        d[c] = raw_set(v.f[c], path[1:], x)
        return type(v)(v.ty, d)
    l = list(v.v)
    i = int(c[1].const())
    l[i] = raw_set(l[i], path[1:], x)
    return Arr(l)


def persistent(k):
    return k.startswith("g:") or k.startswith("static:")


# ------------------------------------------------------------------------------------------------------------------- driver
def run(ip, cond, body, inc, line):
    k = 0
    if getattr(ip, "widen", None) is not None:
        # a loop around a call with an arbitrary outcome: its result is arbitrary (invariant: true)
        n = ip.widen
        try:
            c = cond()
            ps = ip.explore(body) if c != FALSE else []
        finally:
            hit = ip.widen != n
        if hit:
            return arbitrary(ip, cond, body, inc, line)
    while True:
        c = cond()
        if c.k != "c":
            break
        if not c.a[0]:
            return
        k += 1
        if k > UNROLL:
            raise Unsupported("loop at line %s does not terminate within %d concrete iterations" % (line, UNROLL))
        try:
            body()
        except ContinueEx_():
            pass
        except BreakEx_():
            return
        if inc is not None:
            inc()
    symbolic(ip, cond, body, inc, line)


def ContinueEx_():
    import interp

    return interp.ContinueEx


def BreakEx_():
    import interp

    return interp.BreakEx


def modified(ip, cond, body, inc, anc, line):
    """locations that the body modifies, and the paths of one iteration with arbitrary values in them"""
    leaves = {}
    for rnd in range(12):
        ls = list(leaves.values())
        st = with_ph(ip, ls, anc)
        paths = iteration(ip, cond, body, inc, (), st)
        grew = False
        for p in paths:
            for l, v in p.mem.items():
                if l not in ip.mem:
                    if persistent(l):
                        ip.mem[l] = fresh_persistent(ip, l, p)
                        grew = True
                    continue
                out = []
                diffs(st.get(l, ip.mem[l]), v, (), out)
                for path in out:
                    if any(l == l2 and path[: len(p2)] == p2 for l2, p2 in leaves):
                        continue
                    for k2 in [k for k in leaves if k[0] == l and k[1][: len(path)] == path]:
                        del leaves[k2]
                    init = raw_get(ip.mem[l], path)
                    post = raw_get(v, path)
                    if isinstance(init, (Undef, Havoc)) or (isinstance(init, Seq) and not init.segs):
                        init = post
                    leaves[(l, path)] = Leaf(l, path, init, "wd%d_%d_%s" % (_ctr[0], len(leaves), l.split("#")[0]))
                    grew = True
        if not grew:
            return list(leaves.values()), paths, st
    raise Unsupported("loop at line %s: modified locations do not stabilise" % line)


def arbitrary(ip, cond, body, inc, line):
    """what holds after a loop whose invariant is `true`: every modified location has any value of its type"""
    import interp

    _ctr[0] += 1
    anc = var("anc:%d" % _ctr[0], "I")
    leaves, paths, st = modified(ip, cond, body, inc, anc, line)
    mem = dict(ip.mem)
    mem.update(st)
    outs = [interp.Path([], mem, "normal", None)]
    for p in paths:
        if p.kind in ("return", "throw"):
            outs.append(p)
    ip.resume(outs)


def entry_locs(ip):
    return set(ip.mem)


def iteration(ip, cond, body, inc, facts, state=None, want_cond=True):
    """paths of one iteration from the current memory"""

    def fn():
        if state is not None:
            ip.mem.update(state)
        if want_cond:
            c = cond()
            if c == FALSE:
                import interp

                raise interp.Dead()
            if c != TRUE and c not in ip.pc:
                ip.pc.append(c)
        try:
            body()
        except ContinueEx_():
            pass
        if inc is not None:
            inc()

    return ip.explore(fn, facts)


def with_ph(ip, leaves, anc):
    m = {}
    for lf in leaves:
        lf.defs = {}
        if getattr(ip, "widen", None) is not None:
            lf.ip = ip
        try:
            lf.ph = make_ph(lf, anc, lf.init)
        except Unsupported as e:
            lf.ph = Havoc(str(e))
        lf.names = set(lf.defs)
        base = m.get(lf.loc, ip.mem[lf.loc])
        m[lf.loc] = raw_set(base, lf.path, lf.ph)
    return m


_ctr = [0]


WIT = []  # indices at which a loop is left: constants of one run of that loop only


def least(n, f):
    """the first index below n at which f holds (n if there is none): the number of indices that no such index precedes or equals"""
    return summ(n, lambda k: ite(quant("ex", k + 1, f), ZERO, ONE))


def symbolic(ip, cond, body, inc, line):
    import interp

    _ctr[0] += 1
    wit0 = len(WIT)
    anc = var("anc:%d" % _ctr[0], "I")
    anca = the_atom(anc)
    # ---- 1. which locations does the body modify
    leaves = {}
    for rnd in range(12):
        ls = list(leaves.values())
        st = with_ph(ip, ls, anc)
        paths = iteration(ip, cond, body, inc, (), st)
        grew = False
        for p in paths:
            for l, v in p.mem.items():
                if l not in ip.mem:
                    if persistent(l):
                        # first use of a static / global inside the loop: its initial value exists before
                        ip.mem[l] = fresh_persistent(ip, l, p)
                        grew = True
                    continue
                pre = st.get(l, ip.mem[l])
                out = []
                diffs(pre, v, (), out)
                for path in out:
                    if (l, path) in leaves:
                        continue
                    # a leaf above or below an existing one: keep the upper
                    if any(l == l2 and path[: len(p2)] == p2 for l2, p2 in leaves):
                        continue
                    for k2 in [k for k in leaves if k[0] == l and k[1][: len(path)] == path]:
                        del leaves[k2]
                    leaves[(l, path)] = Leaf(l, path, raw_get(ip.mem[l], path), "ph%d_%d" % (_ctr[0], len(leaves)) + "_" + l.split("#")[0])
                    grew = True
        if not grew:
            break
    else:
        raise Unsupported("loop at line %s: modified locations do not stabilise" % line)
    leaves = list(leaves.values())
    for i, lf in enumerate(leaves):
        lf.name = "ph%d_%d_%s" % (_ctr[0], i, lf.loc.split("#")[0])

    def merged_post(paths, simp=None):
        normal = [p for p in paths if p.kind in ("normal",)]
        if not normal:
            return None
        post = {}
        conds = [p.cond() for p in normal]
        for lf in leaves:
            v = None
            for p, c in zip(reversed(normal), reversed(conds)):
                x = raw_get(p.mem[lf.loc], lf.path)
                if simp:
                    x = simplify_val(ip, x, simp)
                if v is None:
                    v = x
                elif x is not v:
                    try:
                        v = vite(c, x, v)
                    except CannotMerge as e:
                        v = Havoc("merge in a loop: %s" % e)
            post[lf] = v
        return post

    # ---- 2. counters and trip count
    st = with_ph(ip, leaves, anc)
    paths = iteration(ip, cond, body, inc, (), st)
    post = merged_post(paths)
    if post is None:
        # every iteration completes abruptly: at most one iteration
        return once(ip, cond, body, inc, line)
    un = lambda v: v.m if isinstance(v, ArrV) else v
    grow = [lf for lf in leaves if isinstance(un(lf.ph), DMat) and isinstance(un(post[lf]), (DMat, Mat)) and to_dmat(post[lf]).r != un(lf.ph).r and to_dmat(post[lf]).c == un(lf.ph).c]
    if grow:
        # a matrix that grows row by row
        for lf in grow:
            lf.growrows = True
        st = with_ph(ip, leaves, anc)
        paths = iteration(ip, cond, body, inc, (), st)
        post = merged_post(paths)
    for lf in leaves:
        if isinstance(lf.init, Seq) and isinstance(post[lf], Seq) and isinstance(lf.ph, Seq):
            lf.keeplen = post[lf].length() == lf.ph.length()
    t = fresh("idx")
    ta = the_atom(t)
    counters = {}
    for lf in leaves:
        d = step(lf, post[lf])
        if d is not None and d.const() is not None:
            counters[lf] = d
    for lf in leaves:
        lf.closed = None
        if lf in counters:
            lf.closed = closed_counter(lf, counters[lf])
    N, brk = trip_count(ip, cond, leaves, counters, anc, t, line)
    ip.loop_log.append((line, N))
    # ---- 3. one arbitrary iteration with closed-form counters
    others = [lf for lf in leaves if lf not in counters]
    st = with_ph(ip, others, anc)
    for lf in counters:
        lf.defs = {}
        base = st.get(lf.loc, ip.mem[lf.loc])
        st[lf.loc] = raw_set(base, lf.path, lf.closed(t))
    facts = [lt(t, N), le(0, t)]
    stop = []
    if brk != TRUE:
        # a loop condition that is not a plain bound: ends the loop when it fails
        def cfn():
            ip.mem.update(st)
            c = cond()
            return c

        cps = ip.explore(cfn, facts)
        cc = ip._merge_vals(cps, [p.cond() for p in cps])
        cc = simplify_under(ip, cc, facts)
        stop.append(bnot(cc))
    paths = iteration(ip, cond, body, inc, facts, st, want_cond=(brk != TRUE))
    paths = [strip_facts(p, facts) for p in paths]
    abrupt = [p for p in paths if p.kind != "normal"]
    normal = [p for p in paths if p.kind == "normal"]
    post = merged_post(paths, facts)
    if post is None:
        post = {lf: lf.ph for lf in others}
    # ---- 4. closed forms
    solve(ip, others, post, anc, t, line, frozenset(WIT[wit0:]))
    if getattr(ip, "widen", None) is not None and not abrupt and not stop:
        for lf in others:
            if isinstance(lf.closed(N), Havoc):
                # arbitrary after the loop (invariant: true)
                _ctr[0] += 1
                w = Leaf(lf.loc, lf.path, lf.init, "wd%d_%s" % (_ctr[0], lf.loc.split("#")[0]))
                w.keeplen, w.ip = lf.keeplen, lf.ip
                try:
                    v = make_ph(w, var("anc:%d" % _ctr[0], "I"), lf.init)
                except Unsupported:
                    continue
                ip.widened = getattr(ip, "widened", []) + [(lf.loc, lf.path, v)]
                # what one iteration does: value before the loop, before and after iteration t of N
                ip.steps = getattr(ip, "steps", []) + [(lf.loc, lf.path, lf.init, lf.ph, post[lf], t, N, v)]
                lf.closed = const_fun(v)
    mst = state_map(others, anc)
    # ---- 5. outcomes
    mt = mst(t)

    def close(x, m):
        return subst(x, m)

    def final_mem(T_, base=None):
        mem = dict(ip.mem)
        for lf in leaves:
            mem[lf.loc] = raw_set(mem[lf.loc], lf.path, lf.closed(T_))
        return mem

    outs = []
    Acond = list(stop)
    Ac = []
    for p in abrupt:
        c = band(*[simplify_val(ip, x, facts) for x in (close(q, mt) for q in p.pc)])
        Ac.append(c)
    stopc = [close(c, mt) for c in stop]
    Aall = bor(*(Ac + stopc))
    Afun = lambda k: subst(Aall, {ta: k})
    if Aall == FALSE:
        nm = final_mem(N)
        ip.mem = nm
        return
    exA = quant("ex", N, Afun)
    none = bnot(exA)
    outs.append(interp.Path([none], final_mem(N), "normal", None))
    mine = set(ip.mem)
    for p, c in list(zip(abrupt, Ac)) + [(None, c) for c in stopc]:
        if c == FALSE:
            continue
        fs = fresh("idx")
        WIT.append(the_atom(fs))
        mm = dict(mst(fs))
        mm[ta] = fs
        if p is None:
            mem = final_mem(fs)
            kind, val = "normal", None
        else:
            mem = {}
            for l, v in p.mem.items():
                if l in ip.mem:
                    if v is st.get(l, ip.mem[l]) and l not in st:
                        mem[l] = ip.mem[l]
                    else:
                        mem[l] = close_val(v, mm)
                elif persistent(l):
                    mem[l] = v
                else:
                    mem[l] = close_val(v, mm)
            kind, val = p.kind, close_val(p.val, mm) if p.val is not None else None
            if kind == "break":
                kind = "normal"
            if kind == "continue":
                kind = "normal"
        fsa = the_atom(fs)
        dep = val is not None and fsa in free_any(val)
        depl = [l for l in mem if l in ip.mem and mem[l] is not ip.mem[l] and fsa in free_any(mem[l])]
        if kind in ("return", "throw") and not dep:
            e = getattr(ip, "entry_n", 0)
            loc_ok = [l for l in depl if "#" in l and int(l.split("#")[1]) > e]
            if len(loc_ok) == len(depl):
                for l in depl:
                    mem[l] = Havoc("local after loop exit")
                depl = []
        if not dep and not depl:
            if len(Ac) + len(stopc) == 1:
                pc = [exA]
            else:
                # the first abrupt iteration takes this exit
                pc = [lt(fs, N), le(0, fs), subst(c, {ta: fs}), bnot(quant("ex", fs, Afun))]
                if all(kind_const(q) for q in abrupt) and not stopc and len({kind_key(q) for q in abrupt}) == 1:
                    pc = [exA]
                    outs.append(interp.Path(pc, mem, kind, val))
                    break
        else:
            pc = [exA, lt(fs, N), le(0, fs), subst(c, {ta: fs}), bnot(quant("ex", fs, Afun))]
        if getattr(ip, "widen", None) is not None and len(Ac) + len(stopc) == 1:
            # the index as a function of what the loop inspects
            lm = {fsa: least(N, Afun)}
            pc = [subst(q, lm) for q in pc]
            mem = {l: subst(v, lm) if fsa in free_any(v) else v for l, v in mem.items()}
            val = subst(val, lm) if val is not None and dep else val
        outs.append(interp.Path([q for q in pc if q != TRUE], mem, kind, val))
    ip.resume(outs)


def kind_const(p):
    return p.kind in ("return", "throw") and not (p.val is not None and free_any(p.val))


def kind_key(p):
    v = p.val
    return (p.kind, repr(v) if not isinstance(v, Struct) else v.ty)


def free_any(v):
    try:
        return free_of(v)
    except Exception:
        return frozenset()


def close_val(v, m):
    if v is None:
        return None
    return subst(v, m)


def strip_facts(p, facts):
    import interp

    fs = set(facts)
    return interp.Path([q for q in p.pc if q not in fs], p.mem, p.kind, p.val)


def simplify_under(ip, c, facts):
    if c.k == "and":
        parts = []
        for x in c.a:
            if decide(ip.pc + facts, x) is True:
                continue
            parts.append(x)
        return band(*parts)
    return c


def simplify_val(ip, v, facts):
    """resolve the ite conditions of v that the facts about the iteration decide"""
    keys = set()
    for f in facts:
        keys |= set(f.free)
    keys = {a for a in keys if a.kind == "var" and a.args[0].startswith("idx:")}

    def sv(x):
        for _ in range(20):
            ch = False
            for c in ite_conds(x):
                if not c.loose and keys & c.free and c.k in ("le", "lt", "eq", "not", "and", "or"):
                    d = decide(list(ip.pc) + list(facts), c)
                    if d is not None:
                        x = assume_in(x, c, d)
                        ch = True
                        break
            if not ch:
                break
        return x

    return map_scal(v, sv)


def map_scal(v, f):
    if isinstance(v, (E, B)):
        return f(v)
    if isinstance(v, Mat):
        e = tuple(f(x) for x in v.e)
        return v if e == v.e else Mat(v.r, v.c, e, v.rot, v.rm)
    if isinstance(v, Struct):
        return type(v)(v.ty, {k: map_scal(x, f) for k, x in v.f.items()})
    if isinstance(v, Arr):
        return Arr([map_scal(x, f) for x in v.v])
    if isinstance(v, tuple):
        return tuple(map_scal(x, f) for x in v)
    if isinstance(v, Iso):
        r = Iso()
        for p, s in v.w:
            if isinstance(p, RT):
                x = iso_rt(map_scal(p.l, f), tuple(f(y) for y in p.t))
            elif isinstance(p, IteP):
                x = vite(f(p.c), map_scal(p.a, f), map_scal(p.b, f))
            else:
                x = Iso([(p, 1)])
            r = r * (x if s > 0 else x.inv())
        return r
    if isinstance(v, Seq):
        if all(isinstance(s, (Items, If, PSeg)) for s in v.segs):
            out = []
            for s in v.segs:
                if isinstance(s, Items):
                    out.append(Items([map_scal(x, f) for x in s.v]))
                elif isinstance(s, If):
                    out.append(If(f(s.c), map_scal(s.s, f)))
                else:
                    out.append(s)
            return Seq(out, v.ety)
        return v
    return v


def fresh_persistent(ip, l, p):
    v = p.mem[l]
    # value right after initialisation is not known if the body modified it; statics here are engines / constants
    if isinstance(v, Struct) and v.ty == "rng":
        return v
    return v


def once(ip, cond, body, inc, line):
    """the body never completes normally: if (cond) body"""
    import interp

    def fn():
        c = cond()
        if ip.branch(c):
            body()
            raise Unsupported("loop at line %s" % line)

    try:
        ip.run_merged(fn)
    except BreakEx_():
        pass


# -------------------------------------------------------------------------------------------------------------- trip count
def scalar_of(v):
    if isinstance(v, E):
        return v
    if isinstance(v, Ptr) and v.off is not None:
        return v.off
    return None


def step(lf, post):
    a, b = scalar_of(lf.ph), scalar_of(post)
    if a is None or b is None or not a.isint:
        return None
    if isinstance(post, Ptr) and (post.loc, post.path) != (lf.ph.loc, lf.ph.path):
        return None
    d = b - a
    return d


def closed_counter(lf, d):
    i = lf.init
    if isinstance(i, Ptr):
        return lambda t: i.to(i.off + d * t)
    return lambda t: i + d * t


def trip_count(ip, cond, leaves, counters, anc, t, line):
    """(N, rest): the loop runs while t < N and `rest` (TRUE when the bound is the whole condition)"""
    ta = the_atom(t)
    others = [lf for lf in leaves if lf not in counters]
    st = with_ph(ip, others, anc)
    for lf in counters:
        base = st.get(lf.loc, ip.mem[lf.loc])
        st[lf.loc] = raw_set(base, lf.path, lf.closed(t))

    def fn():
        ip.mem.update(st)
        return cond()

    ps = ip.explore(fn)
    if any(p.kind != "normal" for p in ps):
        raise Unsupported("loop condition at line %s" % line)
    c = ip._merge_vals(ps, [p.cond() for p in ps])
    phs = set()
    parts = list(c.a) if c.k == "and" else [c]
    bound = None
    rest = []
    anca = the_atom(anc)
    for q in parts:
        b = None
        if anca not in q.free:
            b = bound_of(ip, q, ta)
        if b is None:
            rest.append(q)
        elif bound is None:
            bound = b
        else:
            bound = ite(le(bound, b), bound, b)
    if bound is None:
        raise Unsupported("loop at line %s has no recognised bound: %s" % (line, show(c)))
    return bound, band(*rest)


def bound_of(ip, q, ta):
    def affine(p):
        k = F0
        rest = ZERO
        for m, c in p.t:
            if m == ((ta, 1),):
                k = c
            elif any(ta in a.free for a, e in m):
                return None
            else:
                rest = rest + (E(((m, c),)) if m else num(c))
        return k, rest

    if q.k == "le":
        r = affine(q.a[0])
        if r is None or r[0] <= 0:
            return None
        k, p0 = r
        # k*t + p0 <= 0  <=>  t < floor(-p0/k) + 1
        if k == 1:
            n = ONE - p0
        else:
            n = T.idiv(-p0, num(k)) + 1
    elif q.k == "not" and q.a[0].k == "eq":
        r = affine(q.a[0].a[0])
        if r is None or abs(r[0]) != 1:
            return None
        n = scale(r[1], -1 / r[0])
    else:
        return None
    if n.const() is not None:
        return n if n.const() >= 0 else ZERO
    if lt0(n) == FALSE:
        return n
    d = decide(ip.pc, le(0, n))
    if d is True:
        return n
    if d is False:
        return ZERO
    return ite(le(0, n), n, ZERO)


# ------------------------------------------------------------------------------------------------------------ closed forms
def uses(v, leaves, anc):
    """which placeholders occur in v"""
    names = set()
    _names(v, set(), names)
    return [lf for lf in leaves if lf.names & names]


def _names(x, seen, out):
    if isinstance(x, (E, B, Atom)):
        if x in seen:
            return
        seen.add(x)
    if isinstance(x, E):
        for m, c in x.t:
            for a, e in m:
                _names(a, seen, out)
    elif isinstance(x, B):
        for y in x.a:
            _names(y, seen, out)
    elif isinstance(x, Atom):
        if x.kind == "app":
            out.add(x.args[0])
        elif x.kind in ("rvar", "svar"):
            out.add(x.args[0])
        for y in x.args:
            _names(y, seen, out)
    elif isinstance(x, tuple):
        for y in x:
            _names(y, seen, out)
    elif isinstance(x, W):
        for a, s in x.w:
            _names(a, seen, out)
    elif isinstance(x, Mat):
        _names(x.e, seen, out)
    elif isinstance(x, Iso):
        for p, s in x.w:
            _names(p, seen, out)
    elif isinstance(x, PHIso):
        out.add(x.name)
        _names(x.args, seen, out)
    elif isinstance(x, RT):
        _names((x.l, x.t), seen, out)
    elif isinstance(x, PHV):
        out.add(x.name)
        _names(x.args, seen, out)
    elif isinstance(x, (Cond, IteP)):
        _names((x.c, x.a, x.b), seen, out)
    elif isinstance(x, Fold):
        _names((x.n, x.body), seen, out)
    elif isinstance(x, Struct):
        for y in x.f.values():
            _names(y, seen, out)
    elif isinstance(x, Arr):
        _names(tuple(x.v), seen, out)
    elif isinstance(x, Seq):
        for s in x.segs:
            if isinstance(s, Items):
                _names(tuple(s.v), seen, out)
            elif isinstance(s, PSeg):
                out.add(s.name)
                _names(s.args, seen, out)
            elif isinstance(s, Fun):
                _names((s.n, s.cell(var("idx:?n%d" % len(seen), "I"))), seen, out)
            elif isinstance(s, Gen):
                _names((s.n, s.f(var("idx:?n%d" % len(seen), "I"))), seen, out)
            elif isinstance(s, If):
                _names((s.c, s.s), seen, out)
    elif isinstance(x, DMat):
        _names((x.r, x.c, x.cell(var("idx:?na", "I"), var("idx:?nb", "I"))), seen, out)
    elif isinstance(x, Quat):
        _names(x.coeffs(), seen, out)
    elif isinstance(x, Ptr):
        _names((x.path, x.off), seen, out)
    elif isinstance(x, Str):
        for y in x.p:
            _names(y, seen, out)
    elif hasattr(x, "ents"):
        _names(x.ents, seen, out)
    elif isinstance(x, ArrV):
        _names(x.m, seen, out)
    elif isinstance(x, AA):
        _names(tuple(getattr(x, k) for k in x.__slots__), seen, out)
    elif isinstance(x, (Null, Undef, Havoc, Ref, str, int, float, Fraction, type(None))) or type(x).__name__ in ("Lam", "MemFn", "FnRef"):
        pass
    else:
        raise Unsupported("placeholders of a %s" % type(x).__name__)


def state_map(leaves, anc):
    """t -> substitution replacing every placeholder by its closed form at t"""
    anca = the_atom(anc)
    cache = {}

    def f(t):
        if t in cache:
            return cache[t]
        tk = token()
        d = {}
        for lf in leaves:
            if lf.closed is None:
                continue
            val = {}

            def getval(lf=lf, val=val):
                if "v" not in val:
                    val["v"] = lf.closed(t)
                return val["v"]

            for nm, sel in lf.defs.items():
                d[nm] = lambda *a, sel=sel, getval=getval: sel(getval(), *a)
        d["__anc__"] = anc
        REG[the_atom(tk)] = d
        cache[t] = {anca: tk}
        return cache[t]

    return f


def solve(ip, leaves, post, anc, t, line, wit=frozenset()):
    ta = the_atom(t)
    pending = list(leaves)
    for lf in pending:
        lf.closed = None
        if isinstance(lf.ph, Havoc) and not isinstance(post[lf], Havoc):
            lf.ph = Havoc("x")
        if wit and not isinstance(post[lf], Havoc) and wit & free_any(post[lf]):
            # an index that an inner loop found in this iteration is another one in the next iteration
            post[lf] = Havoc("loop at line %s: depends on where a loop inside of it is left" % line)
    progress = True
    while pending and progress:
        progress = False
        for lf in list(pending):
            P = post[lf]
            if isinstance(P, Havoc):
                lf.closed = const_fun(P)
                pending.remove(lf)
                progress = True
                continue
            dep = [x for x in uses(P, leaves, anc) if x is not lf and x.closed is None]
            if dep:
                continue
            solved = [x for x in leaves if x.closed is not None]
            if any(isinstance(x.closed(t), Havoc) for x in uses(P, solved, anc) if x is not lf):
                r = None
            else:
                m = state_map(solved, anc)(t)
                P = subst(P, m) if solved else P
                try:
                    r = solve_leaf(ip, lf, P, anc, t)
                except Unsupported as e:
                    r = None
                    lf.why = str(e)
            if r is None:
                h = Havoc("loop at line %s: %s" % (line, getattr(lf, "why", "unrecognised update of %r: %r" % (lf, P))[:400]))
                lf.closed = const_fun(h)
            else:
                lf.closed = memo1(r)
            pending.remove(lf)
            progress = True
    for lf in pending:
        lf.closed = const_fun(Havoc("loop at line %s: mutually dependent update of %r" % (line, lf)))


def const_fun(v):
    return lambda t: v


def memo1(f):
    c = {}

    def g(t):
        if t not in c:
            c[t] = f(t)
        return c[t]

    return g


def self_free(lf, v):
    names = set()
    _names(v, set(), names)
    return not (lf.names & names)


def solve_leaf(ip, lf, P, anc, t):
    """closed form t -> value of the recurrence X(0)=init, X(s+1)=P[X:=X(s), t:=s]"""
    X, I = lf.ph, lf.init
    return rec(ip, lf, P, X, I, anc, t)


def rec(ip, lf, P, X, I, anc, t):
    ta = the_atom(t)
    at = lambda v, k: subst(v, {ta: num(k)})
    if isinstance(X, Undef) or isinstance(X, (Null, Havoc)) or isinstance(I, Undef):
        if self_free(lf, P):
            return lambda k: vite(eq(k, 0), I, at(P, num(k) - 1)) if not isinstance(I, Undef) else at(P, num(k) - 1)
        return None
    if same(P, X):
        return lambda k: I
    if isinstance(X, (PHV, Str)):
        if self_free(lf, P):
            return lambda k: vite(eq(k, 0), I, at(P, num(k) - 1))
        return val_cell(lf, P, X, I, t)
    if isinstance(X, B) or isinstance(P, B):
        return rec_bool(ip, lf, P, X, I, anc, t)
    if isinstance(X, E):
        return rec_num(ip, lf, num(P), X, I, anc, t)
    if self_free(lf, P) and not isinstance(X, (Seq, DMat)):
        return lambda k: vite(eq(k, 0), I, at(P, num(k) - 1))
    if isinstance(X, Mat) and isinstance(P, Mat):
        fs = [rec(ip, lf, p, x, i, anc, t) for p, x, i in zip(P.e, X.e, I.e)]
        if any(f is None for f in fs):
            return None
        return lambda k: Mat(X.r, X.c, [f(k) for f in fs], None, X.rm)
    if isinstance(X, Iso) and isinstance(P, Iso):
        return rec_iso(ip, lf, P, X, I, anc, t)
    if isinstance(X, Struct) and isinstance(P, Struct) and X.f.keys() == P.f.keys():
        fs = {k: rec(ip, lf, P.f[k], X.f[k], I.f[k], anc, t) for k in X.f}
        if any(f is None for f in fs.values()):
            return None
        return lambda q: type(X)(X.ty, {k: f(q) for k, f in fs.items()})
    if isinstance(X, Arr) and isinstance(P, Arr):
        fs = [rec(ip, lf, p, x, i, anc, t) for p, x, i in zip(P.v, X.v, I.v)]
        if any(f is None for f in fs):
            return None
        return lambda k: Arr([f(k) for f in fs])
    if isinstance(X, Quat) and isinstance(P, Quat):
        fs = [rec(ip, lf, p, x, i, anc, t) for p, x, i in zip(P.coeffs(), X.coeffs(), I.coeffs())]
        if any(f is None for f in fs):
            return None
        return lambda k: Quat(None, [f(k) for f in fs])
    if isinstance(X, ArrV) and isinstance(P, ArrV):
        f = rec(ip, lf, P.m, X.m, I.m, anc, t)
        return (lambda k: ArrV(f(k))) if f else None
    if isinstance(X, DMat) and isinstance(P, (DMat, Mat)):
        P = to_dmat(P)
        if P.r != X.r or P.c != X.c:
            if self_free(lf, P):
                return lambda k: vite(eq(k, 0), I, at(P, num(k) - 1))
            return grow_rows(ip, lf, P, X, I, anc, t)

        def cells(k):
            i, j = ZERO if X.r == ONE else fresh("idx"), ZERO if X.c == ONE else fresh("idx")
            f = rec(ip, lf, P.cell(i, j), X.cell(i, j), I.cell(i, j), anc, t)
            if f is None:
                raise Unsupported("matrix update")
            v = f(num(k))
            m = lambda a, b: subst(v, {the_atom(x): num(y) for x, y in ((i, a), (j, b)) if the_atom(x) is not None})
            return DMat(I.r, I.c, m, X.rm)

        try:
            cells(t)
        except Unsupported:
            return segment_write(ip, lf, P, X, I, t)
        return cells
    if isinstance(X, Seq) and isinstance(P, Seq):
        return rec_seq(ip, lf, P, X, I, anc, t)
    if hasattr(X, "ents") and hasattr(P, "ents"):
        import lib

        f = rec(ip, lf, P.ents, X.ents, I.ents, anc, t)
        if f is None:
            return None
        return lambda k: lib.MapV(f(k), I.base, I.kty, I.vty)
    if isinstance(X, Ptr) and isinstance(P, Ptr) and (X.loc, X.path) == (P.loc, P.path) and X.off is not None:
        f = rec(ip, lf, P.off, X.off, I.off, anc, t)
        return (lambda k: Ptr(I.loc, I.path, f(k))) if f else None
    if hasattr(X, "rec_"):
        return X.rec_(lambda p, x, i: rec(ip, lf, p, x, i, anc, t), P, I)
    return None


def grow_rows(ip, lf, P, X, I, anc, t):
    """rows appended by every iteration: the old rows stay, n(t) new ones follow"""
    ta = the_atom(t)
    n = P.r - X.r
    if P.c != X.c or not self_free(lf, n):
        return None
    i, j, q = fresh("idx"), fresh("idx"), fresh("idx")
    ia, ja, qa = the_atom(i), the_atom(j), the_atom(q)
    inc = (le(0, j), lt(j, X.c), le(0, X.r), le(0, n))
    old = simplify_val(ip, P.cell(i, j), (le(0, i), lt(i, X.r)) + inc)
    if old != X.cell(i, j):
        return None
    new = simplify_val(ip, P.cell(X.r + q, j), (le(0, q), lt(q, n)) + inc)
    if not self_free(lf, new):
        return None

    def res(k):
        def row(b):
            item = lambda s: Seq([Fun(subst(n, {ta: s}), lambda a: subst(new, {ta: s, qa: a, ja: b}))])
            return Seq([Fun(I.r, lambda a: I.cell(a, b)), Gen(num(k), item)])

        return DMat(row(ZERO).length(), I.c, lambda a, b: row(b).at(a), X.rm)

    return res


def growth(e, ta, t):
    """e(t+1) - e(t), the sums up to t grow by their element t"""
    r = ZERO
    for m, c in e.t:
        a = m[0][0] if len(m) == 1 and m[0][1] == 1 else None
        if a is not None and a.kind == "sum" and a.args[0] == t and ta not in a.args[2].free:
            r = r + num(c) * subst(a.args[2], {the_atom(bv(a.args[1])): t})
        else:
            x = E(((m, c),))
            r = r + subst(x, {ta: t + 1}) - x
    return r


def segment_write(ip, lf, P, X, I, t):
    """iteration t writes the rows lo(t) ... lo(t+1)-1 of X, one segment after the other"""
    ta = the_atom(t)
    i, j, q = fresh("idx"), fresh("idx"), fresh("idx")
    by_row = X.c == ONE or X.r != ONE  # else a row vector, written by columns
    pos = (lambda v, a, b: v.cell(a, b)) if by_row else (lambda v, a, b: v.cell(b, a))
    ia, ja, qa = the_atom(i), the_atom(j), the_atom(q)
    other = X.c if by_row else X.r
    if other == ONE:
        j, ja = ZERO, None
    Pc, Xc = pos(P, i, j), pos(X, i, j)
    if not (isinstance(Pc, E) and isinstance(Xc, E)):
        return None
    bounds, seen = [], set()

    def scan(b):
        if b in seen:
            return
        seen.add(b)
        if b.k in ("le", "lt"):
            e = b.a[0] if len(b.a) == 1 else b.a[0] - b.a[1]
            c = {m[0][0]: c for m, c in e.t if len(m) == 1 and m[0][1] == 1}.get(ia)
            if c in (1, -1):
                o = e - c * i
                if ia not in o.free and ta in o.free:
                    bounds.append(o if c == -1 else -o)
        elif b.k in ("and", "or", "not"):
            for y in b.a:
                scan(y)

    for c in ite_conds(Pc):
        scan(c)
    inc = (le(0, j), lt(j, other)) if ja is not None else ()
    for lo0 in bounds:
        for lo in (lo0, lo0 + 1, lo0 - 1):
            n = growth(lo, ta, t)
            hi = lo + n
            if not (self_free(lf, lo) and n.isint) or decide(list(ip.pc) + [le(0, t)], le(0, n)) is not True:
                continue
            if simplify_val(ip, Pc, (lt(i, lo),) + inc) != Xc or simplify_val(ip, Pc, (le(hi, i),) + inc) != Xc:
                continue
            new = simplify_val(ip, subst(Pc, {ia: lo + q}), (le(0, q), lt(q, n)) + inc)
            if not self_free(lf, new):
                continue
            s0 = subst(lo, {ta: ZERO})

            def res(k):
                def line(b):
                    sub = {} if ja is None else {ja: b}
                    return Seq([Gen(num(k), lambda s: Seq([Fun(subst(n, {ta: s}), lambda a: subst(new, {ta: s, qa: a, **sub}))]))])

                def cell(a, b):
                    if not by_row:
                        a, b = b, a
                    return vite(band(le(s0, a), lt(a, subst(lo, {ta: num(k)}))), line(b).at(num(a) - s0), pos(I, a, b))

                return DMat(I.r, I.c, cell, X.rm)

            return res
    return None


def eq_parts(b, acc, seen):
    if b in seen:
        return
    seen.add(b)
    if b.k == "eq":
        acc.append(b)
    elif b.k in ("and", "or", "not"):
        for y in b.a:
            eq_parts(y, acc, seen)


def write_conds(P, t, X):
    """equations e(t) == index occurring in ite conditions of P, solvable for t"""
    import lib

    ta = the_atom(t)
    acc, seen = [], set()
    for c in ite_conds(P):
        eq_parts(c, acc, seen)
    if isinstance(P, B):
        eq_parts(P, acc, seen)
    out = []
    for b in acc:
        if ta in b.free:
            e = lib.solve_for(b.a[0], ta)
            if e is not None and e.isint:
                out.append((b, e))
    return out


def cell_write(ip, lf, P, X, I, anc, t):
    """P = (t == e) ? v : X"""
    ta = the_atom(t)
    for c, e in write_conds(P, t, X):
        if ta in e.free:
            continue
        Pf = assume_in(P, c, False)
        if Pf == X or (not isinstance(P, B) and prove_eq([bnot(c)], Pf, X).status == "proved"):
            xa = None
            if isinstance(X, B):
                xb = X.a[0] if X.k == "not" else X
                xa = the_atom(xb.a[0]) if xb.k == "eq" else None
            else:
                xa = the_atom(X)
            # the old content is made opaque first: its indices must not be rewritten by the equations of the branch
            xv = fresh("old")
            Pt = assume_in(subst(P, {xa: xv}) if xa is not None else P, c, True)
            v = subst(Pt, {ta: e})
            if xa is not None:
                v = subst(v, {xa: xv})  # the cell's old content written as the element of this iteration
            if not self_free(lf, v):
                return None
            v = subst(v, {the_atom(xv): ite(I, ONE, ZERO) if isinstance(I, B) else num(I)})
            return lambda k: ite(band(le(0, e), lt(e, k)), v, I)
    return None


def strided_write(ip, lf, P, X, I, anc, t):
    """iteration t writes some of the cells m*t, ..., m*t + m-1 (m > 1): cell i is split into i = m*q + r and solved for every r"""
    import lib

    ta = the_atom(t)
    if not isinstance(X, E):
        return None
    atoms = {a for a in X.free if a.sort == "I" and a.kind == "var" and a.args[0].startswith("idx:") and a is not ta}
    seen, cand = set(), set()

    def scan(b):
        if b in seen:
            return
        seen.add(b)
        if b.k in ("eq", "le", "lt"):
            d = {m[0][0]: c for m, c in b.a[0].t if len(m) == 1 and m[0][1] == 1}
            if ta in d:
                for a in atoms:
                    if a in d and (d[ta] / d[a]).denominator == 1 and 1 < abs(d[ta] / d[a]) <= 16:
                        cand.add((a, int(abs(d[ta] / d[a]))))
        elif b.k in ("and", "or", "not"):
            for y in b.a:
                scan(y)

    for c in ite_conds(P):
        scan(c)
    for a, m in cand:
        q = fresh("idx")
        fs = []
        for r in range(m):
            mp = {a: q * m + r}
            Pr, Xr, Ir = (subst(v, mp) for v in (P, X, I))
            if Pr == Xr:
                f = (lambda Ir: lambda k: Ir)(Ir)
            elif self_free(lf, Pr):
                f = None
            else:
                f = cell_write(ip, lf, Pr, Xr, Ir, anc, t)
            if f is None:
                break
            fs.append(f)
        if len(fs) < m:
            continue
        i = of_atom(a)
        dv, md = idiv(i, num(m)), imod(i, num(m))
        back = {the_atom(q): dv}

        def res(k):
            v = subst(fs[m - 1](k), back)
            for r in range(m - 2, -1, -1):
                v = ite(eq(md, r), subst(fs[r](k), back), v)
            return v

        return res
    return None


def rec_num(ip, lf, P, X, I, anc, t):
    ta = the_atom(t)
    at = lambda v, k: subst(v, {ta: num(k)})
    if P == X:
        return lambda k: I
    D = P - X
    if self_free(lf, D):
        w = cell_write(ip, lf, P, X, I, anc, t)
        if w is not None:
            return w
        return lambda k: I + summ(k, lambda s: at(D, s))
    if self_free(lf, P):
        return lambda k: ite(eq(k, 0), I, at(P, num(k) - 1))
    w = cell_write(ip, lf, P, X, I, anc, t)
    if w is not None:
        return w
    # P = c ? v : X with v constant over the iterations
    if len(P.t) <= 4:
        for c in ite_conds(P):
            if not self_free(lf, c):
                continue
            a, b = assume_in(P, c, True), assume_in(P, c, False)
            if b == X:
                v, cc = a, c
            elif a == X:
                v, cc = b, bnot(c)
            else:
                # conditional increment
                if self_free(lf, a - X) and self_free(lf, b - X):
                    DD = ite(c, a - X, b - X)
                    return lambda k: I + summ(k, lambda s: at(DD, s))
                continue
            if self_free(lf, v) and ta not in v.free:
                return lambda k: ite(quant("ex", k, lambda s: at(cc, s)), v, I)
            d = v - X
            if self_free(lf, d):
                DD = ite(cc, d, ZERO)
                return lambda k: I + summ(k, lambda s: at(DD, s))
    w = strided_write(ip, lf, P, X, I, anc, t)
    if w is not None:
        return w
    # product: P = a*X
    q = P / X if X != ZERO else None
    if q is not None and self_free(lf, q):
        qc = q.const()
        if ta not in q.free:
            return lambda k: I * app("pow", (q, num(k)))
    return None


def rec_bool(ip, lf, P, X, I, anc, t):
    ta = the_atom(t)
    at = lambda v, k: subst(v, {ta: num(k)})
    if isinstance(P, E):
        P = bnot(eq(P, 0))
    if isinstance(I, E):
        I = bnot(eq(I, 0))
    if isinstance(X, E):
        X = bnot(eq(X, 0))
    P1, P0 = assume_in(P, X, True), assume_in(P, X, False)
    if not (self_free(lf, P1) and self_free(lf, P0)):
        return None
    w = cell_write(ip, lf, P, X, I, anc, t)
    if w is not None:
        return w
    if P1 == P0:
        return lambda k: ite(eq(k, 0), I, at(P1, num(k) - 1))
    if P0 == FALSE:
        return lambda k: band(I, bnot(quant("ex", k, lambda s: bnot(at(P1, s)))))
    if P1 == TRUE:
        return lambda k: bor(I, quant("ex", k, lambda s: at(P0, s)))
    return None


def rec_iso(ip, lf, P, X, I, anc, t):
    ta = the_atom(t)
    at = lambda v, k: subst(v, {ta: num(k)})
    (xp, _), = X.w
    idx = [i for i, (p, s) in enumerate(P.w) if p == xp and s == 1]
    if len(idx) == 1:
        i = idx[0]
        L, R = Iso(P.w[:i]), Iso(P.w[i + 1 :])
        if self_free(lf, L) and self_free(lf, R):
            def f(k):
                r = I
                if R.w:
                    r = r * iso_fold(k, lambda s: at(R, s))
                if L.w:
                    r = iso_fold(k, lambda s: at(L, s).inv()).inv() * r
                return r

            return f
    if self_free(lf, P):
        return lambda k: vite(eq(k, 0), I, at(P, num(k) - 1))
    return iso_cell(ip, lf, P, X, I, anc, t)


def iso_cell(ip, lf, P, X, I, anc, t):
    import lib

    ta = the_atom(t)
    rows = tuple(P.rows())
    for c, e in write_conds(rows, t, X):
        if ta in e.free:
            continue
        Pf = assume_val(P, c, False)
        if same(Pf, X) or (not any(isinstance(p, IteP) for p, _ in Pf.w) and tuple(Pf.rows()) == tuple(X.rows())):
            Pt = assume_val(P, c, True)
            v = subst(Pt, {ta: e})
            if not self_free(lf, v):
                return None
            return lambda k: vite(band(le(0, e), lt(e, k)), v, I)
    return None


def val_cell(lf, P, X, I, t):
    """P = (t == e) ? v : X for values without structure"""
    import lib

    ta = the_atom(t)
    conds = []
    todo = [P]
    while todo:
        p = todo.pop()
        if isinstance(p, Cond):
            eq_parts(p.c, conds, set())
            todo += [p.a, p.b]
        elif isinstance(p, Str) and len(p.p) == 1 and isinstance(p.p[0], Atom) and p.p[0].kind == "site":
            eq_parts(p.p[0].args[0], conds, set())
            todo += list(p.p[0].args[1:])
    for c in conds:
        if ta not in c.free:
            continue
        e = lib.solve_for(c.a[0], ta)
        if e is None or not e.isint or ta in e.free:
            continue
        if same(assume_val(P, c, False), X):
            v = subst(assume_val(P, c, True), {ta: e})
            if same(v, X):
                return lambda k: I
            if self_free(lf, v):
                return lambda k: vite(band(le(0, e), lt(e, k)), v, I)
    return None


def assume_val(v, c, val):
    """assume_in for structured values"""
    f = lambda x: assume_val(x, c, val)
    if isinstance(v, (E, B, Str, W, tuple)):
        return assume_in(v, c, val)
    if isinstance(v, Mat):
        e = [assume_in(x, c, val) for x in v.e]
        rot = assume_in(v.rot, c, val) if v.rot is not None else rot_from(e) if (v.r, v.c) == (3, 3) else None
        return Mat(v.r, v.c, e, rot, v.rm)
    if isinstance(v, Iso):
        r = Iso()
        for p, s in v.w:
            if isinstance(p, RT):
                x = iso_rt(f(p.l), [f(y) for y in p.t])
                x = ph_prim(x)
            elif isinstance(p, IteP):
                x = vite(assume_in(p.c, c, val), f(p.a), f(p.b))
            else:
                x = Iso([(p, 1)])
            r = r * (x if s > 0 else x.inv())
        return r
    if isinstance(v, Struct):
        return type(v)(v.ty, {k: f(x) for k, x in v.f.items()})
    if isinstance(v, Arr):
        return Arr([f(x) for x in v.v])
    if isinstance(v, Cond):
        return vite(assume_in(v.c, c, val), f(v.a), f(v.b))
    return v


def rot_from(e):
    """recognise the matrix of a rotation word"""
    w = None
    for i in range(3):
        for j in range(3):
            a = the_atom(e[i * 3 + j])
            if a is None or a.kind != "ent":
                return None
            r, k, l = a.args
            if (k, l) == (i, j):
                x = W([(r, 1)])
            elif (k, l) == (j, i):
                x = W([(r, -1)])
            else:
                return None
            if w is None:
                w = x
            elif w != x and not (i == j):
                # diagonal entries do not tell the sign
                if w == x.inv() and i == 0:
                    w = x
                else:
                    return None
    if w is not None and tuple(wmat(w)) == tuple(e):
        return w
    return w.inv() if w is not None and tuple(wmat(w.inv())) == tuple(e) else None


def ph_prim(x):
    """RT whose rotation and translation are those of a placeholder -> the placeholder"""
    if len(x.w) == 1 and isinstance(x.w[0][0], RT):
        p = x.w[0][0]
        w = p.l.rot
        if w is not None and len(w.w) == 1 and w.w[0][1] == 1 and w.w[0][0].kind == "rvar":
            a = w.w[0][0]
            if a.args[0].startswith("ph") and a.args[0].endswith(".R"):
                ph = PHIso(a.args[0][:-2], a.args[1][0], a.args[1][1:])
                if tuple(ph.trans()) == tuple(p.t):
                    return Iso([(ph, 1)])
    return x


def rec_seq(ip, lf, P, X, I, anc, t):
    ta = the_atom(t)
    at = lambda v, k: subst(v, {ta: num(k)})
    xs = X.segs[0]
    if P.segs and isinstance(P.segs[0], PSeg) and P.segs[0].name == xs.name and P.segs[0].args == xs.args:
        rest = Seq(P.segs[1:], P.ety)
        if self_free(lf, rest):
            return lambda k: Seq(I.segs + (Gen(num(k), lambda s: at(rest, s)),), I.ety or X.ety)
    if self_free(lf, P):
        return lambda k: vite(eq(k, 0), I, at(P, num(k) - 1))
    n = P.length()
    if n == X.length():
        probe = fresh("idx")
        pa = the_atom(probe)
        pv, xv = P.at(probe), X.at(probe)
        iv = I.at(probe)
        f = rec(ip, lf, pv, xv, iv, anc, t)
        if f is None:
            return None
        f = memo1(f)
        f(t)

        def seq(k):
            KNOWN.append(lt(probe, I.length()))
            try:
                v = f(num(k))
            finally:
                KNOWN.pop()
            return Seq([Fun(I.length(), lambda j: subst(v, {pa: num(j)}))], I.ety)

        return seq
    return None
