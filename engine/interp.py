"""Symbolic execution of the extracted clang AST: computes, for a function and an arbitrary symbolic input, the set of
(path condition, memory, outcome) triples.  Loops are summarised by inductive closed forms (loops.py); calls go to the
callee's contract when one is registered, to a library model for dependencies, and otherwise into the callee's body."""
import json, re, os
from terms import *
from values import *
import prove
from prove import decide, infeasible
import terms as T


class ThrowEx(Exception):
    def __init__(self, val):
        self.val = val


class ReturnEx(Exception):
    def __init__(self, val):
        self.val = val


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Dead(Exception):
    """infeasible path"""


# ------------------------------------------------------------------------------------------------------------ program text
class TU:
    def __init__(self, path):
        d = json.load(open(path, errors="replace"))
        self.types = d["types"]
        self.fns = {}
        for f in d["functions"]:
            f["tu"] = self
            self.fns[f["id"]] = f
        self.records = d["records"]
        self.globals = {g["id"]: g for g in d["globals"]}
        self.ftypes = {}


class Program:
    def __init__(self, jsons):
        self.tus = [TU(p) for p in jsons]
        self.byq = {}
        self.records = {}
        for tu in self.tus:
            for f in tu.fns.values():
                self.byq.setdefault(f["q"], []).append(f)
            for k, r in tu.records.items():
                r["tu"] = tu
                self.records.setdefault(k, r)

    def find(self, q, pred=None, ta=None):
        out = []
        for f in self.byq.get(q, []):
            if pred and not pred(f):
                continue
            if ta is not None and f.get("ta") != ta:
                continue
            out.append(f)
        return out

    def param_types(self, f):
        return [f["tu"].types[t] for t in f["pt"]]


_tmpl = re.compile(r"<[^<>]*>")


def strip_t(q):
    """remove template arguments"""
    q = q.replace("std::__cxx11::", "std::").replace("operator<<", "operator@lsh").replace("operator<=", "operator@le")
    q = q.replace("operator<", "operator@lt").replace("operator->", "operator@arrow").replace("operator>>", "operator@rsh")
    q = q.replace("operator>=", "operator@ge").replace("operator>", "operator@gt")
    while True:
        n = _tmpl.sub("", q)
        if n == q:
            break
        q = n
    if "<" in q:
        q = q.split("<")[0] + q[q.rfind(">") + 1 :]
    for a, b in (("@lsh", "<<"), ("@le", "<="), ("@lt", "<"), ("@arrow", "->"), ("@rsh", ">>"), ("@ge", ">="), ("@gt", ">")):
        q = q.replace(a, b)
    return q


def split_targs(s):
    """template arguments of the outermost <...>"""
    i = s.find("<")
    if i < 0:
        return []
    depth = 0
    out, cur = [], ""
    for ch in s[i:]:
        if ch == "<":
            depth += 1
            if depth == 1:
                continue
        elif ch == ">":
            depth -= 1
            if depth == 0:
                out.append(cur.strip())
                break
        elif ch == "," and depth == 1:
            out.append(cur.strip())
            cur = ""
            continue
        if ch == "(":
            pass
        cur += ch
    return out


def clean(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        if t.startswith("const "):
            t = t[6:].strip()
            ch = True
        if t.endswith(" const"):
            t = t[:-6].strip()
            ch = True
        if t.endswith("&&"):
            t = t[:-2].strip()
            ch = True
        elif t.endswith("&"):
            t = t[:-1].strip()
            ch = True
    return t


def is_ref(t):
    return t.rstrip().endswith("&")


_uns = {"unsigned long", "unsigned int", "unsigned short", "unsigned char", "unsigned long long", "std::size_t"}
_ints = _uns | {"int", "long", "short", "long long", "char", "signed char"}
UBITS = {"unsigned long": 64, "unsigned int": 32, "unsigned short": 16, "unsigned char": 8, "unsigned long long": 64, "std::size_t": 64}


def scalar_type(t):
    t = clean(t)
    return t in _ints or t in ("double", "float", "bool", "long double") or (t.startswith("ceres::Jet<") and t.endswith(">"))


class _Enums:
    """type names that can only be enumerations: named types of the repository / ceres that are no records"""

    def __init__(self, prog):
        self.prog = prog

    def __contains__(self, t):
        return t not in self.prog.records and "<" not in t and (t.startswith("rct_") or t.startswith("ceres::")) and t not in ("ceres::Problem", "ceres::Covariance")


class Path:
    __slots__ = ("pc", "mem", "kind", "val")

    def __init__(self, pc, mem, kind, val):
        self.pc, self.mem, self.kind, self.val = pc, mem, kind, val

    def cond(self):
        return band(*self.pc)


def truth(e):
    """the condition of a number that is 1 or 0 (a converted bool)"""
    c = e.const()
    if c is not None:
        return bconst(c == 1) if c in (0, 1) else None
    a = the_atom(e)
    if a is not None and a.kind == "ite":
        x, y = truth(a.args[1]), truth(a.args[2])
        if x is not None and y is not None:
            return bor(band(a.args[0], x), band(bnot(a.args[0]), y))
        return None
    # 1 - (condition)
    d = ONE - e
    a = the_atom(d)
    if a is not None and a.kind == "ite":
        x = truth(d)
        return bnot(x) if x is not None else None
    return None


def steps_var(n, but=()):
    """does an expression increment or decrement a variable (other than those given)?"""
    if isinstance(n, list):
        return any(steps_var(x, but) for x in n)
    if not isinstance(n, dict) or n.get("k") == "LambdaExpr":
        return False
    if n.get("k") == "UnaryOperator" and n.get("op") in ("++", "--"):
        return n["e"].get("id") not in but or n["e"].get("id") is None
    return any(steps_var(x, but) for x in n.values() if isinstance(x, (dict, list)))


def leaves_loop(n):
    """does a statement leave the loop around it by break?"""
    if isinstance(n, list):
        return any(leaves_loop(x) for x in n)
    if not isinstance(n, dict) or n.get("k") in ("LambdaExpr", "ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "SwitchStmt"):
        return False
    return n.get("k") == "BreakStmt" or any(leaves_loop(x) for x in n.values() if isinstance(x, (dict, list)))


class Interp:
    def __init__(self, prog, contracts=None):
        self.prog = prog
        self.mem = {}
        self.pc = []
        self.dec = []
        self.pos = 0
        self.alts = []
        self.n = 0
        self.contracts = contracts or {}
        self.env = None
        self.this = None
        self.tu = None
        self.cur = None
        self.used = {}  # q -> how (contract / inlined / library)
        self.obligs = []  # safety obligations: (pc, cond, label)
        self.depth = 0
        self.notes = []
        self.solver_forks = True
        self.loop_log = []

    def enums(self):
        return _Enums(self.prog)

    # ------------------------------------------------------------------------------------------------------------- memory
    def new(self, v, hint="t"):
        self.n += 1
        loc = "%s#%d" % (hint, self.n)
        self.mem[loc] = v
        return loc

    def load(self, x):
        while isinstance(x, Ref):
            x = self.get(x)
        if self.resolving and isinstance(x, E):
            x = prove.resolve(x, list(self.pc))
        return x

    resolving = False  # resolve the conditionals of loaded scalars under the path condition

    def get(self, ref):
        if ref.loc not in self.mem:
            raise Unsupported("unknown location %s" % ref.loc)
        v = self.mem[ref.loc]
        for comp in ref.path:
            while isinstance(v, Ref):
                v = self.get(v)
            v = self.getc(v, comp)
        return v

    def getc(self, v, c):
        import lib

        return lib.get_comp(self, v, c)

    def resolve(self, ref):
        """follow reference-typed fields inside the path"""
        v = self.mem.get(ref.loc)
        if v is None and ref.loc not in self.mem:
            raise Unsupported("unknown location %s" % ref.loc)
        for i, comp in enumerate(ref.path):
            if isinstance(v, Ref):
                return self.resolve(Ref(v.loc, v.path + ref.path[i:]))
            v = self.getc(v, comp)
        if isinstance(v, Ref):
            return self.resolve(v)
        return ref

    def store(self, ref, val):
        if isinstance(val, Ref):
            val = self.load(val)
        # follow references stored along the path
        if ref.path:
            ref = self._resolve_prefix(ref)
        self.mem[ref.loc] = self._set(self.mem.get(ref.loc), ref.path, val)

    def _resolve_prefix(self, ref):
        v = self.mem.get(ref.loc)
        for i, comp in enumerate(ref.path):
            if isinstance(v, Ref):
                return self._resolve_prefix(Ref(v.loc, v.path + ref.path[i:]))
            if i == len(ref.path) - 1:
                break
            v = self.getc(v, comp)
        return ref

    def _set(self, v, path, val):
        import lib

        if not path:
            return lib.convert_assign(self, v, val)
        c = path[0]
        if len(path) == 1:
            return lib.set_comp(self, v, c, val)
        return lib.set_comp(self, v, c, self._set(self.getc(v, c), path[1:], val))

    def lval(self, x, hint="tmp"):
        if isinstance(x, Ref):
            return x
        return Ref(self.new(x, hint))

    # ------------------------------------------------------------------------------------------------------------ branching
    def decide(self, b):
        return decide(self.pc, b)

    def branch(self, b):
        """take one side of a symbolic condition (forks)"""
        if b.k == "c":
            return b.a[0]
        d = self.decide(b)
        if d is not None:
            return d
        if self.pos < len(self.dec):
            v = self.dec[self.pos]
        else:
            v = True
            self.dec.append(True)
            self.alts.append(self.dec[:-1] + [False])
        self.pos += 1
        self.pc.append(b if v else bnot(b))
        return v

    def choose(self, n):
        for i in range(n - 1):
            if self.pos < len(self.dec):
                v = self.dec[self.pos]
            else:
                v = True
                self.dec.append(True)
                self.alts.append(self.dec[:-1] + [False])
            self.pos += 1
            if v:
                return i
        return n - 1

    def explore(self, fn, assume=()):
        """all paths of fn from the current state; the state afterwards is the state before"""
        smem, spc = dict(self.mem), list(self.pc)
        sdec, spos, salts = self.dec, self.pos, self.alts
        senv, sthis, stu, scur, sdepth = self.env, self.this, self.tu, self.cur, self.depth
        out = []
        work = [[]]
        count = 0
        try:
            while work:
                count += 1
                if count > 400:
                    raise Unsupported("too many paths")
                self.dec = work.pop()
                self.pos = 0
                self.alts = []
                self.mem = dict(smem)
                self.pc = spc + [a for a in assume if a != TRUE]
                self.env, self.this, self.tu, self.cur, self.depth = (dict(senv) if senv is not None else None), sthis, stu, scur, sdepth
                base = len(spc)
                try:
                    v = fn()
                    out.append(Path(self.pc[base:], self.mem, "normal", v))
                except ReturnEx as e:
                    out.append(Path(self.pc[base:], self.mem, "return", e.val))
                except ThrowEx as e:
                    out.append(Path(self.pc[base:], self.mem, "throw", e.val))
                except BreakEx:
                    out.append(Path(self.pc[base:], self.mem, "break", None))
                except ContinueEx:
                    out.append(Path(self.pc[base:], self.mem, "continue", None))
                except Dead:
                    pass
                work += self.alts
        finally:
            self.mem, self.pc = smem, spc
            self.dec, self.pos, self.alts = sdec, spos, salts
            self.env, self.this, self.tu, self.cur, self.depth = senv, sthis, stu, scur, sdepth
        return out

    def merge_mem(self, paths, conds):
        locs = {}
        for p in paths:
            for l in p.mem:
                locs[l] = None
        out = {}
        for l in locs:
            vals = [(c, p.mem[l]) for c, p in zip(conds, paths) if l in p.mem]
            v = vals[-1][1]
            for c, x in reversed(vals[:-1]):
                if x is not v:
                    try:
                        v = vite(c, x, v)
                    except CannotMerge:
                        if "#" in l and not l.startswith("keep"):
                            v = Havoc("merge of %s" % l)
                        else:
                            raise
            out[l] = v
        return out

    def run_merged(self, fn, assume=()):
        """explore fn, merge all normal paths into one, and continue (forking over abrupt outcomes)"""
        paths = self.explore(fn, assume)
        if not paths:
            raise Dead()
        return self.resume(paths)

    def resume(self, paths):
        groups = {}
        for p in paths:
            groups.setdefault(p.kind, []).append(p)
        cands = []
        for k in ("normal", "continue"):
            if k in groups:
                cands.append((k, groups[k]))
        if "break" in groups:
            cands.append(("break", groups["break"]))
        for p in groups.get("return", []):
            cands.append(("return", [p]))
        if groups.get("return"):
            rs = groups["return"]
            if len(rs) > 1:
                try:
                    conds = [p.cond() for p in rs]
                    self.merge_mem(rs, conds)
                    self._merge_vals(rs, conds)
                    cands = [c for c in cands if c[0] != "return"] + [("return", rs)]
                except CannotMerge:
                    pass
        for p in groups.get("throw", []):
            cands.append(("throw", [p]))
        final = []
        for k, ps in cands:
            if len(ps) > 1:
                try:
                    conds = [p.cond() for p in ps]
                    m = self.merge_mem(ps, conds)
                    v = self._merge_vals(ps, conds)
                    final.append((k, bor(*conds), m, v))
                except CannotMerge:
                    for p in ps:
                        final.append((k, p.cond(), p.mem, p.val))
            else:
                final.append((k, ps[0].cond(), ps[0].mem, ps[0].val))
        i = self.choose(len(final)) if len(final) > 1 else 0
        k, c, m, v = final[i]
        if len(final) > 1:
            if c == FALSE:
                raise Dead()
            # the facts of this alternative hold from here on
            if len(final) > 1:
                for b in c.a if c.k == "and" else (c,):
                    if b not in self.pc:
                        self.pc.append(b)
        self.mem = dict(m)
        if k in ("normal",):
            return v
        if k == "return":
            raise ReturnEx(v)
        if k == "throw":
            raise ThrowEx(v)
        if k == "break":
            raise BreakEx()
        if k == "continue":
            raise ContinueEx()

    def _merge_vals(self, ps, conds):
        v = ps[-1].val
        for c, p in zip(reversed(conds[:-1]), reversed(ps[:-1])):
            if v is None and p.val is None:
                continue
            v = vite(c, p.val, v)
        return v

    # ------------------------------------------------------------------------------------------------------------ types
    def ty(self, node):
        return self.tu.types[node["t"]] if isinstance(node, dict) else self.tu.types[node]

    # ------------------------------------------------------------------------------------------------------------ functions
    def lookup(self, fref, tu=None):
        tu = tu or self.tu
        f = tu.fns.get(fref["id"])
        if f is not None:
            return f
        key = (tuple(tu.types[t] for t in fref["pt"]), bool(fref.get("const")))
        for g in self.prog.byq.get(fref["q"], []):
            if (tuple(g["tu"].types[t] for t in g["pt"]), bool(g.get("const"))) == key and g.get("ta") == fref.get("ta"):
                if fref.get("cls") is not None and g.get("cls") is not None and tu.types[fref["cls"]] != g["tu"].types[g["cls"]]:
                    continue
                if "(anonymous namespace)" in fref["q"] and g["tu"] is not tu:
                    continue
                return g
        return None

    def bind_params(self, f, args):
        """args: values or Refs; returns env"""
        env = {}
        tu = f["tu"]
        for i, p in enumerate(f["params"]):
            t = tu.types[p["t"]]
            if i < len(args):
                a = args[i]
            elif "init" in p:
                a = None
            else:
                raise Unsupported("missing argument")
            if is_ref(t):
                env[p["id"]] = self.lval(a, p["n"] or "arg")
            else:
                v = self.load(a)
                env[p["id"]] = Ref(self.new(self.coerce(v, t), p["n"] or "arg"))
        return env

    def coerce(self, v, t):
        import lib

        return lib.coerce(self, v, t)

    def call_fn(self, f, args, this=None):
        """execute a repository function: contract if registered, else its body"""
        con = self.contracts.get(f["q"])
        if con is not None:
            r = con(self, f, args, this)
            if r is not NotImplemented:
                self.used[f["q"]] = "contract"
                return r
        self.used.setdefault(f["q"], "body")
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("call depth")
        senv, sthis, stu, scur = self.env, self.this, self.tu, self.cur
        sen = getattr(self, "entry_n", 0)
        self.entry_n = self.n
        env = self.bind_params(f, args)
        try:
            self.env, self.this, self.tu, self.cur = env, this, f["tu"], f
            if f.get("defaulted") and f.get("copyassign") and (not f.get("body") or not f["body"].get("c")):
                self.store(this, args[0])
                return this
            if "inits" in f:
                self.run_ctor_inits(f, this)
            try:
                self.exec(f["body"])
                r = None
            except ReturnEx as e:
                r = e.val
            return r
        finally:
            self.env, self.this, self.tu, self.cur = senv, sthis, stu, scur
            self.depth -= 1
            self.entry_n = sen

    def run_ctor_inits(self, f, this):
        import lib

        for i in f["inits"]:
            if "field" in i:
                rec = self.find_field(f, i["field"])
                t = rec
                v = self.ev(i["e"])
                if t is not None and is_ref(t):
                    self.mem_set_raw(Ref(this.loc, this.path + (i["field"],)), self.lval(v))
                else:
                    v = self.load(v)
                    if t is not None:
                        v = self.coerce(v, t)
                    self.store_init(Ref(this.loc, this.path + (i["field"],)), v)
            elif i.get("delegating") or "base" in i:
                e = i["e"]
                while e["k"] in ("ExprWithCleanups", "CXXBindTemporaryExpr", "ParenExpr", "MaterializeTemporaryExpr"):
                    x = e.get("e") or (e.get("c") or [None])[0]
                    if not isinstance(x, dict):
                        break
                    e = x
                if e["k"] in ("CXXConstructExpr", "CXXInheritedCtorInitExpr", "CXXTemporaryObjectExpr"):
                    if e["k"] == "CXXInheritedCtorInitExpr":
                        # forwards the parameters of the inheriting constructor
                        args = [self.env[p["id"]] for p in f["params"]]
                    else:
                        args = None
                    self.construct_into(this, e, args, base="base" in i)
                else:
                    v = self.load(self.ev(e))
                    if isinstance(v, Struct):
                        cur = self.load(this)
                        d = dict(cur.f) if isinstance(cur, Struct) else {}
                        d.update(v.f)
                        self.store_init(this, Struct(cur.ty if isinstance(cur, Struct) else v.ty, d))

    def mem_set_raw(self, ref, v):
        cur = self.load(Ref(ref.loc, ref.path[:-1]))
        assert isinstance(cur, Struct)
        d = dict(cur.f)
        d[ref.path[-1]] = v
        self.store_init(Ref(ref.loc, ref.path[:-1]), Struct(cur.ty, d))

    def store_init(self, ref, v):
        if not ref.path:
            self.mem[ref.loc] = v
            return
        cur = self.load(Ref(ref.loc, ref.path[:-1]))
        if isinstance(cur, Struct) and isinstance(ref.path[-1], str):
            d = dict(cur.f)
            d[ref.path[-1]] = v
            self.store_init(Ref(ref.loc, ref.path[:-1]), Struct(cur.ty, d))
        else:
            self.store(ref, v)

    def find_field(self, f, name):
        tn = f["tu"].types[f["cls"]]
        r = self.prog.records.get(tn)
        while r:
            for fl in r["fields"]:
                if fl["n"] == name:
                    return r["tu"].types[fl["t"]]
            return None
        return None

    def blank_struct(self, tn):
        """struct with all fields (bases first) default-initialised without running constructors"""
        r = self.prog.records[tn]
        d = {}
        tu = r["tu"]
        for b in r["bases"]:
            bn = tu.types[b]
            if bn in self.prog.records:
                d.update(self.blank_struct(bn).f)
            else:
                import lib

                v = lib.default_value(self, bn, quiet=True)
                if isinstance(v, Struct):
                    d.update(v.f)
        for f in r["fields"]:
            d[f["n"]] = UNDEF
        return Struct(tn, d)

    def init_fields_default(self, ref, tn):
        """implicit default construction of a repository record"""
        import lib

        r = self.prog.records[tn]
        tu = r["tu"]
        for b in r["bases"]:
            bn = tu.types[b]
            if bn in self.prog.records:
                self.init_fields_default(ref, bn)
        stu = self.tu
        sthis = self.this
        self.tu = tu
        self.this = ref
        try:
            for f in r["fields"]:
                t = tu.types[f["t"]]
                if f.get("init") is not None:
                    v = self.coerce(self.load(self.ev(f["init"])), t)
                else:
                    v = lib.default_value(self, t)
                self.store_init(Ref(ref.loc, ref.path + (f["n"],)), v)
        finally:
            self.tu = stu
            self.this = sthis

    def default_struct(self, tn):
        ref = Ref(self.new(self.blank_struct(tn), "obj"))
        # a user-provided default constructor
        for f in self.prog.byq.get(self.ctor_q(tn), []):
            if f.get("defctor") or (f.get("inits") is not None and not f["params"]):
                if f["tu"].types[f["cls"]] == tn:
                    self.call_fn(f, [], ref)
                    return self.load(ref)
        self.init_fields_default(ref, tn)
        return self.load(ref)

    def ctor_q(self, tn):
        base = tn.split("<")[0]
        return tn + "::" + base.split("::")[-1]

    def construct_into(self, this, e, args=None, base=False):
        f = self.lookup(e["f"])
        if f is None:
            import lib

            v = lib.construct(self, self.ty(e["f"]["cls"]), [self.ev(a) for a in e.get("args", [])], e)
            cur = self.load(this)
            if isinstance(v, Struct) and isinstance(cur, Struct):
                d = dict(cur.f)
                d.update(v.f)
                self.store_init(this, Struct(cur.ty, d))
            return
        if args is None:
            args = [self.ev(a) for a in e.get("args", [])]
        if f.get("copymove") and f.get("defaulted"):
            v = self.load(args[0])
            cur = self.load(this)
            d = dict(cur.f)
            d.update(v.f)
            self.store_init(this, Struct(cur.ty, d))
            return
        if (f.get("defaulted") and not args) and not f.get("inits"):
            self.init_fields_default(this, f["tu"].types[f["cls"]])
            return
        self.call_fn(f, args, this)

    # ------------------------------------------------------------------------------------------------------------ statements
    def exec(self, s):
        if s is None:
            return
        m = getattr(self, "s_" + s["k"], None)
        if m is not None:
            return m(s)
        self.ev(s)

    def s_CompoundStmt(self, s):
        for c in s["c"]:
            self.exec(c)

    def s_NullStmt(self, s):
        pass

    def s_DeclStmt(self, s):
        for v in s["d"]:
            self.decl(v)

    def decl(self, v):
        t = self.tu.types[v["t"]]
        import lib

        if v.get("static"):
            key = "static:%s:%d" % (id(self.tu), v["id"])
            if key not in self.mem:
                self.mem[key] = self.load(self.ev(v["init"])) if v.get("init") else lib.default_value(self, t)
            self.env[v["id"]] = Ref(key)
            return
        if v.get("bindings"):
            val = self.ev(v["init"])
            ref = self.lval(val) if is_ref(t) else Ref(self.new(self.load(val)))
            cur = self.load(ref)
            keys = list(cur.f.keys()) if isinstance(cur, Struct) else [("i", num(i)) for i in range(len(v["bindings"]))]
            for b, k in zip(v["bindings"], keys):
                self.env[b["id"]] = Ref(ref.loc, ref.path + (k,))
            return
        if v.get("init") is None:
            val = lib.default_value(self, t)
            self.env[v["id"]] = Ref(self.new(val, v["n"]))
            return
        if is_ref(t):
            self.env[v["id"]] = self.lval(self.ev(v["init"]), v["n"])
            return
        val = self.ev(v["init"])
        if isinstance(val, Ref) and clean(t).startswith(("Eigen::Map<", "Eigen::Block<", "Eigen::VectorBlock<", "Eigen::Ref<", "const Eigen::Map<", "Eigen::Transpose<", "Eigen::ArrayWrapper<", "Eigen::MatrixWrapper<")):
            self.env[v["id"]] = self.lval(val)  # a view, not a copy
            return
        val = self.load(val)
        self.env[v["id"]] = Ref(self.new(self.coerce(val, t), v["n"]))

    def s_ReturnStmt(self, s):
        if s.get("e") is None:
            raise ReturnEx(None)
        v = self.ev(s["e"])
        rt = self.ret_type()
        if rt is not None and is_ref(rt):
            raise ReturnEx(self.lval(v))
        v = self.load(v)
        if rt is not None and v is not None:
            v = self.coerce(v, rt)
        raise ReturnEx(v)

    def ret_type(self):
        if self.cur is None:
            return None
        if "rt" in self.cur:
            return self.tu.types[self.cur["rt"]]
        return None

    def s_IfStmt(self, s):
        if s.get("init"):
            self.exec(s["init"])
        if s.get("var"):
            self.exec(s["var"])
        c = self.tob(self.ev(s["cond"]))
        if c.k != "c":
            d = self.decide(c)
            if d is not None:
                c = bconst(d)
        if c.k == "c":
            if c.a[0]:
                self.exec(s["then"])
            elif s.get("else"):
                self.exec(s["else"])
            return

        def body():
            if self.branch(c):
                self.exec(s["then"])
            elif s.get("else"):
                self.exec(s["else"])

        self.run_merged(body)

    def s_SwitchStmt(self, s):
        v = self.load(self.ev(s["cond"]))
        stmts = s["body"]["c"] if s["body"]["k"] == "CompoundStmt" else [s["body"]]
        flat = []  # (labels, stmt)
        for st in stmts:
            labels = []
            while st["k"] in ("CaseStmt", "DefaultStmt"):
                labels.append(None if st["k"] == "DefaultStmt" else int(st["lhs"]["cv"]))
                st = st["sub"]
            flat.append((labels, st))

        def body():
            start = None
            default = None
            for i, (labels, st) in enumerate(flat):
                for l in labels:
                    if l is None:
                        default = i
                    elif start is None and self.branch(eq(v, l)):
                        start = i
                if start is not None:
                    break
            if start is None:
                start = default
            if start is None:
                return
            try:
                for labels, st in flat[start:]:
                    self.exec(st)
            except BreakEx:
                pass

        self.run_merged(body)

    def s_BreakStmt(self, s):
        raise BreakEx()

    def s_ContinueStmt(self, s):
        raise ContinueEx()

    def s_ForStmt(self, s):
        import loops

        if s.get("init"):
            self.exec(s["init"])
        cond, body, last = self.loop_cond(s)
        declared = [d.get("id") for d in (s.get("init") or {}).get("d", [])] if (s.get("init") or {}).get("k") == "DeclStmt" else []
        loops.run(self, cond=cond, body=body, inc=(lambda: self.ev(s["inc"])) if s.get("inc") else None, line=s["l"])
        if last is not None and steps_var(s["cond"], declared):
            last()

    def loop_cond(self, s):
        """condition, body and final effect of a loop; a condition that steps a variable as  i-- > 0  does is split into the test
        of the value before the step, and the step at the start of the body and once more after the loop"""
        c = s.get("cond")
        if not c:
            return (lambda: TRUE), (lambda: self.exec(s["body"])), None
        cond, body = lambda: self.tob(self.ev(c)), lambda: self.exec(s["body"])
        if not steps_var(c):
            return cond, body, None

        def peek():
            old, self.peek = getattr(self, "peek", False), True
            try:
                return cond()
            finally:
                self.peek = old

        def both():
            self.ev(c)
            self.exec(s["body"])

        def last():
            if leaves_loop(s["body"]):
                raise Unsupported("loop that is left early and steps a variable in its condition")
            self.ev(c)

        return peek, both, last

    def s_WhileStmt(self, s):
        import loops

        cond, body, last = self.loop_cond(s)
        loops.run(self, cond=cond, body=body, inc=None, line=s["l"])
        if last is not None:
            last()

    def s_DoStmt(self, s):
        import loops

        if steps_var(s["cond"]):
            raise Unsupported("do loop with a step in its condition")
        try:
            try:
                self.exec(s["body"])
            except ContinueEx:
                pass
            loops.run(self, cond=lambda: self.tob(self.ev(s["cond"])), body=lambda: self.exec(s["body"]), inc=None, line=s["l"])
        except BreakEx:
            pass

    def s_CXXForRangeStmt(self, s):
        import loops, lib

        rng = self.lval(self.ev(s["range"]), "range")
        cont = self.load(rng)
        if isinstance(cont, Struct) and "range" in lib.LIBHOOK and cont.ty == "YAML::Node":
            rng, cont = lib.LIBHOOK["range"](self, rng, cont)
        n = lib.container_size(self, cont)
        v = s["var"]
        t = self.tu.types[v["t"]]
        idx = Ref(self.new(ZERO, "idx"))
        keyed = lib.range_comp(self, cont)
        filt = None
        if isinstance(cont, Seq) and len(cont.segs) == 1 and isinstance(cont.segs[0], Gen) and (not is_ref(t) or clean(t).startswith("const ")) and not v.get("bindings"):
            # the elements item(i) of a sequence filtered by a condition: the loop runs over i and skips the others
            try:
                ks, ns, c, item = gen_form(cont.segs[0])
                if len(ks) == 1:
                    filt = (list(ks[0].free)[0], ns[0], c, item)
            except Unsupported:
                pass
        if filt is not None:
            ka, n, c, item = filt

            def fbody():
                m = {ka: self.load(idx)}

                def take():
                    if self.branch(subst(c, m)):
                        self.env[v["id"]] = Ref(self.new(self.coerce(subst(item, m), t), v["n"]))
                        self.exec(s["body"])

                self.run_merged(take)

            loops.run(self, cond=lambda: lt(self.load(idx), n), body=fbody, inc=lambda: self.store(idx, self.load(idx) + 1), line=s["l"])
            return

        def body():
            k = self.load(idx)
            el = Ref(rng.loc, rng.path + (keyed(k),))
            if v.get("bindings"):
                base = el if is_ref(t) else Ref(self.new(self.load(el)))
                cur = self.load(base)
                keys = list(cur.f.keys()) if isinstance(cur, Struct) else [("i", num(i)) for i in range(len(v["bindings"]))]
                for b, kk in zip(v["bindings"], keys):
                    self.env[b["id"]] = Ref(base.loc, base.path + (kk,))
            elif is_ref(t):
                self.env[v["id"]] = el
            else:
                self.env[v["id"]] = Ref(self.new(self.coerce(self.load(el), t), v["n"]))
            self.exec(s["body"])

        loops.run(
            self,
            cond=lambda: lt(self.load(idx), lib.container_size(self, self.load(rng))),
            body=body,
            inc=lambda: self.store(idx, self.load(idx) + 1),
            line=s["l"],
        )

    def s_CXXTryStmt(self, s):
        def body():
            try:
                self.exec(s["try"])
            except ThrowEx as e:
                for h in s["h"]:
                    if self.catches(h, e.val):
                        if h.get("var") and h["var"].get("n") is not None:
                            self.env[h["var"]["id"]] = Ref(self.new(e.val, "exc"))
                        self.exec(h["body"])
                        return
                raise

        self.run_merged(body)

    def catches(self, h, val):
        if "t" not in h:
            return True
        t = clean(self.tu.types[h["t"]])
        et = val.ty if isinstance(val, Struct) else "?"
        return lib_is_a(self, et, t)

    # ------------------------------------------------------------------------------------------------------------ expressions
    def ev(self, n):
        k = n["k"]
        if "cv" in n and k not in ("DeclRefExpr",):
            t = self.ty(n) if "t" in n else "int"
            if t == "bool":
                return bconst(n["cv"] not in ("0", "false"))
            return num(int(n["cv"]))
        if "cf" in n and k != "DeclRefExpr":
            return num(Fraction(float.fromhex(n["cf"]))) if n["cf"] not in ("inf", "-inf", "nan", "-nan") else var(n["cf"])
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression %s (line %s)" % (k, n.get("l")))
        return m(n)

    def rv(self, n):
        return self.load(self.ev(n))

    def tob(self, v):
        v = self.load(v)
        if isinstance(v, B):
            return v
        if isinstance(v, E):
            return bnot(eq(v, 0))
        if isinstance(v, Ptr):
            return TRUE
        if isinstance(v, Null):
            return FALSE
        raise Unsupported("boolean from %s" % type(v).__name__)

    def e_DeclRefExpr(self, n):
        if n.get("dk") == "EnumConstant":
            return num(int(n["cv"]))
        if "f" in n:
            return ("fn", n["f"], self.tu)
        if n["id"] in self.env:
            return self.env[n["id"]]
        if n.get("global"):
            return self.global_ref(n["id"], n.get("q"), n)
        if "cv" in n:
            t = self.ty(n)
            return bconst(n["cv"] not in ("0", "false")) if clean(t) == "bool" else num(int(n["cv"]))
        if "cf" in n:
            return num(Fraction(float.fromhex(n["cf"])))
        raise Unsupported("unknown variable %s" % n["n"])

    def global_ref(self, vid, q, n):
        key = "g:%s:%d" % (q, self.prog.tus.index(self.tu))
        if key not in self.mem:
            g = self.tu.globals.get(vid)
            if g is None or g.get("init") is None:
                if n is not None and "cv" in n:
                    self.mem[key] = num(int(n["cv"]))
                elif n is not None and "cf" in n:
                    self.mem[key] = num(Fraction(float.fromhex(n["cf"])))
                else:
                    import lib

                    self.mem[key] = lib.global_value(self, q, self.ty(n))
            else:
                senv = self.env
                self.env = {}
                try:
                    self.mem[key] = self.coerce(self.load(self.ev(g["init"])), self.tu.types[g["t"]])
                finally:
                    self.env = senv
        return Ref(key)

    def e_CXXThisExpr(self, n):
        return Ptr(self.this.loc, self.this.path)

    def e_MemberExpr(self, n):
        if n.get("global"):
            return self.global_ref(n["id"], n.get("q"), n)
        b = self.ev(n["b"])
        if n["arrow"]:
            b = self.deref(self.load(b))
        else:
            b = self.lval(b)
        if "f" in n:
            return ("bound", n["f"], b)
        r = Ref(b.loc, b.path + (n["n"],))
        if n.get("reffield"):
            v = self.load_once(r)
            if isinstance(v, Ref):
                return v
        return r

    def load_once(self, ref):
        v = self.mem[ref.loc]
        for comp in ref.path:
            while isinstance(v, Ref):
                v = self.get(v)
            v = self.getc(v, comp)
        return v

    def deref(self, p):
        if isinstance(p, Ptr):
            if p.off is None:
                return Ref(p.loc, p.path)
            return Ref(p.loc, p.path + (("i", p.off if p.rev is None else p.rev - 1 - p.off),))
        if isinstance(p, Ref):
            return p
        if isinstance(p, Null):
            raise Unsupported("null dereference")
        import lib

        return lib.deref_obj(self, p)

    def e_ArraySubscriptExpr(self, n):
        b = self.rv(n["b"])
        i = self.rv(n["i"])
        if not isinstance(b, Ptr):
            raise Unsupported("subscript of %s" % type(b).__name__)
        if b.off is None:
            if num(i).const() == 0:
                return Ref(b.loc, b.path)
            raise Unsupported("subscript of an object pointer")
        return self.deref(b.to(b.off + i))

    def cast(self, n):
        ck = n.get("ck")
        if ck == "LValueToRValue":
            v = self.ev(n["e"])
            return self.load(v)
        if ck == "ArrayToPointerDecay":
            if n["e"]["k"] == "StringLiteral":
                return Str([n["e"].get("s", "")])
            v = self.lval(self.ev(n["e"]))
            if isinstance(self.load(v), Str):
                return self.load(v)
            return Ptr(v.loc, v.path, ZERO)
        if ck == "NullToPointer":
            return NULL
        if ck in ("IntegralToFloating",):
            return num(self.rv(n["e"]))
        if ck == "FloatingToIntegral":
            v = self.rv(n["e"])
            if v.isint:
                return v
            return app("trunc", (v,), "I")
        if ck == "IntegralCast":
            v = self.rv(n["e"])
            t = clean(self.ty(n))
            if isinstance(v, B):
                v = ite(v, ONE, ZERO)
            if isinstance(v, E) and v.const() is not None and t in UBITS and v.const() < 0:
                return v + num(2 ** UBITS[t])
            return v
        if ck == "FloatingCast":
            return self.rv(n["e"])
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.tob(self.rv(n["e"]))
        if ck == "ToVoid":
            self.ev(n["e"])
            return None
        if ck == "UserDefinedConversion":
            return self.ev(n["e"])
        return self.ev(n["e"])

    e_ImplicitCastExpr = cast
    e_CStyleCastExpr = cast

    def e_CXXStaticCastExpr(self, n):
        return self.cast(n)

    e_CXXFunctionalCastExpr = e_CXXStaticCastExpr
    e_CXXConstCastExpr = e_CXXStaticCastExpr
    e_CXXReinterpretCastExpr = e_CXXStaticCastExpr
    e_CXXDynamicCastExpr = e_CXXStaticCastExpr

    def e_CXXBoolLiteralExpr(self, n):
        return bconst(n.get("cv") not in ("0", "false", None))

    def e_GNUNullExpr(self, n):
        return NULL

    def e_CXXNullPtrLiteralExpr(self, n):
        return NULL

    def e_StringLiteral(self, n):
        return Str([n.get("s", "")])

    def e_FloatingLiteral(self, n):
        return num(Fraction(n["dec"]))

    def e_ImplicitValueInitExpr(self, n):
        import lib

        return lib.zero_value(self, self.ty(n))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_UnaryOperator(self, n):
        op = n["op"]
        if op == "&":
            r = self.ev(n["e"])
            if isinstance(r, tuple):
                return r
            r = self.lval(r)
            if r.path and isinstance(r.path[-1], tuple) and r.path[-1][0] == "i":
                return Ptr(r.loc, r.path[:-1], r.path[-1][1])
            return Ptr(r.loc, r.path)
        if op == "*":
            return self.deref(self.rv(n["e"]))
        if op in ("++", "--"):
            r = self.ev(n["e"])
            v = self.load(r)
            d = 1 if op == "++" else -1
            if getattr(self, "peek", False):
                # the value only
                if isinstance(v, Ptr):
                    return v if n["post"] else v.to((v.off if v.off is not None else ZERO) + d)
                return v if n["post"] else self.wrap(v + d, self.ty(n["e"])) if d < 0 else v + d
            if isinstance(v, Ptr):
                nv = v.to((v.off if v.off is not None else ZERO) + d)
            else:
                nv = v + d
                if d < 0:
                    nv = self.wrap(nv, self.ty(n["e"]))
            self.store(r, nv)
            return v if n["post"] else r
        v = self.rv(n["e"])
        if op == "-":
            return -num(v)
        if op == "+":
            return v
        if op == "!":
            return bnot(self.tob(v))
        if op == "__extension__":
            return v
        raise Unsupported("unary " + op)

    def wrap(self, v, t):
        """modular arithmetic of unsigned types: a result that may be negative forks"""
        t = clean(t)
        if t in UBITS:
            neg = lt0(v)
            if neg != FALSE:
                if self.branch(neg):
                    return v + num(2 ** UBITS[t])
        return v

    def arith(self, op, a, b, t):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "-" and isinstance(b, Ptr):
                if a.loc == b.loc and a.path == b.path:
                    return a.off - b.off
                raise Unsupported("pointer difference")
            if isinstance(b, Ptr):
                a, b = b, a
            off = a.off
            if off is None:
                if num(b).const() == 0:
                    return a
                off = ZERO
            return a.to(off + b if op == "+" else off - b)
        if not isinstance(a, (E, B)) or not isinstance(b, (E, B)):
            import lib

            return lib.binop(self, op, a, b)
        a, b = num(a), num(b)
        ct = clean(t)
        if op == "+":
            return a + b
        if op == "-":
            return self.wrap(a - b, t)
        if op == "*":
            return a * b
        if op == "/":
            if ct in _ints:
                return idiv_c(a, b)
            return a / b
        if op == "%":
            return T.imod(a, b)
        if op in ("<<", ">>") and b.const() is not None:
            return a * num(2 ** int(b.const())) if op == "<<" else T.idiv(a, num(2 ** int(b.const())))
        if op in ("&", "|", "^"):
            p, q = truth(a), truth(b)
            if p is not None and q is not None:
                r = band(p, q) if op == "&" else bor(p, q) if op == "|" else bor(band(p, bnot(q)), band(bnot(p), q))
                return T.ite(r, ONE, ZERO)
            return app("bit" + op, (a, b), "I")
        raise Unsupported("arith " + op)

    def compare(self, op, a, b):
        if isinstance(a, (Ptr, Null)) or isinstance(b, (Ptr, Null)):
            e = self.ptr_eq(a, b)
            return e if op == "==" else bnot(e)
        if isinstance(a, (E, B)) and isinstance(b, (E, B)):
            if isinstance(a, B) and isinstance(b, B) and op in ("==", "!="):
                e = bor(band(a, b), band(bnot(a), bnot(b)))
                return e if op == "==" else bnot(e)
            a, b = num(a), num(b)
            return {"<": lambda: lt(a, b), ">": lambda: lt(b, a), "<=": lambda: le(a, b), ">=": lambda: le(b, a), "==": lambda: eq(a, b), "!=": lambda: bnot(eq(a, b))}[op]()
        import lib

        return lib.compare(self, op, a, b)

    def ptr_eq(self, a, b):
        if isinstance(a, Null) or isinstance(b, Null):
            return bconst(type(a) is type(b))
        if a.loc != b.loc or len(a.path) != len(b.path):
            return FALSE
        cs = []
        for x, y in zip(a.path, b.path):
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == "i" and y[0] == "i":
                cs.append(eq(x[1], y[1]))
            elif x != y:
                return FALSE
        if (a.off is None) != (b.off is None):
            return FALSE
        if a.off is not None:
            cs.append(eq(a.off, b.off))
        return band(*cs)

    def e_BinaryOperator(self, n):
        op = n["op"]
        if op == "=":
            v = self.rv(n["b"])
            r = self.ev(n["a"])
            self.store(r, self.coerce(v, self.ty(n["a"])))
            return r
        if op == ",":
            self.ev(n["a"])
            return self.ev(n["b"])
        if op in ("&&", "||"):
            a = self.tob(self.ev(n["a"]))
            if a.k != "c":
                d = self.decide(a)
                if d is not None:
                    a = bconst(d)
            if a == (FALSE if op == "&&" else TRUE):
                return a
            if a.k == "c":
                return self.tob(self.ev(n["b"]))
            try:
                b = self.run_merged_pure(lambda: self.tob(self.ev(n["b"])), a if op == "&&" else bnot(a))
            except Dead:
                return FALSE if op == "&&" else TRUE
            return band(a, b) if op == "&&" else bor(a, b)
        a = self.rv(n["a"])
        b = self.rv(n["b"])
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return self.compare(op, a, b)
        return self.arith(op, a, b, self.ty(n))

    def run_merged_pure(self, fn, assumption):
        """value of fn under an assumption that only guards the evaluation; memory effects are merged conditionally"""
        before = dict(self.mem)
        paths = self.explore(fn, [assumption])
        ok = [p for p in paths if p.kind == "normal"]
        if len(ok) != len(paths):
            raise Unsupported("abrupt completion inside an expression")
        if not ok:
            raise Dead()
        conds = [p.cond() for p in ok]
        v = self._merge_vals(ok, conds)
        m = self.merge_mem(ok, conds)
        out = {}
        for l, x in m.items():
            out[l] = vite(assumption, x, before[l]) if l in before and x is not before[l] else x
        self.mem = out
        return v

    def e_ConditionalOperator(self, n):
        c = self.tob(self.ev(n["cond"]))

        def body():
            if self.branch(c):
                v = self.ev(n["a"])
            else:
                v = self.ev(n["b"])
            return v if n.get("lv") and isinstance(v, Ref) else self.load(v)

        if c.k == "c" or self.decide(c) is not None:
            return body()
        if n.get("lv"):
            return body()
        return self.run_merged(body)

    def e_CompoundAssignOperator(self, n):
        op = n["op"][:-1]
        b = self.rv(n["b"])
        r = self.ev(n["a"])
        a = self.load(r)
        self.store(r, self.coerce(self.arith(op, a, b, self.ty(n["a"])), self.ty(n["a"])))
        return r

    def e_InitListExpr(self, n):
        t = self.ty(n)
        import lib

        vals = [self.load(self.ev(i)) for i in n["inits"]]
        if "fields" in n and clean(t).split("<")[0] not in ("std::array",):
            d = {}
            for name, v in zip(n["fields"], vals):
                if name.startswith("<base:"):
                    if isinstance(v, Struct):
                        d.update(v.f)
                else:
                    d[name] = v
            tn = clean(t)
            rec = self.prog.records.get(tn)
            if rec:
                for f in rec["fields"]:
                    if f["n"] in d:
                        d[f["n"]] = self.coerce(d[f["n"]], rec["tu"].types[f["t"]])
            return Struct(tn, d)
        if clean(t).startswith("std::array") and not t.endswith("]"):
            if len(vals) == 1 and isinstance(vals[0], Arr):
                return vals[0]
            ta = split_targs(clean(t))
            k = int(ta[1].rstrip("UL"))
            vals = [lib.coerce(self, v, ta[0]) for v in vals]
            while len(vals) < k:
                vals.append(lib.zero_value(self, ta[0]))
            return Arr(vals)
        if "[" in t:
            k = int(t[t.rindex("[") + 1 : t.rindex("]")])
            et = t[: t.rindex("[")].strip()
            while len(vals) < k:
                vals.append(lib.zero_value(self, et))
            return Arr(vals)
        if len(vals) == 1:
            return vals[0]
        if not vals:
            return lib.zero_value(self, t)
        return Arr(vals)

    def e_CXXStdInitializerListExpr(self, n):
        v = self.load(self.ev(n["e"]))
        return v

    def e_CXXNewExpr(self, n):
        t = self.tu.types[n["at"]]
        import lib

        if n.get("size") is not None:
            k = self.rv(n["size"])
            return Ptr(self.new(Seq([Fun(k, lambda i: lib.default_value(self, t))]), "heap"), (), ZERO)
        v = self.load(self.ev(n["e"])) if n.get("e") else lib.default_value(self, t)
        return Ptr(self.new(v, "heap"))

    def e_CXXDeleteExpr(self, n):
        return None

    def e_CXXThrowExpr(self, n):
        v = self.load(self.ev(n["e"])) if n.get("e") else Struct("rethrow", {})
        raise ThrowEx(v)

    def e_LambdaExpr(self, n):
        caps = {}
        for c in n["caps"]:
            if c.get("this"):
                continue
            v = self.ev(c["init"]) if c.get("init") is not None else self.env.get(c["id"])
            if c["ref"]:
                caps[c["id"]] = self.lval(v)
            else:
                caps[c["id"]] = Ref(self.new(self.load(v), "cap"))
        l = Lam(n, caps, self.this)
        l.tu = self.tu
        l.env = None
        return l

    def call_lambda(self, l, args):
        n = l.node
        senv, sthis, stu, scur = self.env, self.this, self.tu, self.cur
        params, body, rt = n["params"], n["body"], n["rt"]
        if n.get("generic"):
            ins = n.get("insts") or []
            if not ins:
                raise Unsupported("generic lambda")
            params, body, rt = ins[0]["params"], ins[0]["body"], ins[0]["rt"]
        try:
            env = dict(l.caps)
            self.tu = l.tu
            for p, a in zip(params, args):
                t = self.tu.types[p["t"]]
                if is_ref(t):
                    env[p["id"]] = self.lval(a)
                else:
                    env[p["id"]] = Ref(self.new(self.coerce(self.load(a), t), p["n"] or "arg"))
            self.env, self.this = env, l.this
            self.cur = {"rt": rt}

            def run():
                try:
                    self.exec(body)
                    return None
                except ReturnEx as e:
                    return e.val

            return run()
        finally:
            self.env, self.this, self.tu, self.cur = senv, sthis, stu, scur

    def call_value(self, fv, args):
        """call a callable value: lambda, function reference, functor object"""
        fv0 = fv
        fv = self.load(fv) if isinstance(fv, Ref) else fv
        if isinstance(fv, Lam):
            return self.call_lambda(fv, args)
        if isinstance(fv, tuple) and fv[0] == "fn":
            f = self.lookup(fv[1], fv[2])
            if f is None:
                import lib

                con = self.contracts.get(fv[1]["q"])
                if con is not None:
                    self.used[fv[1]["q"]] = "contract"
                    r = con(self, dict(fv[1], tu=self.tu), args, None)
                    if r is not NotImplemented:
                        return r
                return lib.call(self, fv[1]["q"], fv[1], None, args, None)
            return self.call_fn(f, args)
        if isinstance(fv, tuple) and fv[0] == "bound":
            f = self.lookup(fv[1])
            return self.call_fn(f, args, fv[2])
        if isinstance(fv, Struct):
            r = self.lval(fv0)
            for f in self.prog.byq.get(fv.ty + "::operator()", []):
                if len(f["params"]) == len(args):
                    return self.call_fn(f, args, r)
        raise Unsupported("call of %s" % type(fv).__name__)

    def args(self, nodes, fref=None):
        return [self.ev(a) for a in nodes]

    def finish_call(self, n, f, r):
        return r

    def e_CallExpr(self, n):
        import lib

        if "f" not in n:
            fv = self.ev(n["callee"])
            return self.call_value(fv, self.args(n["args"]))
        fr = n["f"]
        f = self.lookup(fr)
        if f is not None:
            return self.call_fn(f, self.args(n["args"]))
        con = self.contracts.get(fr["q"])
        if con is not None:
            self.used[fr["q"]] = "contract"
            r = con(self, dict(fr, tu=self.tu), self.args(n["args"]), None)
            if r is not NotImplemented:
                return r
        return lib.call(self, fr["q"], fr, None, self.args(n["args"]), n)

    def e_CXXOperatorCallExpr(self, n):
        import lib

        fr = n.get("f")
        if fr is None:
            raise Unsupported("operator call")
        if strip_t(fr["q"]).split("::")[-1].startswith("(lambda") or "(lambda" in fr["q"]:
            fv = self.load(self.ev(n["args"][0]))
            return self.call_value(fv, self.args(n["args"][1:]))
        f = self.lookup(fr)
        if f is not None and not (fr.get("defaulted") and fr.get("copyassign")):
            if n.get("member"):
                obj = self.ev(n["args"][0])
                fv = self.load(obj)
                if isinstance(fv, Lam):
                    return self.call_value(fv, self.args(n["args"][1:]))
                return self.call_fn(f, self.args(n["args"][1:]), self.lval(obj))
            return self.call_fn(f, self.args(n["args"]))
        if fr.get("copyassign") and fr.get("repo"):
            v = self.rv(n["args"][1])
            r = self.ev(n["args"][0])
            self.store(r, v)
            return r
        if n["op"] in ("=",) and not fr.get("repo"):
            v = self.ev(n["args"][1])
            v = self.load(v)
            r = self.ev(n["args"][0])
            return lib.call(self, fr["q"], fr, r, [v], n)
        args = self.args(n["args"])
        if n.get("member"):
            return lib.call(self, fr["q"], fr, args[0], args[1:], n)
        return lib.call(self, fr["q"], fr, None, args, n)

    def e_CXXMemberCallExpr(self, n):
        import lib

        fr = n.get("f")
        if fr is None:
            raise Unsupported("member call")
        o = self.ev(n["obj"])
        if n.get("arrow"):
            o = self.load(o)
            o = self.deref(o) if isinstance(o, (Ptr, Ref)) else o
        if fr.get("virtual") and not n.get("qualified"):
            v = self.load(o)
            if isinstance(v, Struct):
                name = fr["n"]
                f = self.virtual_target(v.ty, fr)
                if f is not None:
                    return self.call_fn(f, self.args(n["args"]), self.lval(o))
        f = self.lookup(fr)
        if f is not None:
            return self.call_fn(f, self.args(n["args"]), self.lval(o))
        con = self.contracts.get(fr["q"])
        if con is not None:
            self.used[fr["q"]] = "contract"
            r = con(self, dict(fr, tu=self.tu), self.args(n["args"]), self.lval(o))
            if r is not NotImplemented:
                return r
        return lib.call(self, fr["q"], fr, o, self.args(n["args"]), n)

    def virtual_target(self, tn, fr):
        r = self.prog.records.get(tn)
        if r is None:
            return None
        for f in self.prog.byq.get(tn + "::" + fr["n"], []):
            if len(f["params"]) == len(fr["pt"]) and bool(f.get("const")) == bool(fr.get("const")):
                return f
        for b in r["bases"]:
            g = self.virtual_target(r["tu"].types[b], fr)
            if g:
                return g
        return None

    def e_CXXConstructExpr(self, n):
        import lib

        fr = n["f"]
        t = self.ty(n)
        if fr.get("copymove"):
            v = self.ev(n["args"][0])
            tn = clean(t)
            f = self.lookup(fr)
            if f is not None and not f.get("defaulted"):
                ref = Ref(self.new(self.blank_struct(tn), "obj"))
                self.call_fn(f, [v], ref)
                return self.load(ref)
            v = self.load(v)
            if isinstance(v, Struct) and tn in self.prog.records and v.ty != tn:
                # slicing copy
                keep = self.blank_struct(tn).f.keys()
                return Struct(tn, {k: v.f[k] for k in keep})
            return v
        if "cls" in fr and self.ty(fr["cls"]) in self.prog.records:
            tn = self.ty(fr["cls"])
            con = self.contracts.get(fr["q"])
            f = self.lookup(fr)
            if f is None and fr.get("defaulted"):
                if not n["args"]:
                    return self.default_struct(tn)
            if f is None:
                raise Unsupported("constructor %s has no body" % fr["q"])
            ref = Ref(self.new(self.blank_struct(tn), "obj"))
            args = self.args(n["args"])
            if f.get("defaulted") and not args and not f.get("inits"):
                self.init_fields_default(ref, tn)
            else:
                self.call_fn(f, args, ref)
            return self.load(ref)
        return lib.construct(self, t, self.args(n["args"]), n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_UnaryExprOrTypeTraitExpr(self, n):
        raise Unsupported("sizeof")


def idiv_c(a, b):
    """C integer division (operands are sizes/indices: assumed non-negative)"""
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb != 0:
        q = abs(ca) // abs(cb)
        return num(q if (ca >= 0) == (cb >= 0) else -q)
    return T.idiv(a, b)


def lib_is_a(ip, et, t):
    if et == t:
        return True
    std = {
        "std::runtime_error": ["std::exception"],
        "std::logic_error": ["std::exception"],
        "std::out_of_range": ["std::logic_error", "std::exception"],
        "std::invalid_argument": ["std::logic_error", "std::exception"],
        "YAML::Exception": ["std::runtime_error", "std::exception"],
    }
    for b in std.get(et, []):
        if lib_is_a(ip, b, t):
            return True
    r = ip.prog.records.get(et)
    if r:
        for b in r["bases"]:
            if lib_is_a(ip, r["tu"].types[b], t):
                return True
    return False
