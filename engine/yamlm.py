"""yaml-cpp nodes (assumed contract of the library): a node is null, a scalar, a map of named nodes or a sequence of nodes.
Node(x), node = x and node.as<T>() of a user type call YAML::convert<T>::encode and decode of the code under verification.

Struct("YAML::Node", f): {} null; {"scalar": v}; {"seq": Seq of nodes}; {"k:<name>": node, ...}; {"zombie": TRUE} undefined"""
import re
from terms import *
from values import *
import terms as T
from interp import *
import lib

NODE = "YAML::Node"
NULLNODE = Struct(NODE, {})
ZOMBIE = Struct(NODE, {"zombie": TRUE})


def is_node(v):
    return isinstance(v, Struct) and v.ty == NODE


def keys(n):
    return [k for k in n.f if k.startswith("k:")]


def bad(ip, what):
    raise ThrowEx(Struct("YAML::Exception", {"what": Str(["yaml: " + what])}))


def strip(t):
    t = clean(t)
    return re.sub(r"^const ", "", t.replace("&", "").strip())


def convert_fn(ip, t, name):
    fs = [f for f in ip.prog.find("YAML::convert<%s>::%s" % (t, name)) if f.get("body")]
    if not fs:
        raise Unsupported("YAML::convert<%s>::%s" % (t, name))
    return fs[0]


def elem_type(t):
    return strip(lib.split_targs(t)[0])


def enc(ip, v, t):
    t = strip(t)
    if is_node(v):
        return v
    if isinstance(v, (E, B, Str)):
        return Struct(NODE, {"scalar": v})
    if isinstance(v, Seq) and t.startswith("std::vector<"):
        et = elem_type(t)
        segs = []
        for s in v.segs:
            if isinstance(s, Items):
                segs.append(Items([enc(ip, x, et) for x in s.v]))
            elif isinstance(s, Fun):
                k = fresh("idx")
                e = ip.run_merged_pure(lambda: enc(ip, s.cell(k), et), band(le(0, k), lt(k, s.n)))
                segs.append(Fun(s.n, lambda j, e=e, k=k: subst(e, {the_atom(k): num(j)})))
            else:
                raise Unsupported("serialisation of a generated sequence")
        return Struct(NODE, {"seq": Seq(tuple(segs), NODE)})
    f = convert_fn(ip, t, "encode")
    return ip.load(ip.call_fn(f, [Ref(ip.new(v, "arg"))]))


def dec(ip, n, t):
    t = strip(t)
    if not is_node(n):
        raise Unsupported("as<> of %r" % (n,))
    if "zombie" in n.f:
        bad(ip, "undefined node")
    if t == NODE:
        return n
    if lib.scalar_type(t) or t.startswith(("std::basic_string<", "std::__cxx11::basic_string<", "std::string")):
        if "scalar" not in n.f:
            bad(ip, "no scalar")
        v = n.f["scalar"]
        if isinstance(v, Str) != (not lib.scalar_type(t)):
            raise Unsupported("conversion between text and number")
        if t == "bool" and not isinstance(v, B) or isinstance(v, B) and t != "bool":
            raise Unsupported("conversion between truth value and number")
        if isinstance(v, E) and not v.isint and t not in ("double", "float", "long double"):
            raise Unsupported("conversion of a real to an integer")
        return v
    if t.startswith("std::vector<"):
        if "seq" not in n.f:
            bad(ip, "no sequence")
        et = elem_type(t)
        segs = []
        for s in n.f["seq"].segs:
            if isinstance(s, Items):
                segs.append(Items([dec(ip, x, et) for x in s.v]))
            elif isinstance(s, Fun):
                k = fresh("idx")
                e = ip.run_merged_pure(lambda: dec(ip, s.cell(k), et), band(le(0, k), lt(k, s.n)))
                segs.append(Fun(s.n, lambda j, e=e, k=k: subst(e, {the_atom(k): num(j)})))
            else:
                raise Unsupported("reading a generated sequence")
        return Seq(tuple(segs), et)
    f = convert_fn(ip, t, "decode")
    r = Ref(ip.new(ip.default_struct(t) if t in ip.prog.records else lib.default_value(ip, t), "decoded"))
    ok = ip.tob(ip.load(ip.call_fn(f, [n, r])))
    if not ip.branch(ok):
        bad(ip, "conversion refused")
    return ip.load(r)


def h_index(ip, q, fref, obj, args, node):
    key = ip.load(args[0])
    const = bool(fref.get("const"))
    if isinstance(key, Str) and key.lit() is not None:
        c = "k:" + key.lit()
        v = node_at(ip, obj)
        if "scalar" in v.f:
            bad(ip, "subscript of a scalar")
        if "seq" in v.f:
            if const:
                return ZOMBIE
            raise Unsupported("a named entry of a sequence")
        if c in v.f:
            return Ref(obj.loc, obj.path + (c,)) if isinstance(obj, Ref) else v.f[c]
        if const or not isinstance(obj, Ref):
            return ZOMBIE
        return Ref(obj.loc, obj.path + (c,))
    if isinstance(key, E):
        v = node_at(ip, obj)
        if "seq" not in v.f:
            if "scalar" in v.f:
                bad(ip, "subscript of a scalar")
            return ZOMBIE
        return v.f["seq"].at(key)
    raise Unsupported("subscript of a node")


def node_at(ip, obj):
    """the node an expression designates; an entry that was never written is undefined"""
    if not isinstance(obj, Ref):
        return obj
    try:
        return ip.load(obj)
    except Unsupported:
        if obj.path and isinstance(obj.path[-1], str) and obj.path[-1].startswith("k:"):
            return ZOMBIE
        raise


def ensure(ip, obj):
    """undefined entries come into existence when they are written"""
    if isinstance(obj, Ref) and obj.path and isinstance(obj.path[-1], str) and obj.path[-1].startswith("k:"):
        par = Ref(obj.loc, obj.path[:-1])
        ensure(ip, par)
        if obj.path[-1] not in ip.load(par).f:
            ip.store(obj, NULLNODE)


def h_assign(ip, q, fref, obj, args, node):
    v = ip.load(args[0])
    ta = lib.targs_of(fref, ip)
    t = ta[0] if ta else NODE
    if t.startswith("char") or "char[" in t:
        t = "std::string"
    ensure(ip, obj)
    ip.store(obj, enc(ip, v, t))
    return obj


def h_as(ip, q, fref, obj, args, node):
    ta = lib.targs_of(fref, ip)
    if args:
        raise Unsupported("as<> with a fallback")
    return dec(ip, node_at(ip, obj), ta[0])


def h_size(ip, q, fref, obj, args, node):
    v = node_at(ip, obj)
    if "zombie" in v.f:
        bad(ip, "size of an undefined node")
    if "seq" in v.f:
        return v.f["seq"].length()
    return num(len(keys(v)))


def node_range(ip, rng, v):
    """the sequence that a loop over a node runs through"""
    if "seq" in v.f:
        return Ref(rng.loc, rng.path + ("seq",)), v.f["seq"]
    if keys(v):
        raise Unsupported("loop over the entries of a map node")
    r = Ref(ip.new(Seq((), NODE), "empty"))
    return r, ip.load(r)


def h_begin(end):
    def f(ip, q, fref, obj, args, node):
        r = obj if isinstance(obj, Ref) else Ref(ip.new(obj, "node"))
        r, s = node_range(ip, r, node_at(ip, r))
        return Ptr(r.loc, r.path, s.length() if end else ZERO)

    return f


def h_push(ip, q, fref, obj, args, node):
    ensure(ip, obj)
    v = node_at(ip, obj)
    ta = lib.targs_of(fref, ip)
    x = enc(ip, ip.load(args[0]), ta[0] if ta else NODE)
    s = v.f.get("seq", Seq((), NODE))
    if "scalar" in v.f or keys(v):
        raise Unsupported("push_back on a node that is no sequence")
    ip.store(obj, Struct(NODE, {"seq": s.append(x)}))
    return None


def pr(f):
    return lambda ip, q, fref, obj, args, node: bconst(f(node_at(ip, obj)))


H = lib.LIBHOOK
H["YAML::Node::operator[]"] = h_index
H["YAML::Node::operator="] = h_assign
H["YAML::Node::as"] = h_as
H["YAML::Node::size"] = h_size
H["YAML::Node::push_back"] = h_push
H["range"] = node_range
H["YAML::Node::begin"] = h_begin(False)
H["YAML::Node::end"] = h_begin(True)
H["YAML::Node::IsDefined"] = pr(lambda v: "zombie" not in v.f)
H["YAML::Node::IsMap"] = pr(lambda v: bool(keys(v)))
H["YAML::Node::IsSequence"] = pr(lambda v: "seq" in v.f)
H["YAML::Node::IsScalar"] = pr(lambda v: "scalar" in v.f)
H["YAML::Node::IsNull"] = pr(lambda v: not v.f)
H["YAML::Node::operator!"] = pr(lambda v: "zombie" in v.f)


def construct(ip, t, args, A, node):
    if not A:
        return NULLNODE
    fr = node.get("f", {}) if isinstance(node, dict) else {}
    ta = lib.targs_of(fr, ip)
    return enc(ip, A[0], ta[0] if ta else NODE)
