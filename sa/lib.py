"""Calls: construction of instances, builtin functions, dispatch to methods and
to the models of what is outside of the package."""
import ast

from .num import Atom, Lin, ZERO, ONE
from .values import *
from .values import V, Raise
from . import seq
from .seq import as_seq, lit, simp, slen, cval, concat, norm_parts
from .join import fresh_base, fresh_var, elem_templates, generalise
from . import models as M

NONE, TRUE, FALSE = C(None), C(True), C(False)

METHODS = {t.__name__: set(dir(t)) for t in (int, str, bytes, list, dict, set, tuple, slice, float, bool)}
METHODS["list"] |= {"appendleft", "popleft", "extendleft", "rotate"}
METHODS["gen"] = set(dir((x for x in ())))
METHODS["NoneType"] = set(dir(None))

from .lib_text import text_method, match_item, match_method  # noqa: E402
from .lib_coll import list_method, dict_method, set_method  # noqa: E402
from .lib_ext import EXT, ext_call, ext_iter, ext_getitem, ext_attr, ext_method, enter, exit_  # noqa: E402,F401


def is_star(a):
    return type(a).__name__ == "Star"


def alloc_list(interp, st, parts, node=None, owner=None):
    return st.alloc(Obj("list", None, {"seq": S("list", norm_parts(st.num, parts))}, owner or interp.owner, site=node))


# ------------------------------------------------------------ construction


def field_spec(st, v):
    if isinstance(v, Ref) and st.obj(v).kind == "fieldspec":
        return st.obj(v).f
    return None


def make_dataclass(interp, st, cls, opts):
    fields, seen = [], {}
    for c in reversed(interp.mro(cls)):
        if isinstance(c, Cls) and c is not cls and c.dc is not None:
            for f in c.fields:
                seen[f[0]] = f
    env = st.obj(cls.env).f
    for name, n in cls.slots:
        ann = ast.unparse(n.annotation)
        if "ClassVar" in ann:
            continue
        d = env.get(name)
        spec = field_spec(st, d) if d is not None else None
        if spec is not None:
            if "default" in spec:
                seen[name] = (name, spec["default"], "default")
            elif "default_factory" in spec:
                seen[name] = (name, spec["default_factory"], "factory")
            else:
                seen[name] = (name, None, None)
            if spec.get("init") == FALSE:
                seen[name] = (name, seen[name][1], "noinit:" + (seen[name][2] or ""))
        elif d is not None:
            seen[name] = (name, d, "default")
        else:
            seen[name] = (name, None, None)
    cls.fields = list(seen.values())
    cls.dc = {k: v.v for k, v in opts.items() if isinstance(v, C)}
    return cls


def dataclass_decorator(interp, st, args, kw, fr, node):
    if args and isinstance(args[0], Cls):
        return [(st, make_dataclass(interp, st, args[0], kw))]

    def deco(interp, s, a, k, fr, node):
        return [(s, make_dataclass(interp, s, a[0], kw))]

    return [(st, Py("dataclass()", deco, tuple(sorted((k, repr(v)) for k, v in kw.items()))))]


def fill_fields(interp, st, cls, args, kw, fr, node):
    """-> [(state, dict of fields or Raise)]"""
    fields = cls.fields
    init = [f for f in fields if not (f[2] or "").startswith("noinit")]
    vals = {}
    if any(is_star(a) for a in args):
        flat = []
        for a in args:
            if is_star(a):
                ex = M.explicit(a.seq)
                if ex is None:
                    st.vague("unknown number of arguments")
                    ex = [interp.fresh("stararg", labels={"unk"}) for _ in range(len(init) - len(args) + 1)]
                flat += ex
            else:
                flat.append(a)
        args = flat
    if len(args) > len(init):
        return [(st, interp.exc(st, "TypeError", node, fr, f"too many arguments for {cls.name}"))]
    for f, a in zip(init, args):
        vals[f[0]] = a
    names = {f[0] for f in init}
    for k, v in kw.items():
        if k == "**":
            for f in init:
                vals.setdefault(f[0], interp.fresh("kwarg", labels={"unk"}))
            continue
        if k not in names or k in vals:
            return [(st, interp.exc(st, "TypeError", node, fr, f"{cls.name}: argument {k}"))]
        vals[k] = v
    cur = [(st, vals)]
    for name, d, kind in fields:
        if name in vals:
            continue
        kind = (kind or "").replace("noinit:", "")
        if kind == "default":
            for _, vs in cur:
                vs[name] = d
        elif kind == "factory":
            nxt = []
            for s, vs in cur:
                if isinstance(vs, Raise):
                    nxt.append((s, vs))
                    continue
                for t, v in interp.call(s, d, [], {}, fr, node):
                    nxt.append((t, v if isinstance(v, Raise) else dict(vs, **{name: v})))
            cur = nxt
        elif (name, d, kind) and not any(f[0] == name and (f[2] or "").startswith("noinit") for f in fields):
            return [(st, interp.exc(st, "TypeError", node, fr, f"missing argument {name} of {cls.name}"))]
    order = [f[0] for f in fields]
    return [(s, vs if isinstance(vs, Raise) else {n: vs[n] for n in order if n in vs}) for s, vs in cur]


def construct(interp, st, cls, args, kw, fr, node):
    h = interp.__dict__.get("construct_hook")
    if h is not None:
        r = h(interp, st, cls, args, kw, fr, node)
        if r is not None:
            return r
    new = interp.lookup(st, cls, "__new__")
    init = interp.lookup(st, cls, "__init__")
    out = []
    if isinstance(new, Fn):
        st.vague("__new__")
    if cls.nt or (cls.dc is not None and not isinstance(init, Fn)):
        for s, vs in fill_fields(interp, st, cls, args, kw, fr, node):
            if isinstance(vs, Raise):
                out.append((s, vs))
                continue
            r = s.alloc(Obj("inst", cls, vs, interp.owner, site=node))
            s.event("new", cls, r, interp.where(node, fr) if node is not None else "")
            post = interp.lookup(s, cls, "__post_init__")
            if isinstance(post, Fn):
                for t, v in interp.call(s, Bound(post, r), [], {}, fr, node):
                    out.append((t, v if isinstance(v, Raise) else r))
            else:
                out.append((s, r))
        return out
    r = st.alloc(Obj("inst", cls, {}, interp.owner, site=node))
    st.event("new", cls, r, interp.where(node, fr) if node is not None else "")
    if isinstance(init, Fn):
        for s, v in interp.call(st, Bound(init, r), args, kw, fr, node):
            out.append((s, v if isinstance(v, Raise) else r))
        return out
    excb = any(isinstance(c, Bi) and c.name in M_EXC() for c in interp.mro(cls))
    if excb or M.has_ext_base(interp, cls):
        st.put(r, st.obj(r).put("args", S("tuple", [One(a) for a in args if not is_star(a)])))
        return [(st, r)]
    if args or kw:
        return [(st, interp.exc(st, "TypeError", node, fr, f"{cls.name}() takes no arguments"))]
    return [(st, r)]


def M_EXC():
    from .interp import EXC_PARENT

    return EXC_PARENT


# ------------------------------------------------------------ dispatch


def flatten_stars(st, args):
    out = []
    for a in args:
        if is_star(a):
            ex = M.explicit(a.seq)
            if ex is None:
                return None
            out += ex
        else:
            out.append(a)
    return out


def call(interp, st, f, args, kw, fr, node):
    if isinstance(f, Ext):
        m = interp.ext_models.get(f.path)
        if m is not None:
            r = m(interp, st, args, kw, fr, node)
            if r is not None:
                return r
    if isinstance(f, Bi):
        m = interp.ext_models.get("builtins." + f.name)
        if m is not None:
            r = m(interp, st, args, kw, fr, node)
            if r is not None:
                return r
    if isinstance(f, Meth):
        return method(interp, st, f.obj, f.name, args, kw, fr, node)
    if isinstance(f, Bi):
        h = BI.get(f.name)
        if f.name in M_EXC():
            r = st.alloc(Obj("exc", None, {"type": f, "args": S("tuple", [One(a) for a in args if not is_star(a)]), "msg": NONE}, "local"))
            st.event("excnew", f.name, tuple(a for a in args if not is_star(a)))
            return [(st, r)]
        flat = flatten_stars(st, args)
        if flat is None and f.name not in ("zip", "print"):
            st.vague(f"{f.name} with an unknown number of arguments")
            return [(st, interp.fresh(f.name, labels={"unk"}))]
        if h is not None:
            r = h(interp, st, flat if flat is not None else args, kw, fr, node)
            if r is not None:
                return r
        return opaque_call(interp, st, f.name, args, kw, fr, node)
    # outside of the package
    path = f.path
    head, _, last = path.rpartition(".")
    if head in ("str", "bytes", "list", "dict", "set", "tuple", "int") and args and last not in ("from_bytes", "fromkeys", "maketrans", "fromhex"):
        return method(interp, st, args[0], last, args[1:], kw, fr, node)
    return ext_call(interp, st, path, args, kw, fr, node)


def opaque_call(interp, st, name, args, kw, fr, node, ty=None, pure=False):
    flat = [a if isinstance(a, V) else S("tuple", a.seq.parts) for a in args]
    labs = set()
    for a in flat + list(kw.values()):
        labs |= labels_of(a, st)
    if pure and not any(isinstance(a, Ref) for a in flat):
        return [(st, U(name, tuple(flat) + tuple(kw[k] for k in sorted(kw)), ty, labs))]
    interp.unmodelled[name] = interp.unmodelled.get(name, 0) + 1
    return [(st, interp.fresh(name, ty, labs | {"unk"}))]


def method(interp, st, o, name, args, kw, fr, node):
    flat = flatten_stars(st, args)
    if flat is None:
        st.vague("unknown number of arguments")
        flat = [a if not is_star(a) else interp.fresh("stararg", labels={"unk"}) for a in args]
    args = flat
    s = as_seq(o)
    if s is not None and s.kind in ("str", "bytes"):
        return text_method(interp, st, s, name, args, kw, fr, node)
    if s is not None:
        return tuple_method(interp, st, s, name, args, kw, fr, node)
    if isinstance(o, I):
        return int_method(interp, st, o, name, args, kw, fr, node)
    if isinstance(o, SL) and name == "indices":
        return opaque_call(interp, st, "slice.indices", [o] + args, kw, fr, node)
    if isinstance(o, Ref):
        ob = st.obj(o)
        if ob.kind == "list":
            return list_method(interp, st, o, name, args, kw, fr, node)
        if ob.kind == "set":
            return set_method(interp, st, o, name, args, kw, fr, node)
        if ob.kind == "dict":
            return dict_method(interp, st, o, name, args, kw, fr, node)
        if ob.kind == "ext":
            return ext_method(interp, st, o, name, args, kw, fr, node)
        if ob.kind == "inst":
            return inst_method(interp, st, o, name, args, kw, fr, node)
        if ob.kind in ("gen", "iter") and name == "__next__":
            return bi_next(interp, st, [o], kw, fr, node)
        if ob.kind == "gen" and name in ("close", "send", "throw"):
            st.vague("generator method " + name)
            return [(st, interp.fresh(name, labels={"unk"}))]
    if isinstance(o, Cls) and name == "_make":
        out = []
        for x, q in interp.to_seq(st, args[0], fr, node):
            if isinstance(q, Raise):
                out.append((x, q))
            elif M.explicit(q) is None:
                n = len(o.fields)
                x.assume_eq0(slen(q) - n)
                cur = [(x, [])]
                for k in range(n):
                    cur = [(z, vs + [e]) for y, vs in cur for z, e in interp.element(y, q, Lin(k), fr, node)]
                for y, vs in cur:
                    out += construct(interp, y, o, vs, {}, fr, node)
            else:
                out += construct(interp, x, o, M.explicit(q), {}, fr, node)
        return out
    if isinstance(o, U):
        if o.op in ("match", "matchx"):
            return match_method(interp, st, o, name, args, kw, fr, node)
        if o.op == "regex":
            from .lib_ext import re_op

            if name == "sub":
                return [(st, derived("re.sub", (o,) + tuple(a for a in args if not isinstance(a, Ref)), "str", labels_of(o)).seq())]
            return re_op(interp, st, name, o, args, kw, fr, node)
        if o.op == "super":
            if name == "__init__":
                me = o.args[0]
                if isinstance(me, Ref) and st.obj(me).kind == "inst":
                    st.put(me, st.obj(me).put("args", S("tuple", [One(a) for a in args])))
                return [(st, NONE)]
            if name == "__setattr__" and isinstance(o.args[0], Ref):
                return interp.setattr(st, o.args[0], args[0].v, args[1], fr, node)
            return opaque_call(interp, st, "super." + name, args, kw, fr, node)
        q = M.seqv(interp, st, o)
        if q is not None and q.kind in ("str", "bytes"):
            return text_method(interp, st, q, name, args, kw, fr, node)
        if q is not None and q.kind == "tuple":
            return tuple_method(interp, st, q, name, args, kw, fr, node)
        if o in interp.map_models or o.ty == "dict" or st.facts.get(("isa", o, "dict")) is True:
            # an opaque mapping: read through a temporary dict object
            d = st.alloc(Obj("dict", None, {"ents": (), "rest": o}, "opaque"))
            return dict_method(interp, st, d, name, args, kw, fr, node)
        if name in ("get", "items", "keys", "values") and "unk" not in o.labels:
            d = st.alloc(Obj("dict", None, {"ents": (), "rest": o}, "opaque"))
            return dict_method(interp, st, d, name, args, kw, fr, node)
    return call_unknown(interp, st, Meth(o, name), args, kw, fr, node)


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "add", "discard", "popitem", "write", "__setitem__", "__delitem__"}


def call_unknown(interp, st, f, args, kw, fr, node):
    h = interp.__dict__.get("unknown_hook")
    if h is not None:
        r = h(interp, st, f, args, kw, fr, node)
        if r is not None:
            return r
    flat = [a for a in args if not is_star(a)]
    if isinstance(f, U) and f.op == "attr" and len(f.args) == 2 and isinstance(f.args[1], C) and isinstance(f.args[1].v, str):
        return method(interp, st, f.args[0], f.args[1].v, args, kw, fr, node)
    if isinstance(f, Meth):
        if f.name in MUTATORS:
            interp.mutated(st, f.obj, f.name, fr, node, flat[0] if flat else None)
        st.event("opaquecall", f, tuple(flat), interp.where(node, fr))
        labs = labels_of(f.obj, st)
        for a in flat:
            labs |= labels_of(a, st)
        return [(st, interp.fresh("call." + f.name, None, labs | {"unk"}))]
    st.event("opaquecall", f, tuple(flat), interp.where(node, fr))
    labs = labels_of(f, st)
    for a in flat:
        labs |= labels_of(a, st)
    # a function given by the caller: assumed to be a pure function
    if isinstance(f, U) and not any(isinstance(a, Ref) for a in flat) and not kw and "unk" not in f.labels:
        return [(st, U("apply", (f,) + tuple(flat), interp.field_types.get(("apply", f.op)), labs))]
    return [(st, interp.fresh("call", None, labs | {"unk"}))]


def inst_method(interp, st, o, name, args, kw, fr, node):
    """Methods an instance gets from a base class outside of the package."""
    ob = st.obj(o)
    cls = ob.cls
    if cls.nt:
        names = [n for n, _, _ in cls.fields]
        if name == "_replace":
            f = dict(ob.f)
            for k, v in kw.items():
                if k not in names:
                    return [(st, interp.exc(st, "ValueError", node, fr))]
                f[k] = v
            return [(st, st.alloc(Obj("inst", cls, f, interp.owner, site=node)))]
        if name == "_asdict":
            return [(st, st.alloc(Obj("dict", None, {"ents": tuple((C(n), ob.f[n]) for n in names), "rest": NONE}, interp.owner)))]
        return tuple_method(interp, st, S("tuple", [One(ob.f[n]) for n in names]), name, args, kw, fr, node)
    get = interp.lookup(st, cls, "__getitem__")
    if name == "get" and isinstance(get, Fn):
        default = args[1] if len(args) > 1 else kw.get("default", NONE)
        out = []
        for s, v in interp.call(st, Bound(get, o), [args[0]], {}, fr, node):
            if isinstance(v, Raise) and v.sig is None and interp.exc_types(s, v.exc) is not None and "KeyError" in interp.exc_types(s, v.exc):
                s.event("caught", v.exc, getattr(node, "lineno", 0), fr.fn if fr else None, v)
                out.append((s, default))
            else:
                out.append((s, v))
        return out
    if name == "__contains__" and isinstance(get, Fn):
        out = []
        for s, v in interp.call(st, Bound(get, o), [args[0]], {}, fr, node):
            if isinstance(v, Raise) and "KeyError" in (interp.exc_types(s, v.exc) or ()):
                out.append((s, FALSE))
            else:
                out.append((s, v if isinstance(v, Raise) else TRUE))
        return out
    if name == "pop" and isinstance(get, Fn):
        out = []
        for s, v in interp.call(st, Bound(get, o), [args[0]], {}, fr, node):
            if isinstance(v, Raise):
                if len(args) > 1 and "KeyError" in (interp.exc_types(s, v.exc) or ()):
                    out.append((s, args[1]))
                else:
                    out.append((s, v))
                continue
            d = interp.lookup(s, cls, "__delitem__")
            for t, w in interp.call(s, Bound(d, o), [args[0]], {}, fr, node):
                out.append((t, w if isinstance(w, Raise) else v))
        return out
    if name == "setdefault" and isinstance(get, Fn):
        default = args[1] if len(args) > 1 else NONE
        out = []
        for s, v in interp.call(st, Bound(get, o), [args[0]], {}, fr, node):
            if isinstance(v, Raise) and "KeyError" in (interp.exc_types(s, v.exc) or ()):
                sm = interp.lookup(s, cls, "__setitem__")
                for t, w in interp.call(s, Bound(sm, o), [args[0], default], {}, fr, node):
                    out.append((t, w if isinstance(w, Raise) else default))
            else:
                out.append((s, v))
        return out
    if name in MUTATORS:
        interp.mutated(st, o, name, fr, node)
    st.event("opaquecall", Meth(o, name), tuple(args), interp.where(node, fr))
    return [(st, interp.fresh("mixin." + name, None, labels_of(o, st) | {"unk"}))]


def tuple_method(interp, st, s, name, args, kw, fr, node):
    if name in ("index", "count"):
        if name == "index":
            out = []
            for x, b in M.in_seq(interp, st, s, args[0], fr, node):
                if isinstance(b, Raise):
                    out.append((x, b))
                elif b:
                    v = U("index", (s, args[0]), "int")
                    l = M.int_lin(interp, x, v)
                    x.assume_ge0(l)
                    x.assume_ge0(slen(s) - l - 1)
                    out.append((x, v))
                else:
                    out.append((x, interp.exc(x, "ValueError", node, fr)))
            return out
        return [(st, U("count", (s, args[0]), "int"))]
    if name == "__len__":
        return [(st, I(slen(s)))]
    return opaque_call(interp, st, "tuple." + name, args, kw, fr, node)


def int_method(interp, st, v, name, args, kw, fr, node):
    if name == "to_bytes":
        return to_bytes(interp, st, v.lin, args, kw, fr, node)
    if name == "bit_length":
        u = U("bit_length", (v,), "int")
        st.assume_ge0(M.int_lin(interp, st, u))
        return [(st, u)]
    return opaque_call(interp, st, "int." + name, [v] + args, kw, fr, node, pure=True)


def const(v):
    return v.v if isinstance(v, C) else None


def to_bytes(interp, st, lin, args, kw, fr, node):
    n = args[0] if args else kw.get("length", I(1))
    order = args[1] if len(args) > 1 else kw.get("byteorder", C("big"))
    signed = kw.get("signed", FALSE)
    if not isinstance(n, I) or not st.num.norm(n.lin).const or const(order) not in ("big", "little"):
        b = derived("to_bytes", (I(lin), n, order), "bytes", (), M.int_lin(interp, st, n))
        return [(st, b.seq())]
    k = st.num.norm(n.lin).c
    if signed == TRUE:
        lo, hi = -(256 ** k) // 2, 256 ** k // 2 - 1
    else:
        lo, hi = 0, 256 ** k - 1
    out = []
    for s, a in interp.decide(st, lin - lo):
        if not a:
            out.append((s, interp.exc(s, "OverflowError", node, fr)))
            continue
        for t, b in interp.decide(s, Lin(hi) - lin):
            if not b:
                out.append((t, interp.exc(t, "OverflowError", node, fr)))
            elif k == 0:
                out.append((t, C(b"")))
            else:
                if signed == TRUE:
                    l2 = U("twos", (I(lin), I(k)), "int")
                    out.append((t, S("bytes", (IB(M.int_lin(interp, t, l2), k),))))
                    continue
                q = S("bytes", norm_parts(t.num, (IB(lin, k),)))
                if const(order) == "little" and k > 1:
                    parts = []
                    rest = lin
                    for _ in range(k):
                        rest, r = interp.divmod(t, rest, 256)
                        parts.append(IB(r, 1))
                    q = S("bytes", norm_parts(t.num, parts))
                out.append((t, simp(q)))
    return out


def from_bytes(interp, st, args, kw, fr, node):
    order = args[1] if len(args) > 1 else kw.get("byteorder", C("big"))
    signed = kw.get("signed", FALSE)
    out = []
    for x, q in interp.to_seq(st, args[0], fr, node):
        if isinstance(q, Raise):
            out.append((x, q))
            continue
        if q.kind == "str":
            out.append((x, interp.exc(x, "TypeError", node, fr, "int.from_bytes of str")))
            continue
        q = seq.normalize(x.num, q)
        n = x.num.norm(slen(q))
        if n.const and n.c <= 16 and signed == FALSE and const(order) in ("big", "little"):
            cur = [(x, ZERO)]
            # whole encodings first: no need to take them apart
            parts = list(q.parts)
            if const(order) == "big":
                total = ZERO
                left = n.c
                for p in parts:
                    if isinstance(p, Lit):
                        v = Lin(int.from_bytes(p.v, "big"))
                        k = len(p.v)
                    elif isinstance(p, IB):
                        v, k = p.lin, p.n
                    elif isinstance(p, One):
                        v, k = M.int_lin(interp, x, p.v), 1
                    else:
                        k = x.num.norm(part_len(p)).c
                        v = ZERO
                        for j in range(k):
                            v = v * 256 + interp.byte_at(x, p, Lin(j))
                            x.assume_ge0(interp.byte_at(x, p, Lin(j)))
                    if v is None:
                        total = None
                        break
                    total = total * (256 ** k) + v
                if total is not None:
                    out.append((x, I(x.num.norm(total))))
                    continue
            else:
                total = ZERO
                ok = True
                for j in range(n.c):
                    es = interp.element(x, q, Lin(j), fr, node)
                    if len(es) != 1 or es[0][0] is not x or M.int_lin(interp, x, es[0][1]) is None:
                        ok = False
                        break
                    total = total + M.int_lin(interp, x, es[0][1]) * (256 ** j)
                if ok:
                    out.append((x, I(total)))
                    continue
        u = U("from_bytes", (q, order), "int", labels_of(q))
        l = M.int_lin(interp, x, u)
        if signed == FALSE:
            x.assume_ge0(l)
        x.event("frombytes", q, u, node)
        out.append((x, u))
    return out


from .lib_bi import BI, bi_next  # noqa: E402,F401
