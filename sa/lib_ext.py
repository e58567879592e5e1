"""Models of what is outside of the package: files, sqlite3, argparse, rich,
re, json, itertools and the like.  Effects are recorded as events."""
import ast

from .num import Atom, Lin, ZERO, ONE
from .values import *
from .values import V, Raise
from . import seq
from .seq import as_seq, lit, simp, slen, cval, concat, norm_parts
from .join import fresh_base, elem_templates
from . import lib_sql, models as M
from . import prelude

NONE, TRUE, FALSE = C(None), C(True), C(False)

PURE = ("os.path.", "posixpath.", "math.", "string.", "textwrap.", "operator.", "typing.", "collections.abc.", "html.", "abc.",
        "hashlib.", "unicodedata.", "shlex.", "base64.", "binascii.", "zlib.", "struct.", "types.", "enum.", "pathlib.", "os.fspath", "codecs.")


def L():
    from . import lib

    return lib


def vals(args):
    return tuple(a if isinstance(a, V) else S("tuple", a.seq.parts) for a in args)


def labs_of(st, args, kw=()):
    r = set()
    for a in list(vals(args)) + list(kw.values() if isinstance(kw, dict) else kw):
        r |= labels_of(a, st)
    return r


def maybe_raise(interp, st, what, fr, node, name="OSError"):
    f = interp.ext_may_raise
    if f and (f is True or f(st, what)):
        bad = st.copy()
        bad.event("fails", what, interp.where(node, fr))
        return [(bad, interp.exc(bad, name, node, fr, "failure of " + what))]
    return []


def ext_obj(st, path, **f):
    f["path"] = C(path)
    return st.alloc(Obj("ext", None, f, "local"))


# ------------------------------------------------------------ functions


def ext_call(interp, st, path, args, kw, fr, node):
    h = EXT.get(path)
    if h is not None:
        r = h(interp, st, args, kw, fr, node)
        if r is not None:
            return r
    name = prelude.LIB.get(path)
    if name is not None and interp.attr_of(prelude.NAME, name) is not None:
        if path not in ("itertools.product", "itertools.zip_longest") or len(args) == 2 and not kw.get("repeat"):
            return interp.call(st, interp.attr_of(prelude.NAME, name), args, kw, fr, node)
    if path.startswith(prelude.OPAQUE) and path not in ("operator.", ):
        st.vague(f"call of {path}")
    if path.startswith(PURE) and not any(isinstance(a, Ref) for a in vals(args)):
        labs = labs_of(st, args, kw)
        ks = tuple(kw[k] for k in sorted(kw))
        if path.rsplit(".", 1)[1] in ("splitext", "splitdrive", "commonpath", "commonprefix", "walk"):
            st.vague(f"call of {path}")
            return [(st, interp.fresh(path, None, labs | {"unk"}))]
        if path.startswith(("os.path.", "posixpath.")) and path.rsplit(".", 1)[1] not in ("exists", "isfile", "isdir", "getsize", "getmtime"):
            b = derived(path, vals(args) + ks, "str", labs)
            if path in interp.nonempty:
                st.assume_ge0(b.len - 1)
            return [(st, b.seq())]
        if path.startswith(("os.path.", "pathlib.Path.")):
            st.event("ext", path, vals(args), dict(kw), interp.where(node, fr))
        return [(st, U(path, vals(args) + ks, None, labs))]
    st.event("ext", path, vals(args), dict(kw), interp.where(node, fr))
    interp.unmodelled[path] = interp.unmodelled.get(path, 0) + 1
    out = maybe_raise(interp, st, path, fr, node)
    return out + [(st, interp.fresh(path, None, labs_of(st, args, kw) | {"unk"}))]


def x_path_split(interp, st, args, kw, fr, node):
    """A path is its directory and its name."""
    if len(args) != 1 or kw:
        return None
    return [(z, S("tuple", [One(d), One(n)])) for y, d in ext_call(interp, st, "os.path.dirname", args, kw, fr, node) for z, n in ext_call(interp, y, "os.path.basename", args, kw, fr, node)]


def x_cast(interp, st, args, kw, fr, node):
    return [(st, args[1])]


def x_identity(interp, st, args, kw, fr, node):
    return [(st, args[0])]


def x_opaque_pure(path):
    def f(interp, st, args, kw, fr, node):
        return [(st, U(path, vals(args), None))]

    return f


def x_field(interp, st, args, kw, fr, node):
    return [(st, st.alloc(Obj("fieldspec", None, dict(kw), "module")))]


def x_replace(interp, st, args, kw, fr, node):
    v = args[0]
    if isinstance(v, Ref) and st.obj(v).kind == "inst" and st.obj(v).cls.fields:
        o = st.obj(v)
        f = {n: o.f[n] for n, _, k in o.cls.fields if n in o.f and not (k or "").startswith("noinit")}
        for k in kw:
            if k not in f:
                return [(st, interp.exc(st, "TypeError", node, fr, f"replace(): {k}"))]
        f.update(kw)
        return L().construct(interp, st, o.cls, [], f, fr, node)
    if isinstance(v, U):
        cls = v.ty if isinstance(v.ty, Cls) else None
        for k, val in st.facts.items():
            if k[0] == "isa" and k[1] == v and val is True and isinstance(k[2], Cls):
                cls = k[2]
        if cls is not None and cls.fields:
            f = {}
            for n, _, _ in cls.fields:
                if n in kw:
                    f[n] = kw[n]
                else:
                    rs = interp.getattr(st, v, n, fr, node)
                    f[n] = rs[0][1]
            return L().construct(interp, st, cls, [], f, fr, node)
    if isinstance(v, (C, I, S)):
        return [(st, interp.exc(st, "TypeError", node, fr, "replace()"))]
    return [(st, interp.fresh("replace", None, labels_of(v, st) | {"unk"}))]


def x_namedtuple(interp, st, args, kw, fr, node):
    name = args[0].v if isinstance(args[0], C) else "namedtuple"
    spec = args[1] if len(args) > 1 else kw.get("field_names")
    names = None
    q = as_seq(spec)
    if q is not None and q.kind == "str":
        t = q.parts[0].v if q.parts else ""
        names = t.replace(",", " ").split()
    else:
        q = M.seqv(interp, st, spec)
        ex = M.explicit(q) if q is not None else None
        if ex is not None and all(isinstance(x, C) for x in ex):
            names = [x.v for x in ex]
    if names is None:
        return [(st, interp.fresh("namedtuple", labels={"unk"}))]
    env = st.alloc(Obj("clsenv", None, {"__qualname__": C(name)}, "module"))
    cls = Cls(name, (), fr.mod if fr else "?", env.id, node, name)
    cls.slots = []
    cls.nt = True
    ds = []
    if "defaults" in kw:
        dq = M.seqv(interp, st, kw["defaults"])
        ds = M.explicit(dq) or []
    k = len(names) - len(ds)
    cls.fields = [(n, ds[i - k] if i >= k else None, "default" if i >= k else None) for i, n in enumerate(names)]
    return [(st, cls)]


def x_partial(interp, st, args, kw, fr, node):
    return [(st, st.alloc(Obj("partial", None, {"fn": args[0], "args": S("list", [One(a) for a in args[1:] if isinstance(a, V)]), "kw": dict(kw)}, interp.owner)))]


def x_lru(interp, st, args, kw, fr, node):
    if args and isinstance(args[0], Fn):
        f = args[0]
        return [(st, Fn(f.node, f.name, f.mod, f.env, f.defaults, f.kwdefaults, f.gen, f.qual, f.flags | {"cached"}))]
    return [(st, Ext("functools.lru_cache()"))]


def x_chain(interp, st, args, kw, fr, node):
    parts = []
    for a in args:
        if isinstance(a, V):
            parts.append(One(a))
        else:
            parts += list(a.seq.parts)
    return [(st, st.alloc(Obj("chain", None, {"of": S("list", parts)}, interp.owner)))]


def x_chain_from(interp, st, args, kw, fr, node):
    v, err = M.view(interp, st, args[0], fr, node)
    if err is not None:
        return [(st, err)]
    if isinstance(v, S):
        return [(st, st.alloc(Obj("chain", None, {"of": S("list", M.token_parts(v))}, interp.owner)))]

    def run(interp, s, handler, fr2, n2):
        def inner(x, e):
            return [(y, ("exc", w) if isinstance(w, Raise) else None) for y, w in handler(x, e)]

        def outer(x, e):
            return interp.iterate(x, e, inner, fr, node)

        return [(y, NONE if sig is None else sig[1]) for y, sig in interp.iterate(s, v, outer, fr, node)]

    from .lib_bi import py_gen

    g = py_gen(interp, st, "chain", run)
    st.put(g, st.obj(g).set(flat=v))
    return [(st, g)]


def x_repeat(interp, st, args, kw, fr, node):
    if len(args) == 1 and not kw:
        return interp.call(st, interp.attr_of(prelude.NAME, "forever"), args, kw, fr, node)
    if len(args) > 1:
        l = M.int_lin(interp, st, args[1])
        if l is not None:
            v = args[0]
            b = derived("repeated", (v, I(l)), "list", labels_of(v, st), l, lambda interp, s, c, j: [(s, c.args[0])])
            return [(st, st.alloc(Obj("iter", None, {"seq": b.seq()}, "local")))]
    return None


# copies ------------------------------------------------------------------


def copy_value(interp, st, v, deep, memo):
    if isinstance(v, Ref):
        if v in memo:
            return memo[v]
        o = st.obj(v)
        if o.kind in ("list", "dict", "set", "inst"):
            if o.kind == "inst" and o.cls.nt and not deep:
                return v
            r = st.alloc(Obj(o.kind, o.cls, dict(o.f), interp.owner, o.labels, o.site))
            memo[v] = r
            if deep:
                f = {}
                for k, x in o.f.items():
                    if isinstance(x, S):
                        f[k] = S(x.kind, [One(copy_value(interp, st, p.v, deep, memo)) if isinstance(p, One) else p for p in x.parts])
                    elif isinstance(x, tuple):
                        f[k] = tuple(tuple(copy_value(interp, st, y, deep, memo) if isinstance(y, V) else y for y in e) if isinstance(e, tuple) else e for e in x)
                    elif isinstance(x, V):
                        f[k] = copy_value(interp, st, x, deep, memo)
                    else:
                        f[k] = x
                st.put(r, Obj(o.kind, o.cls, f, interp.owner, o.labels, o.site))
            return r
        return v
    if isinstance(v, S) and v.kind == "tuple" and deep:
        return S("tuple", [One(copy_value(interp, st, p.v, deep, memo)) if isinstance(p, One) else p for p in v.parts])
    return v


def x_deepcopy(interp, st, args, kw, fr, node):
    return [(st, copy_value(interp, st, args[0], True, {}))]


def x_copy(interp, st, args, kw, fr, node):
    return [(st, copy_value(interp, st, args[0], False, {}))]


# re ----------------------------------------------------------------------


def regex_of(interp, st, v):
    if isinstance(v, U) and v.op == "regex":
        return v
    return U("regex", (v,), None, labels_of(v, st))


def x_re_compile(interp, st, args, kw, fr, node):
    fl = tuple(args[1:]) + ((kw["flags"],) if "flags" in kw else ())
    return [(st, U("regex", (args[0],) + fl, None, labels_of(args[0], st)))]


def re_op(interp, st, name, rx, args, kw, fr, node):
    s = M.seqv(interp, st, args[0]) if args else None
    if s is None and args and isinstance(args[0], U) and args[0].ty is None:
        s = derived("val", (args[0],), "str", args[0].labels).seq()
    if s is None:
        return [(st, interp.fresh("re." + name, None, {"unk"}))]
    labs = labels_of(s)
    from .regex import pattern

    pk = pattern(rx)
    if pk is not None and isinstance(pk[0], str) != (s.kind == "str") and name in ("finditer", "findall", "match", "search", "fullmatch", "split"):
        return [(st, interp.exc(st, "TypeError", node, fr, "regular expression and text of different kinds"))]
    h = interp.__dict__.get("regex_pieces")
    if h is not None and name in ("finditer", "findall") and pk is not None:
        ps = h(st, pk, s)
        if ps is not None:
            if name == "finditer":
                return [(st, st.alloc(Obj("iter", None, {"seq": S("list", [One(U("matchx", (q,), None, labs)) for q in ps])}, "local")))]
            if ngroups(rx) == 0:
                return [(st, st.alloc(Obj("list", None, {"seq": S("list", [One(simp(q)) for q in ps])}, interp.owner)))]
        st.vague("matches of " + str(pk[0]))
    if name in ("finditer", "findall"):
        mb = derived("matches", (rx, s), "list", labs, None, lambda interp, x, c, j: [(x, U("match", (c, I(j)), None, c.labels))])
        if name == "finditer":
            return [(st, st.alloc(Obj("iter", None, {"seq": mb.seq()}, "local")))]
        fb = derived("findall", (mb,), "list", labs, mb.len, lambda interp, x, c, j: [
            (x, derived("group" if ngroups(rx) == 0 else "subgroup", (c.args[0], I(j)), s.kind, c.labels).seq())])
        return [(st, st.alloc(Obj("list", None, {"seq": fb.seq()}, interp.owner)))]
    if name in ("match", "search", "fullmatch"):
        return [(st, U("re." + name, (rx, s), None, labs))]
    if name == "split":
        return [(st, st.alloc(Obj("list", None, {"seq": derived("re.split", (rx, s), "list", labs, None,
                 lambda interp, x, c, j: [(x, derived("piece", (c, I(j)), s.kind, labs).seq())]).seq()}, interp.owner)))]
    return [(st, U("re." + name, (rx, s) + tuple(a for a in args[1:] if isinstance(a, V)), None, labs))]


def ngroups(rx):
    import re

    p = rx.args[0]
    try:
        return re.compile(p.v).groups
    except Exception:
        return 1


def x_re(name):
    def f(interp, st, args, kw, fr, node):
        if name == "sub":
            q = M.seqv(interp, st, args[2]) if len(args) > 2 else None
            return [(st, derived("re.sub", (args[0], args[1] if isinstance(args[1], (C, S)) else NONE) + ((args[2],) if len(args) > 2 else ()), "str", labs_of(st, args)).seq())]
        if name == "escape":
            return [(st, derived("re.escape", vals(args), "str", labs_of(st, args)).seq())]
        return re_op(interp, st, name, U("regex", (args[0],) + tuple(args[2:]) + tuple(kw.values()), None, labels_of(args[0], st)), args[1:2], kw, fr, node)

    return f


# json --------------------------------------------------------------------


def freeze(st, v, depth=0):
    """The structure of a value as a term (no references)."""
    if isinstance(v, Ref) and depth < 8:
        o = st.obj(v)
        if o.kind == "list":
            return U("L", [freeze_parts(st, o.f["seq"], depth)])
        if o.kind == "dict":
            return U("D", [S("tuple", [One(freeze(st, k, depth + 1)), One(freeze(st, x, depth + 1))]) for k, x in o.f["ents"] if x is not None] + [o.f["rest"]])
        if o.kind == "inst":
            return U("O", [C(o.cls.name)] + [freeze(st, x, depth + 1) for x in o.f.values() if isinstance(x, V)])
        return v
    if isinstance(v, S):
        return freeze_parts(st, v, depth)
    return v


def freeze_parts(st, q, depth):
    return S(q.kind, [One(freeze(st, p.v, depth + 1)) if isinstance(p, One) else p for p in q.parts])


def thaw(interp, st, v):
    if isinstance(v, U) and v.op == "L":
        q = v.args[0]
        return st.alloc(Obj("list", None, {"seq": S("list", [One(thaw(interp, st, p.v)) if isinstance(p, One) else p for p in q.parts])}, interp.owner))
    if isinstance(v, U) and v.op == "D":
        ents = tuple((e.parts[0].v, thaw(interp, st, e.parts[1].v)) for e in v.args[:-1])
        return st.alloc(Obj("dict", None, {"ents": ents, "rest": v.args[-1]}, interp.owner))
    if isinstance(v, S) and v.kind == "tuple":
        return st.alloc(Obj("list", None, {"seq": S("list", [One(thaw(interp, st, p.v)) if isinstance(p, One) else p for p in v.parts])}, interp.owner))
    return v


def x_dumps(interp, st, args, kw, fr, node):
    t = freeze(st, args[0])
    form = {k: v for k, v in kw.items() if k not in ("indent", "ensure_ascii", "check_circular", "allow_nan", "skipkeys") and not (v == NONE or v == FALSE)}
    if "separators" in form:
        q = M.seqv(interp, st, form["separators"])
        ex = M.explicit(q) if q is not None else None
        if ex is not None and len(ex) == 2 and all(as_seq(x) is not None for x in ex):
            a, b = ("".join(p.v if isinstance(p, Lit) else "?" for p in as_seq(x).parts) for x in ex)
            if a.strip(" \t\r\n") == "," and b.strip(" \t\r\n") == ":":
                del form["separators"]
    if form:
        return [(st, derived("json.dumps otherwise", (t,) + tuple(form[k] for k in sorted(form)), "str", labels_of(args[0], st)).seq())]
    ascii = kw.get("ensure_ascii", TRUE) == TRUE
    b = derived("json.dumps" if ascii else "json.dumps in Unicode", (t,), "str", labels_of(args[0], st))
    if ascii:
        b.meta = "ascii"
    return [(st, b.seq())]


def lib_text_decode(interp, st, q, fr, node):
    from .lib_text import decode

    return decode(interp, st, q, [], {}, fr, node)


def x_loads(interp, st, args, kw, fr, node):
    q = M.seqv(interp, st, args[0])
    if q is not None and q.kind == "bytes":
        # json finds out the encoding by itself
        return [y for x, t in lib_text_decode(interp, st, q, fr, node) for y in ([(x, t)] if isinstance(t, Raise) else x_loads(interp, x, [t], kw, fr, node))]
    if q is not None and len(q.parts) == 1 and isinstance(q.parts[0], Sl) and q.parts[0].base.op in ("json.dumps", "json.dumps in Unicode") and seq._whole(st.num, q.parts[0]):
        return [(st, thaw(interp, st, q.parts[0].base.args[0]))]
    return [(st, U("json.loads", (args[0],), None, labels_of(args[0], st)))]


# files -------------------------------------------------------------------


def open_(interp, st, args, kw, fr, node):
    a = dict(zip(("file", "mode", "buffering", "encoding", "errors", "newline"), args))
    a.update(kw)
    mode = a.get("mode", C("r"))
    out = maybe_raise(interp, st, "open", fr, node)
    ref = ext_obj(st, "file", file=a.get("file", NONE), mode=mode, opts=tuple(sorted((k, v) for k, v in a.items() if k not in ("file", "mode"))))
    st.event("open", ref, a.get("file", NONE), mode, {k: v for k, v in a.items() if k not in ("file", "mode")}, interp.where(node, fr))
    return out + [(st, ref)]


def x_stringio(interp, st, args, kw, fr, node):
    init = as_seq(args[0]) if args else S("str")
    return [(st, ext_obj(st, "io.StringIO", buf=init if init is not None else S("str")))]


# objects -----------------------------------------------------------------


def ext_path(st, o):
    return st.obj(o).f["path"].v


def ext_method(interp, st, o, name, args, kw, fr, node):
    path = ext_path(st, o)
    h = interp.ext_models.get((path, name))
    if h is not None:
        r = h(interp, st, o, args, kw, fr, node)
        if r is not None:
            return r
    f = OBJ.get(path)
    if f is not None:
        r = f(interp, st, o, name, args, kw, fr, node)
        if r is not None:
            return r
    if name in ("__enter__",):
        return [(s, v) for s, v in enter(interp, st, o, fr, node)]
    if name in ("__exit__",):
        return [(st, FALSE)]
    st.event("ext", path + "." + name, vals(args), dict(kw), interp.where(node, fr))
    interp.unmodelled[path + "." + name] = interp.unmodelled.get(path + "." + name, 0) + 1
    return maybe_raise(interp, st, path + "." + name, fr, node) + [(st, interp.fresh(path + "." + name, None, labs_of(st, args, kw) | {"unk"}))]


def o_file(interp, st, o, name, args, kw, fr, node):
    ob = st.obj(o)
    w = interp.where(node, fr)
    mode = ob.f["mode"]
    m = mode.v if isinstance(mode, C) else "?"
    kind = "bytes" if isinstance(m, str) and "b" in m else "str"
    if name in ("read", "readlines", "readline"):
        out = maybe_raise(interp, st, "read", fr, node)
        enc = dict(ob.f.get("opts") or ()).get("encoding", NONE)
        if interp.undecodable and kind == "str" and not (isinstance(enc, C) and str(enc.v).lower().replace("_", "-") in ("iso-8859-1", "latin-1", "latin1", "iso8859-1")):
            bad = st.copy()
            bad.event("fails", "decoding", w)
            out.append((bad, interp.exc(bad, "UnicodeDecodeError", node, fr, "not in this encoding")))
        st.event("read", o, w)
        key = (ob.f["file"] if isinstance(ob.f["file"], V) else NONE, mode)
        labs = labels_of(ob.f["file"], st)
        if name == "read":
            return out + [(st, derived("contents", key, kind, labs | interp.__dict__.get("read_labels", frozenset())).seq())]
        b = derived("filelines", key, "list", labs, None, lambda interp, x, c, j: [(x, derived("piece", (c, I(j)), kind, labs).seq())])
        if name == "readlines":
            return out + [(st, st.alloc(Obj("list", None, {"seq": b.seq()}, interp.owner)))]
        return out + [(st, interp.fresh("readline", kind, labs))]
    if name in ("write", "writelines"):
        out = maybe_raise(interp, st, "write", fr, node)
        st.event("write", o, args[0], w)
        return out + [(st, interp.fresh("written", "int"))]
    if name == "close":
        st.event("close", o, w)
        return [(st, NONE)]
    if name == "flush":
        return maybe_raise(interp, st, "flush", fr, node) + [(st, NONE)]
    return None


def o_stringio(interp, st, o, name, args, kw, fr, node):
    if name == "write":
        q = M.seqv(interp, st, args[0])
        if q is None and isinstance(args[0], U) and args[0].ty is None:
            q = derived("val", (args[0],), "str", args[0].labels).seq()
        if q is None or q.kind != "str":
            return [(st, interp.exc(st, "TypeError", node, fr, "StringIO.write"))]
        st.event("write", o, args[0], interp.where(node, fr))
        st.put(o, st.obj(o).set(buf=concat(st.num, st.obj(o).f["buf"], q)))
        return [(st, interp.fresh("written", "int"))]
    if name in ("getvalue", "read"):
        return [(st, simp(st.obj(o).f["buf"]))]
    if name in ("close", "flush"):
        return [(st, NONE)]
    return None


def x_connect(interp, st, args, kw, fr, node):
    out = maybe_raise(interp, st, "sqlite3.connect", fr, node, "sqlite3.OperationalError")
    r = ext_obj(st, "sqlite3.Connection", db=args[0] if args else NONE, kw=tuple(sorted(kw.items())))
    st.event("connect", r, vals(args), dict(kw), interp.where(node, fr))
    return out + [(st, r)]


def o_conn(interp, st, o, name, args, kw, fr, node):
    w = interp.where(node, fr)
    if name == "cursor":
        return [(st, ext_obj(st, "sqlite3.Cursor", conn=o))]
    if name in ("execute", "executemany", "executescript"):
        c = ext_obj(st, "sqlite3.Cursor", conn=o)
        return o_cursor(interp, st, c, name, args, kw, fr, node)
    if name in ("commit", "rollback", "close"):
        out = maybe_raise(interp, st, "sqlite3." + name, fr, node, "sqlite3.OperationalError") if name == "commit" else []
        st.event("tx", name, o, w)
        if interp.db:
            (lib_sql.commit if name == "commit" else lib_sql.rollback)(st, o)
        return out + [(st, NONE)]
    return None


def o_cursor(interp, st, o, name, args, kw, fr, node):
    w = interp.where(node, fr)
    ob = st.obj(o)
    if name in ("execute", "executemany", "executescript"):
        sql = args[0]
        params = args[1] if len(args) > 1 else kw.get("parameters", NONE)
        out = maybe_raise(interp, st, "sql", fr, node, "sqlite3.OperationalError")
        interp.uid += 1
        pq = freeze(st, params)
        st.event("sql", ob.f["conn"], sql, pq, name, w, interp.uid)
        st.put(o, ob.set(last=S("tuple", (One(sql), One(pq), One(I(interp.uid)))), fetched=I(0)))
        if interp.db:
            r = lib_sql.execute(interp, st, o, sql, params, fr, node, name == "executemany", name == "executescript")
            if r is not None:
                return out + [(s, o if v is None else v) for s, v in r]
        return out + [(st, o)]
    if name in ("fetchone", "fetchall", "fetchmany") and interp.db and "rows" in ob.f:
        left = list(ob.f["rows"].parts)
        if name == "fetchone":
            st.put(o, ob.set(rows=S("list", left[1:])))
            return [(st, left[0].v if left else NONE)]
        n = len(left)
        if name == "fetchmany":
            k = M.int_lin(interp, st, args[0]) if args else kw.get("size") and M.int_lin(interp, st, kw["size"]) or Lin.of(1)
            if k is None or not k.const:
                st.vague("fetchmany")
                k = Lin.of(1)
            n = k.c
        st.put(o, ob.set(rows=S("list", left[n:])))
        return [(st, st.alloc(Obj("list", None, {"seq": S("list", left[:n])}, interp.owner)))]
    if name in ("fetchone", "fetchall", "fetchmany"):
        last = ob.f.get("last")
        h = interp.__dict__.get("sql_hook")
        if h is not None:
            r = h(interp, st, o, name, last, fr, node)
            if r is not None:
                return r
        key = last if last is not None else NONE
        if name == "fetchone":
            k = ob.f.get("fetched", I(0))
            st.put(o, ob.set(fetched=I(k.lin + 1)))
            return [(st, U("row", (key, k), None, {"db"}))]
        b = derived("rows", (key,), "list", {"db"}, None, lambda interp, x, c, j: [(x, U("row", (c.args[0], I(j)), "tuple", {"db"}))])
        return [(st, st.alloc(Obj("list", None, {"seq": b.seq()}, interp.owner)))]
    if name == "close":
        return [(st, NONE)]
    return None


def x_argparser(interp, st, args, kw, fr, node):
    return [(st, ext_obj(st, "argparse.ArgumentParser", opts=(), n=I(0)))]


def o_parser(interp, st, o, name, args, kw, fr, node):
    ob = st.obj(o)
    if name == "add_argument":
        names = [a.v for a in args if isinstance(a, C) and isinstance(a.v, str)]
        if len(names) != len(args) or not names:
            st.vague("argument names")
            return [(st, NONE)]
        dest = kw["dest"].v if isinstance(kw.get("dest"), C) else None
        if dest is None:
            longs = [n for n in names if n.startswith("--")] or names
            dest = longs[0].lstrip("-").replace("-", "_")
        root = ob.f.get("parser", o)
        group = ob.f.get("group", NONE)
        ro = st.obj(root)
        spec = (dest, tuple(names), tuple(sorted(kw.items(), key=lambda p: p[0])), group)
        st.put(root, ro.set(opts=ro.f["opts"] + (spec,)))
        st.event("option", root, spec, interp.where(node, fr))
        return [(st, ext_obj(st, "argparse.Action"))]
    if name in ("add_mutually_exclusive_group", "add_argument_group"):
        root = ob.f.get("parser", o)
        interp.uid += 1
        return [(st, ext_obj(st, "argparse.ArgumentParser", parser=root, group=I(interp.uid) if "exclusive" in name else NONE, opts=()))]
    if name == "parse_args":
        # usage errors end the program here
        st.event("parse_args", o, interp.where(node, fr))
        ns = ext_obj(st, "argparse.Namespace", parser=o)
        opts = st.obj(o).f["opts"]
        for d, _, _, g in opts:
            if g != NONE:
                others = [x for x, _, _, h in opts if h == g and x != d]
                interp.exclusive_groups.append((U("arg", (C(d),)), tuple(U("arg", (C(x),)) for x in others)))
        return [(st, ns)]
    if name in ("error", "exit"):
        e = st.alloc(Obj("exc", None, {"type": Bi("SystemExit"), "args": S("tuple"), "msg": NONE}, "local"))
        return [(st, Raise(e, node, fn=fr.fn))]
    if name in ("set_defaults", "print_help", "print_usage", "format_help"):
        return [(st, NONE)]
    return None


def arg_value(interp, st, ns, name, fr, node):
    parser = st.obj(ns).f["parser"]
    for d, names, kw, g in st.obj(parser).f["opts"]:
        if d != name:
            continue
        kw = dict(kw)
        action = kw["action"].v if isinstance(kw.get("action"), C) else "store"
        if action in ("store_true", "store_false"):
            return U("arg", (C(d),), "bool", {"arg"})
        positional = not names[0].startswith("-")
        ty = kw.get("type")
        if isinstance(ty, Bi) and ty.name in ("int", "float"):
            return U("arg", (C(d),), "int" if ty.name == "int" else "float", {"arg"})
        if "nargs" in kw and not (isinstance(kw["nargs"], C) and kw["nargs"].v == "?"):
            b = derived("arglist", (C(d),), "list", {"arg"}, None, lambda interp, x, c, j: [(x, U("argitem", (C(d), I(j)), "str", {"arg"}))])
            return st.alloc(Obj("list", None, {"seq": b.seq()}, "local"))
        if ty is not None and ty != Bi("str"):
            return U("arg", (C(d),), None, {"arg"})
        df = kw.get("default", NONE)
        req = kw.get("required", FALSE) == TRUE
        if positional and "nargs" not in kw or req or (df != NONE and M.seqv(interp, st, df) is not None):
            return U("arg", (C(d),), "str", {"arg"})
        # a text or None
        u = U("arg", (C(d),), None, {"arg"})
        if st.facts.get(("none", u)) is not True:
            st.facts.setdefault(("isa", u, "str"), True)
        return u
    return None


def x_console(interp, st, args, kw, fr, node):
    r = ext_obj(st, "rich.console.Console", kw=tuple(sorted(kw.items(), key=lambda p: p[0])))
    st.event("console", r, dict(kw), interp.where(node, fr))
    return [(st, r)]


def o_console(interp, st, o, name, args, kw, fr, node):
    if name in ("print", "out", "log", "rule"):
        out = maybe_raise(interp, st, "console." + name, fr, node)
        st.event("console." + name, o, vals(args), dict(kw), interp.where(node, fr))
        return out + [(st, NONE)]
    return None


def x_path(interp, st, args, kw, fr, node):
    if len(args) == 1 and not kw:
        return [(st, ext_obj(st, "pathlib.Path", file=args[0]))]
    return None


def o_path(interp, st, o, name, args, kw, fr, node):
    file = st.obj(o).f["file"]
    if name == "open":
        return open_(interp, st, [file] + list(args), kw, fr, node)
    if name in ("read_text", "read_bytes", "write_text", "write_bytes"):
        n = ("encoding", "errors", "newline")
        a = dict(zip(n, args if "read" in name else args[1:]))
        a.update(kw)
        data = a.pop("data", None) or (args[0] if args and "write" in name else NONE)
        a["mode"] = C(("r" if "read" in name else "w") + ("b" if "bytes" in name else ""))
        out = []
        for s, f in open_(interp, st, [file], a, fr, node):
            if isinstance(f, Raise):
                out.append((s, f))
                continue
            for s2, r in o_file(interp, s, f, "read" if "read" in name else "write", [] if "read" in name else [data], {}, fr, node):
                s2.event("close", f, interp.where(node, fr))
                out.append((s2, r))
        return out
    return None


def x_rich_escape(interp, st, args, kw, fr, node):
    q = M.seqv(interp, st, args[0])
    if q is None and isinstance(args[0], U):
        q = derived("val", (args[0],), "str", args[0].labels).seq()
    if q is None or q.kind != "str":
        return [(st, interp.exc(st, "TypeError", node, fr, "escape()"))]
    b = derived("rich.escape", (q,), "str", labels_of(q))
    st.assume_ge0(b.len - M.slen(q))
    return [(st, b.seq())]


OBJ = {"file": o_file, "pathlib.Path": o_path, "io.StringIO": o_stringio, "sqlite3.Connection": o_conn, "sqlite3.Cursor": o_cursor,
       "argparse.ArgumentParser": o_parser, "rich.console.Console": o_console}


def ext_attr(interp, st, v, name, fr, node):
    o = st.obj(v)
    path = o.f["path"].v
    if name in o.f and name not in ("path", "kw", "opts", "buf", "parser", "file", "mode", "group", "conn", "last", "fetched", "n", "db", "rows"):
        return [(st, o.f[name])]
    if path == "argparse.Namespace":
        a = arg_value(interp, st, v, name, fr, node)
        if a is not None:
            return [(st, a)]
        return [(st, interp.exc(st, "AttributeError", node, fr, f"no argument {name}"))]
    if path == "file" and name == "name":
        return [(st, o.f["file"])]
    if path == "sqlite3.Cursor" and name == "connection":
        return [(st, o.f["conn"])]
    if path == "sqlite3.Connection" and name == "in_transaction" and interp.db:
        return [(st, C(lib_sql.work(st, v) is not None))]
    if path == "sqlite3.Cursor" and name in ("rowcount", "lastrowid", "description"):
        return [(st, U("cursor." + name, (o.f.get("last", NONE),), "int" if name != "description" else None, {"db"}))]
    return [(st, Meth(v, name))]


def ext_iter(interp, st, v, fr, node):
    o = st.obj(v)
    path = o.f["path"].v
    if path == "file":
        return M.seqv(interp, st, ext_method(interp, st, v, "readlines", [], {}, fr, node)[-1][1])
    if path == "sqlite3.Cursor":
        r = o_cursor(interp, st, v, "fetchall", [], {}, fr, node)
        return M.seqv(interp, st, r[-1][1])
    return M.opaque_seq(interp, v)


def ext_getitem(interp, st, v, idx, fr, node):
    st.vague("item of an object from outside")
    return [(st, U("item", (v, idx), None, {"unk"}))]


def enter(interp, st, cm, fr, node):
    if isinstance(cm, Ref) and st.obj(cm).kind == "ext":
        p = ext_path(st, cm)
        if p == "sqlite3.Connection":
            st.event("tx", "enter", cm, interp.where(node, fr))
        if p == "closing":
            return [(st, st.obj(cm).f["of"])]
        if p == "nullcontext":
            return [(st, st.obj(cm).f["of"])]
        return [(st, cm)]
    if isinstance(cm, (C, I, S)):
        return [(st, interp.exc(st, "TypeError", node, fr, "not a context manager"))]
    st.event("enter", cm, interp.where(node, fr))
    return [(st, U("entered", (cm,), None, labels_of(cm, st)) if not isinstance(cm, Ref) else cm)]


def exit_(interp, st, cm, sig, fr, node):
    if isinstance(cm, Ref) and st.obj(cm).kind == "ext":
        p = ext_path(st, cm)
        if p == "sqlite3.Connection":
            exc = sig is not None and sig[0] == "exc"
            st.event("tx", "exit-rollback" if exc else "exit-commit", cm, interp.where(node, fr))
            if interp.db:
                (lib_sql.rollback if exc else lib_sql.commit)(st, cm)
        if p == "file":
            st.event("close", cm, interp.where(node, fr))
        if p == "closing":
            m = st.obj(cm).f["of"]
            out = []
            for x, v in interp.getattr(st, m, "close", fr, node):
                for y, w in interp.call(x, v, [], {}, fr, node):
                    out.append((y, ("exc", w) if isinstance(w, Raise) else sig))
            return out
        if p == "suppress" and sig is not None and sig[0] == "exc" and sig[1].sig is None:
            out = []
            for x, b in interp.exc_match(st, sig[1].exc, st.obj(cm).f["of"]):
                out.append((x, None if b else sig))
            return out
        return [(st, sig)]
    st.event("exit", cm, interp.where(node, fr))
    return [(st, sig)]


def x_closing(kind):
    def f(interp, st, args, kw, fr, node):
        v = args[0] if args else NONE
        if kind == "suppress":
            v = UnionT(args)
        return [(st, ext_obj(st, kind, of=v))]

    return f


def x_new_list(interp, st, args, kw, fr, node):
    from .lib_bi import bi_list

    return bi_list(interp, st, args, {}, fr, node)


def x_new_dict(interp, st, args, kw, fr, node):
    from .lib_bi import bi_dict

    return bi_dict(interp, st, args, kw, fr, node)


def x_frombytes(interp, st, args, kw, fr, node):
    return L().from_bytes(interp, st, args, kw, fr, node)


def x_fromkeys(interp, st, args, kw, fr, node):
    q = M.seqv(interp, st, args[0])
    ex = M.explicit(q) if q is not None else None
    if ex is None:
        return None
    d = st.alloc(Obj("dict", None, {"ents": (), "rest": NONE}, interp.owner))
    cur = [st]
    for k in ex:
        cur = [t for s in cur for t, _ in M.dict_set(interp, s, d, k, args[1] if len(args) > 1 else NONE, fr, node, quiet=True)]
    return [(s, d) for s in cur]


def x_itemgetter(interp, st, args, kw, fr, node):
    idx = args[0]

    def get(interp, s, a, k, fr2, n2):
        return interp.getitem(s, a[0], idx, fr2, n2)

    return [(st, Py("itemgetter", get, (idx,)))]


def x_attrgetter(interp, st, args, kw, fr, node):
    nm = args[0].v

    def get(interp, s, a, k, fr2, n2):
        return interp.getattr(s, a[0], nm, fr2, n2)

    return [(st, Py("attrgetter", get, (args[0],)))]


def dataclass_(interp, st, args, kw, fr, node):
    return L().dataclass_decorator(interp, st, args, kw, fr, node)


EXT = {
    "dataclasses.dataclass": dataclass_, "dataclasses.field": x_field, "dataclasses.replace": x_replace, "copy.replace": x_replace,
    "typing.cast": x_cast, "typing.TypeVar": x_opaque_pure("TypeVar"), "typing.NewType": x_opaque_pure("NewType"),
    "collections.namedtuple": x_namedtuple, "functools.partial": x_partial, "functools.lru_cache": x_lru, "functools.cache": x_lru,
    "functools.wraps": lambda i, st, a, k, fr, n: [(st, Ext("functools.wraps()"))],
    "itertools.chain": x_chain, "itertools.chain.from_iterable": x_chain_from, "itertools.repeat": x_repeat,
    "copy.deepcopy": x_deepcopy, "copy.copy": x_copy,
    "re.compile": x_re_compile, "re.finditer": x_re("finditer"), "re.findall": x_re("findall"), "re.split": x_re("split"),
    "re.match": x_re("match"), "re.search": x_re("search"), "re.fullmatch": x_re("fullmatch"), "re.sub": x_re("sub"), "re.escape": x_re("escape"),
    "json.dumps": x_dumps, "json.loads": x_loads, "io.StringIO": x_stringio, "sqlite3.connect": x_connect,
    "argparse.ArgumentParser": x_argparser, "rich.console.Console": x_console, "rich.markup.escape": x_rich_escape, "pathlib.Path": x_path,
    "contextlib.closing": x_closing("closing"), "contextlib.suppress": x_closing("suppress"), "contextlib.nullcontext": x_closing("nullcontext"),
    "collections.deque": x_new_list, "collections.OrderedDict": x_new_dict, "int.from_bytes": x_frombytes, "dict.fromkeys": x_fromkeys,
    "operator.itemgetter": x_itemgetter, "operator.attrgetter": x_attrgetter, "sys.intern": x_identity,
    "os.fspath": x_identity, "os.path.split": x_path_split,
}
