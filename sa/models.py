"""Semantics of the builtin operations: operators, comparison, attribute and
item access.  Calls are in lib.py."""
import ast

from .num import Atom, Lin, ZERO, ONE
from .values import *
from .values import V, Raise
from . import seq
from .seq import as_seq, lit, simp, slen, cval, concat, norm_parts
from .join import fresh_base, fresh_var, elem_templates, merge_tmpls, generalise, materialise

NONE, TRUE, FALSE = C(None), C(True), C(False)

BUILTINS = {
    "int", "str", "bytes", "len", "list", "tuple", "dict", "set", "frozenset", "range", "enumerate", "zip", "reversed",
    "sorted", "min", "max", "sum", "any", "all", "isinstance", "issubclass", "type", "getattr", "setattr", "hasattr",
    "delattr", "print", "ord", "chr", "iter", "next", "map", "filter", "abs", "bool", "repr", "hash", "id", "slice", "open",
    "super", "vars", "callable", "divmod", "round", "object", "bytearray", "memoryview", "format", "float", "complex",
    "staticmethod", "classmethod", "property", "globals", "locals", "input", "eval", "exec", "compile", "__import__",
    "NotImplemented", "Ellipsis", "ascii", "bin", "hex", "oct", "pow", "exit", "quit", "dir",
}

EXT_ALIAS = {
    "builtins.open": Bi("open"), "builtins.print": Bi("print"), "itertools.chain": Ext("itertools.chain"), "io.open": Bi("open"),
    "typing.Tuple": Bi("tuple"), "typing.List": Bi("list"), "typing.Dict": Bi("dict"), "types.NoneType": Bi("NoneType"),
}


def install(interp):
    from . import lib

    interp.lib = lib
    interp.map_models = {}
    interp.exclusive_groups = []


def builtin(name):
    from .interp import EXC_PARENT

    if name in BUILTINS or name in EXC_PARENT:
        return Bi(name)
    if name in ("__name__", "__file__", "__debug__"):
        return C(name)
    return None


# ------------------------------------------------------------ sequences


def token_parts(q):
    """Parts of a sequence as parts of a container."""
    if q.kind in ("list", "tuple"):
        return q.parts
    out = []
    for p in q.parts:
        if isinstance(p, Lit):
            out += [One(cval(c)) for c in p.v]
        elif isinstance(p, Sl):
            out.append(Sl(chars(p.base), p.lo, p.hi))
        else:
            b = derived("text", (p,), q.kind, labels_of(p), part_len(p))
            out.append(chars(b).whole())
    return tuple(out)


def chars(b):
    if b.op == "chars":
        return b
    return derived("chars", (b,), "list", b.labels, b.len, lambda interp, s, c, j: interp.elem(s, c.args[0], j))


def opaque_seq(interp, v, kind="list"):
    b = derived("items", (v,), kind, labels_of(v) | {"unk"})
    return b.seq()


def int_lin(interp, st, v):
    """v as a linear form if it is an integer."""
    if isinstance(v, I):
        return v.lin
    if isinstance(v, C) and isinstance(v.v, bool):
        return Lin(int(v.v))
    if isinstance(v, U) and v.ty in ("int", "bool"):
        a = interp.__dict__.setdefault("int_atoms", {}).get(v)
        if a is None:
            a = interp.int_atoms[v] = Atom(repr(v), 0 if v.ty == "bool" or v.op in ("len", "ord", "sum0", "id") else None, 1 if v.ty == "bool" else None)
        return Lin.of(a)
    return None


def seqv(interp, st, v):
    """Sequence view of a value whose type is known to be a sequence."""
    s = as_seq(v)
    if s is not None:
        return s
    if isinstance(v, Ref):
        o = st.obj(v)
        if o.kind in ("list", "set"):
            return o.f["seq"]
        return None
    if isinstance(v, U):
        ty = v.ty
        if not isinstance(ty, str):
            for t in ("str", "bytes", "tuple", "list"):
                if st.facts.get(("isa", v, t)) is True:
                    ty = t
                    break
        if ty in ("str", "bytes", "tuple", "list"):
            b = derived("val", (v,), ty, v.labels, meta_len(interp, v))
            return b.seq()
    return None


def meta_len(interp, v):
    return None


def view(interp, st, v, fr, node):
    """Iterable -> (S or Ref of an iterator object, None) or (None, Raise)."""
    s = seqv(interp, st, v)
    if s is not None:
        return s, None
    if isinstance(v, Ref):
        o = st.obj(v)
        if o.kind == "gen":
            if o.f.get("done") == TRUE:
                return S("list"), None
            return v, None
        if o.kind in ("chain", "mapit", "filterit"):
            return v, None
        if o.kind == "iter":
            return o.f["seq"], None
        if o.kind == "dict":
            return dict_view(interp, st, v, "keys"), None
        if o.kind == "inst":
            if o.cls.nt:
                return S("tuple", [One(o.f[n]) for n, _, _ in o.cls.fields]), None
            m = interp.lookup(st, o.cls, "__iter__")
            if isinstance(m, Fn):
                r = interp.call(st, Bound(m, v), [], {}, fr, node)
                if len(r) == 1 and r[0][0] is st and not isinstance(r[0][1], Raise):
                    return view(interp, st, r[0][1], fr, node)
                return opaque_seq(interp, v), None
            if interp.lookup(st, o.cls, "__getitem__") is None and not has_ext_base(interp, o.cls):
                return None, interp.exc(st, "TypeError", node, fr, "not iterable")
            return opaque_seq(interp, v), None
        if o.kind == "ext":
            r = interp.lib.ext_iter(interp, st, v, fr, node)
            return r, None
        return None, interp.exc(st, "TypeError", node, fr, "not iterable")
    if isinstance(v, (I, Fn, Bound, SL, Cls)) or isinstance(v, C):
        return None, interp.exc(st, "TypeError", node, fr, "not iterable")
    if isinstance(v, U) and v.op == "range":
        return v.args[0], None
    if isinstance(v, U):
        b = derived("items", (v,), "list", v.labels)
        m = interp.map_models.get(v)
        return b.seq(), None
    return opaque_seq(interp, v), None


def has_ext_base(interp, cls):
    for c in interp.mro(cls):
        if isinstance(c, Ext) and c.path.split(".")[-1] not in ("Protocol", "Generic", "NamedTuple", "ABC", "object"):
            return True
        if isinstance(c, Bi) and c.name not in ("object",):
            return True
    return False


def single(interp, q):
    """(base, lo, hi) presenting the container as one slice."""
    if len(q.parts) == 1 and isinstance(q.parts[0], Sl):
        p = q.parts[0]
        return (chars(p.base) if q.kind in ("str", "bytes") else p.base), p.lo, p.hi
    b = derived("whole", (q,), "list", labels_of(q), slen(q), whole_elem)
    return b, ZERO, b.len


def whole_elem(interp, st, b, j):
    return interp.element(st, b.args[0], j, None, None)


def subseq(base, lo, hi):
    return S("list", (Sl(base, lo, hi),))


def explicit(q):
    """Values if the container is a list of known elements."""
    if q.kind in ("list", "tuple"):
        if all(isinstance(p, One) for p in q.parts):
            return [p.v for p in q.parts]
        return None
    if all(isinstance(p, Lit) for p in q.parts):
        return [cval(c) for p in q.parts for c in p.v]
    return None


def dict_view(interp, st, ref, what):
    o = st.obj(ref)
    parts = []
    rest = o.f["rest"]
    if isinstance(rest, U) and rest.op == "entries":
        B = rest.args[0]
        if what == "items":
            parts.append(B.whole())
        else:
            k = 0 if what == "keys" else 1
            b = derived(what, (B,), "list", B.labels, B.len, lambda interp, s, c, j, k=k: [
                (x, y.parts[k].v) for x, y in interp.elem(s, c.args[0], j)])
            parts.append(b.whole())
    elif rest != NONE:
        mm = interp.map_models.get(rest)
        if mm is not None and hasattr(mm, what):
            parts += list(getattr(mm, what)(interp, st, rest).parts)
        else:
            b = derived("dict" + what, (rest,), "list", rest.labels, None, dict_elem(what))
            parts.append(b.whole())
    for k, v in o.f["ents"]:
        if v is None:
            continue
        if what == "items":
            parts.append(One(S("tuple", (One(k), One(v)))))
        else:
            parts.append(One(k if what == "keys" else v))
    return S("list", parts)


def dict_elem(what):
    def at(interp, s, c, j):
        rest = c.args[0]
        k = U("key", (rest, I(j)), None, rest.labels)
        s.facts[("in", rest, k)] = True
        if what == "keys":
            return [(s, k)]
        v = rest_get(interp, s, rest, k)
        return [(s, v if what == "values" else S("tuple", (One(k), One(v))))]

    return at


# ------------------------------------------------------------ truth helpers


def unk(*vs):
    for v in vs:
        if isinstance(v, V) and "unk" in labels_of(v):
            return "unmodelled value"
    return None


# ------------------------------------------------------------ operators

OPN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.MatMult: "@"}


def is_type(v):
    from .interp import TYPES, EXC_PARENT

    return isinstance(v, (Cls, Ext, UnionT)) or isinstance(v, Bi) and (v.name in TYPES or v.name in EXC_PARENT) or isinstance(v, U) and v.op == "subscripted" or isinstance(v, C) and v.v is None


def binop(interp, op, a, b, st, fr, node, inplace=False):
    o = OPN[type(op)]
    if o == "|" and is_type(a) and is_type(b) and not (a == NONE and b == NONE):
        items = []
        for x in (a, b):
            if isinstance(x, UnionT):
                items += x.items
            elif isinstance(x, U):
                items.append(x.args[0])
            else:
                items.append(x)
        return [(st, UnionT(items))]
    # a text is text whatever else is unknown about the other side
    sa, sb = seqv(interp, st, a), seqv(interp, st, b)
    if isinstance(a, Ref) and st.obj(a).kind == "set" or isinstance(b, Ref) and st.obj(b).kind == "set":
        return set_op(interp, o, a, b, st, fr, node, inplace)
    if o == "+":
        if sa is not None and sb is not None:
            if sa.kind != sb.kind:
                if inplace and isinstance(a, Ref):
                    sb = S("list", token_parts(sb))
                else:
                    return [(st, interp.exc(st, "TypeError", node, fr, f"{sa.kind} + {sb.kind}"))]
            if isinstance(a, Ref):
                if inplace:
                    interp.mutated(st, a, "+=", fr, node, b)
                    st.put(a, st.obj(a).set(seq=concat(st.num, sa, sb)))
                    return [(st, a)]
                return [(st, st.alloc(Obj("list", None, {"seq": concat(st.num, sa, sb)}, interp.owner, site=node)))]
            return [(st, simp(concat(st.num, sa, sb)))]
        if (sa is not None) != (sb is not None):
            s, x = (sa, b) if sa is not None else (sb, a)
            if inplace and isinstance(a, Ref) and sb is None:
                out = []
                for y, q in interp.to_seq(st, b, fr, node):
                    if isinstance(q, Raise):
                        out.append((y, q))
                    else:
                        interp.mutated(y, a, "+=", fr, node, b)
                        y.put(a, y.obj(a).set(seq=concat(y.num, y.obj(a).f["seq"], S("list", token_parts(q)))))
                        out.append((y, a))
                return out
            t = interp.type_of(st, x)
            if t is not None and not isinstance(x, U):
                return [(st, interp.exc(st, "TypeError", node, fr, f"{s.kind} + {t!r}"))]
            if isinstance(x, U) and x.ty is None:
                # the other side has to be of the same kind
                part = derived("val", (x,), s.kind, x.labels).seq()
                q = concat(st.num, s, part) if sa is not None else concat(st.num, part, s)
                if s.kind == "list":
                    return [(st, st.alloc(Obj("list", None, {"seq": q}, interp.owner)))]
                st.facts[("isa", x, s.kind)] = True
                return [(st, simp(q))]
            return [(st, interp.exc(st, "TypeError", node, fr, f"{s.kind} + {x!r}"))]
    la, lb = int_lin(interp, st, a), int_lin(interp, st, b)
    if la is not None and lb is not None:
        r = int_op(interp, st, o, la, lb, a, b, fr, node)
        if r is not None:
            return r
    for x, y, l in ((a, b, lb), (b, a, la)):
        if isinstance(x, C) and isinstance(x.v, float) and x.v.is_integer() and l is not None and o in "+-*" and abs(x.v) < 2 ** 53:
            # an integer and a float: the integer becomes a float first
            r = []
            for s, v in to_float(interp, st, l):
                c = Lin(int(x.v))
                v = v * int(x.v) if o == "*" else v + c if o == "+" else v - c if x is b else c - v
                r += [(z, U("ratio", (I(w), I(Lin(1))), "float")) for z, w in to_float(interp, s, v)]
            return r
    if isinstance(a, U) and a.op == "ratio" and lb is not None and o in "+-":
        k = a.args[1].lin.c
        return [(st, U("ratio", (I(a.args[0].lin + (lb * k if o == "+" else -lb * k)), I(k)), "float"))]
    if isinstance(b, U) and b.op == "ratio" and la is not None and o == "+":
        return binop(interp, op, b, a, st, fr, node)
    if o == "*" and (sa is not None and lb is not None or sb is not None and la is not None):
        s, n = (sa, lb) if sa is not None else (sb, la)
        n = st.num.norm(n)
        if n.const and n.c <= 0:
            r = S(s.kind)
        elif n.const and n.c <= 16:
            r = S(s.kind, norm_parts(st.num, s.parts * n.c))
        else:
            e = None
            if s.kind in ("list", "tuple"):
                e = elem_templates(interp, st, s.parts)
            bb = derived("repeat", (s, I(n)), s.kind, labels_of(s), None, "tmpl" if e is not None else None, e or ())
            r = bb.seq()
        if isinstance(a, Ref) or isinstance(b, Ref):
            return [(st, st.alloc(Obj("list", None, {"seq": r}, interp.owner)))]
        return [(st, simp(r))]
    if o == "%" and sa is not None and sa.kind in ("str", "bytes"):
        bb = derived("percent", (sa, b), sa.kind, labels_of(sa) | labels_of(b, st))
        return [(st, bb.seq())]
    if isinstance(a, Ref) and st.obj(a).kind == "inst" or isinstance(b, Ref) and st.obj(b).kind == "inst":
        nm = {"+": "add", "-": "sub", "*": "mul", "|": "or", "&": "and", "%": "mod", "/": "truediv", "//": "floordiv"}.get(o)
        for x, y, p in ((a, b, "__%s__"), (b, a, "__r%s__")):
            if nm and isinstance(x, Ref) and st.obj(x).kind == "inst":
                m = interp.lookup(st, st.obj(x).cls, p % nm)
                if isinstance(m, Fn):
                    return interp.call(st, Bound(m, x), [y], {}, fr, node)
    if isinstance(a, Ref) and isinstance(b, Ref) and st.obj(a).kind == "dict" and st.obj(b).kind == "dict" and o == "|":
        d = a
        if not inplace:
            d = st.alloc(Obj("dict", None, dict(st.obj(a).f), interp.owner))
        else:
            interp.mutated(st, a, "|=", fr, node, b)
        return [(x, d) for x, _ in dict_update(interp, st, d, b, fr, node)]
    if not isinstance(a, U) and not isinstance(b, U):
        ta, tb = interp.type_of(st, a), interp.type_of(st, b)
        if ta is not None and tb is not None and not (isinstance(ta, Ext) or isinstance(tb, Ext)) and not _numeric(a) | _numeric(b):
            return [(st, interp.exc(st, "TypeError", node, fr, f"{ta!r} {o} {tb!r}"))]
        if a == NONE or b == NONE:
            return [(st, interp.exc(st, "TypeError", node, fr, f"None {o}"))]
    if a == NONE or b == NONE:
        return [(st, interp.exc(st, "TypeError", node, fr, f"None {o}"))]
    lab = labels_of(a, st) | labels_of(b, st)
    return [(st, U("op" + o, (a, b), "int" if la is not None and lb is not None else None, lab))]


def _numeric(v):
    return isinstance(v, I) or isinstance(v, C) and isinstance(v.v, (float, bool)) or isinstance(v, U)


def to_float(interp, st, lin):
    """What is left of an integer that becomes a float: itself, or something
    near it if it has more than 53 bits."""
    n = st.num
    lin = n.norm(lin)
    big = 2 ** 53
    out = []
    for s, small in interp.decide(st, Lin(big) - lin):
        for t, above in interp.decide(s, lin + big) if small else [(s, False)]:
            if small and above:
                out.append((t, lin))
                continue
            hi = max((abs(k * (a.hi or 0)) for a, k in lin.t), default=0) + abs(lin.c) if all(a.hi is not None for a, _ in lin.t) else None
            r = Lin.of(Atom("rounded"))
            if hi is not None:
                err = (hi >> 53) + 1
                if not (t.assume_ge0(r - lin + err) and t.assume_ge0(lin + err - r)):
                    continue
            out.append((t, r))
    return out


def int_op(interp, st, o, la, lb, a, b, fr, node):
    n = st.num
    if o == "+":
        return [(st, I(la + lb))]
    if o == "-":
        return [(st, I(la - lb))]
    na, nb = n.norm(la), n.norm(lb)
    if o == "*":
        if nb.const:
            return [(st, I(na * nb.c))]
        if na.const:
            return [(st, I(nb * na.c))]
        r = U("mul", (I(na), I(nb)), "int")
        l = int_lin(interp, st, r)
        if n.ge0(na) and n.ge0(nb):
            st.assume_ge0(l)
        return [(st, r)]
    if o in ("//", "%", "/"):
        if nb.const and nb.c == 0:
            return [(st, interp.exc(st, "ZeroDivisionError", node, fr))]
        if nb.const and nb.c > 0:
            if o == "/":
                return [(x, U("ratio", (I(v), I(nb)), "float")) for x, v in to_float(interp, st, na)]
            q, r = interp.divmod(st, na, nb.c)
            return [(st, I(q if o == "//" else r))]
        return [(st, U("op" + o, (I(na), I(nb)), "int" if o != "/" else "float"))]
    if na.const and nb.const:
        x, y = na.c, nb.c
        try:
            v = {"**": lambda: x ** y if y < 64 else None, "<<": lambda: x << y if y < 256 else None, ">>": lambda: x >> y, "|": lambda: x | y, "&": lambda: x & y, "^": lambda: x ^ y}[o]()
        except ValueError:
            return [(st, interp.exc(st, "ValueError", node, fr))]
        if isinstance(v, int):
            return [(st, I(v))]
    if o == "<<" and nb.const and 0 <= nb.c < 128:
        return [(st, I(na * (1 << nb.c)))]
    if o == ">>" and nb.const and 0 <= nb.c < 128:
        return [(st, I(interp.divmod(st, na, 1 << nb.c)[0]))]
    if o == "&":
        for x, y in ((na, nb), (nb, na)):
            if y.const and y.c >= 0 and (y.c & (y.c + 1)) == 0:
                return [(st, I(interp.divmod(st, x, y.c + 1)[1]))]
            if y.const and y.c > 0:
                # a run of ones that does not start at bit 0
                low = y.c & -y.c
                m = y.c // low
                if (m & (m + 1)) == 0:
                    q, _ = interp.divmod(st, x, low)
                    _, r = interp.divmod(st, q, m + 1)
                    return [(st, I(r * low))]
    if o == "|" or o == "^":
        for x, y in ((na, nb), (nb, na)):
            # disjoint bits: x is a multiple of 2**k and 0 <= y < 2**k
            g = 0
            from math import gcd
            for _, v in x.t:
                g = gcd(g, v)
            g = gcd(g, x.c)
            k = g & -g
            if k > 1 and n.ge0(y) and n.ge0(Lin(k - 1) - y):
                return [(st, I(x + y))]
    return [(st, U("op" + o, (I(na), I(nb)), "int"))]


def as_set(interp, st, q, fr, node):
    """A sequence of known elements without its duplicates."""
    from . import sets

    ex = sets.known(interp, st, q, fr, node)
    return S("list", [One(e) for e in ex]) if ex is not None else q


def set_op(interp, o, a, b, st, fr, node, inplace):
    sa, sb = seqv(interp, st, a), seqv(interp, st, b)
    if sa is None or sb is None:
        return [(st, U("op" + o, (a, b), "set", labels_of(a, st) | labels_of(b, st)))]
    from . import sets

    ex = sets.algebra(interp, st, {"|": "union", "&": "intersection", "-": "difference", "^": "symmetric_difference"}.get(o), S("list", token_parts(sa)), S("list", token_parts(sb)), fr, node)
    if ex is not None:
        q = S("list", [One(e) for e in ex])
    elif o == "|":
        q = S("list", norm_parts(st.num, sa.parts + sb.parts))
    else:
        e = elem_templates(interp, st, sa.parts if o != "^" else sa.parts + sb.parts)
        q = fresh_base("list", labels_of(sa, st) | labels_of(sb, st), e, "set").seq()
    if inplace and isinstance(a, Ref):
        interp.mutated(st, a, o + "=", fr, node, b)
        st.put(a, st.obj(a).set(seq=q))
        return [(st, a)]
    return [(st, st.alloc(Obj("set", None, {"seq": q}, interp.owner)))]


# ------------------------------------------------------------ comparison


def eqkey(a, b):
    return ("eq", frozenset((a, b)))


def eq(interp, st, a, b, fr, node):
    """-> [(state, bool or Raise)]"""
    la, lb = int_lin(interp, st, a), int_lin(interp, st, b)
    if la is not None and lb is not None:
        return interp.decide0(st, la - lb)
    if isinstance(a, C) and a.v is None or isinstance(b, C) and b.v is None:
        x, y = (b, a) if isinstance(a, C) and a.v is None else (a, b)
        if isinstance(x, Ref) and st.obj(x).kind == "inst":
            return [(st, False)]
        return interp.is_(st, x, y)
    ta, tb = interp.as_type(a), interp.as_type(b)
    if ta is not None and tb is not None:
        return [(st, ta == tb)]
    for x, y in ((a, b), (b, a)):
        if isinstance(x, U) and x.op == "type" and interp.as_type(y) is not None:
            return interp.isinstance_(st, x.args[0], y, exact=True)
        if isinstance(x, U) and x.op == "type" and isinstance(y, U) and y.op == "type":
            pass
    sa, sb = seqv(interp, st, a), seqv(interp, st, b)
    if sa is not None and sb is not None:
        ss = [isinstance(x, Ref) and st.obj(x).kind == "set" for x in (a, b)]
        if ss[0] != ss[1]:
            return [(st, False)]
        if ss[0] and a != b:
            from . import sets

            r = sets.relation(interp, st, "equal", sa, sb, fr, node)
            if r is not None:
                return [(st, r)]
            return interp.fork(st, eqkey(a, b), "equality of sets")
        ka = "list" if isinstance(a, Ref) else sa.kind
        kb = "list" if isinstance(b, Ref) else sb.kind
        if ka != kb:
            return [(st, False)]
        return eq_seq(interp, st, sa, sb, fr, node)
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a == b:
            return [(st, True)]
        oa, ob = st.obj(a), st.obj(b)
        if oa.kind == "inst" and ob.kind == "inst":
            m = interp.lookup(st, oa.cls, "__eq__")
            if isinstance(m, Fn):
                out = []
                for x, v in interp.call(st, Bound(m, a), [b], {}, fr, node):
                    out += [(x, v)] if isinstance(v, Raise) else interp.truth(x, v, fr, node)
                return out
            byval = oa.cls.nt or (oa.cls.dc is not None and oa.cls.dc.get("eq", True))
            if not byval:
                return [(st, False)]
            if oa.cls is not ob.cls and not (oa.cls.nt and ob.cls.nt):
                return [(st, False)]
            cur, out = [st], []
            names = [n for n, _, _ in oa.cls.fields]
            onames = [n for n, _, _ in ob.cls.fields]
            if len(names) != len(onames):
                return [(st, False)]
            for n, m in zip(names, onames):
                nxt = []
                for x in cur:
                    for y, r in eq(interp, x, oa.f.get(n, NONE), ob.f.get(m, NONE), fr, node):
                        if r is True:
                            nxt.append(y)
                        else:
                            out.append((y, r))
                cur = nxt
            return out + [(x, True) for x in cur]
        if oa.kind != ob.kind:
            return [(st, False)]
        return interp.fork(st, eqkey(a, b), "equality of objects")
    if isinstance(a, Ref) and st.obj(a).kind == "inst" or isinstance(b, Ref) and st.obj(b).kind == "inst":
        x, y = (a, b) if isinstance(a, Ref) and st.obj(a).kind == "inst" else (b, a)
        o = st.obj(x)
        m = interp.lookup(st, o.cls, "__eq__")
        if isinstance(m, Fn):
            out = []
            for s, v in interp.call(st, Bound(m, x), [y], {}, fr, node):
                out += [(s, v)] if isinstance(v, Raise) else interp.truth(s, v, fr, node)
            return out
        if o.cls.nt and seqv(interp, st, y) is not None:
            return eq_seq(interp, st, S("tuple", [One(o.f[n]) for n, _, _ in o.cls.fields]), seqv(interp, st, y), fr, node)
        if not isinstance(y, U) or y.ty in ("str", "bytes", "int", "bool", "float") or ("foreign", y) in st.facts:
            return [(st, False)]
        return interp.fork(st, eqkey(a, b), "equality of objects")
    if a == b:
        return [(st, True)]
    if not isinstance(a, U) and not isinstance(b, U):
        if isinstance(a, C) and isinstance(b, C):
            return [(st, a.v == b.v)]
        t1, t2 = interp.type_of(st, a), interp.type_of(st, b)
        if t1 is not None and t2 is not None and t1 != t2:
            return [(st, False)]
        if isinstance(a, SL) and isinstance(b, SL):
            cur, out = [st], []
            for x, y in ((a.lo, b.lo), (a.hi, b.hi), (a.step, b.step)):
                nxt = []
                for s in cur:
                    for z, r in eq(interp, s, x, y, fr, node):
                        (nxt.append(z) if r is True else out.append((z, r)))
                cur = nxt
            return out + [(s, True) for s in cur]
        return [(st, False)]
    # one side opaque: types that exclude one another
    for x, y in ((a, b), (b, a)):
        if isinstance(x, U) and not isinstance(y, U):
            t = interp.as_type(interp.type_of(st, y)) if interp.type_of(st, y) is not None else None
            if isinstance(x.ty, str) and t is not None and x.ty != t and {x.ty, t} != {"int", "bool"} and {x.ty, t} != {"int", "float"}:
                return [(st, False)]
            if isinstance(x.ty, Cls) and t is not None and t is not x.ty:
                return [(st, False)]
            if isinstance(x.ty, tuple) and t is not None and t not in x.ty:
                return [(st, False)]
    if isinstance(a, U) and isinstance(b, U) and a.ty is not None and b.ty is not None and isinstance(a.ty, str) and isinstance(b.ty, str) and a.ty != b.ty and {a.ty, b.ty} & {"str", "bytes", "tuple", "list"}:
        return [(st, False)]
    if isinstance(a, C) and isinstance(a.v, bool) or isinstance(b, C) and isinstance(b.v, bool):
        x, y = (b, a) if isinstance(a, C) else (a, b)
        if isinstance(x, U) and x.ty == "bool":
            return [(s, r == y.v) for s, r in interp.truth(st, x, fr, node)]
    return interp.fork(st, eqkey(a, b), unk(a, b))


def eq_seq(interp, st, a, b, fr, node):
    if seq.same(st.num, a, b):
        return [(st, True)]
    d = slen(a) - slen(b)
    z = st.num.is0(d)
    if z is False:
        return [(st, False)]
    r = plain_eq(st, a, b)
    if r is not None:
        return [(st, r)]
    # strip common ends
    pa, pb = list(norm_parts(st.num, a.parts)), list(norm_parts(st.num, b.parts))
    while pa and pb and seq.same_parts(st.num, pa[:1], pb[:1]) and not _lit_edge(pa, pb):
        pa.pop(0)
        pb.pop(0)
    while pa and pb and seq.same_parts(st.num, pa[-1:], pb[-1:]):
        pa.pop()
        pb.pop()
    a, b = S(a.kind, pa), S(b.kind, pb)
    if not pa and not pb:
        return [(st, True)]
    if not pa or not pb:
        return interp.decide0(st, slen(a if pa else b))
    ea, eb = explicit(a), explicit(b)
    if a.kind in ("tuple", "list") and ea is not None and eb is not None:
        if len(ea) != len(eb):
            return [(st, False)]
        cur, out = [st], []
        for x, y in zip(ea, eb):
            nxt = []
            for s in cur:
                for z2, r in eq(interp, s, x, y, fr, node):
                    (nxt.append(z2) if r is True else out.append((z2, r)))
            cur = nxt
        return out + [(s, True) for s in cur]
    if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], Lit) and isinstance(pb[0], Lit):
        return [(st, pa[0].v == pb[0].v)]
    if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], IB) and isinstance(pb[0], IB) and pa[0].n == pb[0].n:
        return interp.decide0(st, pa[0].lin - pb[0].lin)
    a, b = _canon(st, a), _canon(st, b)
    key = eqkey(a, b)
    if key in st.facts:
        return [(st, st.facts[key])]
    for x, y in ((a, b), (b, a)):
        if len(x.parts) == 1 and isinstance(x.parts[0], Lit) and _other_const(st, x, y):
            return [(st, False)]
    lab = unk(a, b)
    out = []
    t = st.copy()
    t.facts[key] = True
    if lab:
        t.vague(lab)
        st.vague(lab)
    if t.assume_eq0(d):
        out.append((t, True))
    st.facts[key] = False
    out.append((st, False))
    return out


def _canon(st, q):
    """The same value with whole slices written in the same way."""
    return S(q.kind, [Sl(p.base, ZERO, p.base.len) if isinstance(p, Sl) and seq._whole(st.num, p) else p for p in q.parts])


def _other_const(st, x, y):
    """y is known to equal a constant other than x."""
    for k, v in st.facts.items():
        if v is True and k[0] == "eq" and len(k[1]) == 2 and y in k[1]:
            (z,) = k[1] - {y}
            if isinstance(z, S) and len(z.parts) == 1 and isinstance(z.parts[0], Lit) and z != x:
                return True
    return False


def plain_words(q):
    """[word, separator, word, ...] of a text of constants and opaque pieces
    of word characters (words are tuples of parts), or None."""
    out = [()]
    for p in q.parts:
        if isinstance(p, Lit):
            for k in range(len(p.v)):
                c = p.v[k:k + 1]
                if isinstance(c, bytes) and c[0] > 127:
                    return None
                if c.isalnum() or c in ("_", b"_"):
                    out[-1] += (Lit(c),)
                else:
                    out += [c, ()]
        elif isinstance(p, Sl) and p.base.meta == "plain":
            out[-1] += (p,)
        else:
            return None
    return out


def plain_eq(st, a, b):
    """Equality of two such texts, if it follows from their form."""
    if a.kind not in ("str", "bytes") or a.kind != b.kind or not any(isinstance(p, Sl) and p.base.meta == "plain" for p in a.parts + b.parts):
        return None
    wa, wb = plain_words(a), plain_words(b)
    if wa is None or wb is None:
        return None
    if len(wa) != len(wb) or wa[1::2] != wb[1::2]:
        return False
    for x, y in zip(wa[::2], wb[::2]):
        if x == y:
            continue
        if len(x) == len(y) == 1 and isinstance(x[0], Sl) and isinstance(y[0], Sl):
            if st.facts.get(eqkey(S(a.kind, x), S(a.kind, y))) is False:
                return False
        return None
    return True


def _lit_edge(pa, pb):
    return False


def order(interp, st, op, a, b, fr, node):
    la, lb = int_lin(interp, st, a), int_lin(interp, st, b)
    if la is not None and lb is not None:
        if isinstance(op, ast.Lt):
            return interp.decide(st, lb - la - 1)
        if isinstance(op, ast.LtE):
            return interp.decide(st, lb - la)
        if isinstance(op, ast.Gt):
            return interp.decide(st, la - lb - 1)
        return interp.decide(st, la - lb)
    if a == NONE or b == NONE:
        return [(st, interp.exc(st, "TypeError", node, fr, "None compared"))]
    sa, sb = seqv(interp, st, a), seqv(interp, st, b)
    if all(isinstance(x, Ref) and (st.obj(x).kind == "set" or "view" in st.obj(x).f) for x in (a, b)):
        from . import sets

        r = sets.relation(interp, st, "issuperset" if isinstance(op, (ast.Gt, ast.GtE)) else "issubset", sa, sb, fr, node)
        if r and isinstance(op, (ast.Gt, ast.Lt)):
            r = not sets.relation(interp, st, "equal", sa, sb, fr, node)
        if r is not None:
            return [(st, r)]
        return interp.fork(st, ("order", type(op).__name__, a, b), "comparison of sets")
    if (la is not None) and sb is not None or (lb is not None) and sa is not None:
        return [(st, interp.exc(st, "TypeError", node, fr, "int compared with a sequence"))]
    if sa is not None and sb is not None and sa.kind == sb.kind == "tuple":
        ea, eb = explicit(sa), explicit(sb)
        if ea is not None and eb is not None and len(ea) == len(eb) and ea:
            # lexicographic
            out = []
            cur = [st]
            strict = ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt()
            for x, y in zip(ea, eb):
                nxt = []
                for s in cur:
                    for t, r in eq(interp, s, x, y, fr, node):
                        if isinstance(r, Raise):
                            out.append((t, r))
                        elif r:
                            nxt.append(t)
                        else:
                            out += order(interp, t, strict, x, y, fr, node)
                cur = nxt
            return out + [(s, isinstance(op, (ast.LtE, ast.GtE))) for s in cur]
    if isinstance(op, (ast.Gt, ast.GtE)):
        a, b = b, a
    # a < b or a <= b; normalise to not (b < a)
    strict = isinstance(op, (ast.Lt, ast.Gt))
    key = ("lt", a, b) if strict else ("lt", b, a)
    return [(s, r if strict else not r) for s, r in interp.fork(st, key, unk(a, b))]


def contains(interp, st, c, x, fr, node):
    if isinstance(c, Ext):
        st.event("impure", c.path, interp.where(node, fr))
    if isinstance(c, Ref):
        o = st.obj(c)
        if o.kind == "dict":
            r = unhashable(interp, st, x, fr, node)
            if r is not None:
                return [(st, r)]
            return [(s, v is not None) for s, v in dict_find(interp, st, c, x, fr, node)]
        if o.kind == "inst" and not o.cls.nt:
            m = interp.lookup(st, o.cls, "__contains__")
            if m is not None:
                out = []
                for s, v in interp.call(st, Bound(m, c), [x], {}, fr, node):
                    if isinstance(v, Raise):
                        out.append((s, v))
                    else:
                        out += interp.truth(s, v, fr, node)
                return out
            if interp.lookup(st, o.cls, "__iter__") is None and interp.lookup(st, o.cls, "__getitem__") is None and not has_ext_base(interp, o.cls):
                return [(st, interp.exc(st, "TypeError", node, fr, "not a container"))]
            return interp.fork(st, ("in", c, x), "membership")
        if o.kind == "ext":
            return interp.fork(st, ("in", c, x))
    q, err = view(interp, st, c, fr, node)
    if err is not None:
        return [(st, err)]
    if not isinstance(q, S):
        out = []
        for s, w in interp.to_seq(st, c, fr, node):
            if isinstance(w, Raise):
                out.append((s, w))
            else:
                out += in_seq(interp, s, w, x, fr, node)
        return out
    return in_seq(interp, st, q, x, fr, node)


def in_words(st, q, s):
    """Whether a text of constants and opaque words contains another, or None."""
    def word_char(c):
        return isinstance(c, bytes) and c[0] > 127 or c.isalnum() or c in ("_", b"_")

    def chars(v):
        return [v[k:k + 1] for k in range(len(v))]

    if not s.parts:
        return True
    if q.parts == s.parts:
        return True
    if not all(isinstance(p, Lit) or isinstance(p, Sl) and p.base.meta == "plain" for p in q.parts + s.parts):
        return None
    if len(s.parts) == 1 and isinstance(s.parts[0], Lit):
        t = s.parts[0].v
        if any(isinstance(p, Lit) and t in p.v for p in q.parts):
            return True
        if len(t) == 1 and not word_char(t):
            return False
        if not any(word_char(c) for c in chars(t)) and all(isinstance(p, Lit) or st.num.ge0(seq.part_len(p) - 1) is True for p in q.parts):
            return False  # words keep the constants apart
        return None
    if any(isinstance(p, Sl) and st.num.ge0(seq.part_len(p) - 1) is True for p in s.parts) and not any(isinstance(p, Sl) or any(word_char(c) for c in chars(p.v)) for p in q.parts):
        return False
    return None


def in_seq(interp, st, q, x, fr, node):
    if q.kind in ("str", "bytes"):
        s = seqv(interp, st, x)
        if q.kind == "str" and s is None and not isinstance(x, U):
            return [(st, interp.exc(st, "TypeError", node, fr, "in str"))]
        if s is not None and s.kind != q.kind:
            return [(st, interp.exc(st, "TypeError", node, fr, "in " + q.kind))]
        if s is not None and explicit(s) is not None and explicit(q) is not None:
            t = (s.parts[0].v if s.parts else seq.EMPTY[s.kind])
            u = (q.parts[0].v if q.parts else seq.EMPTY[q.kind])
            return [(st, t in u)]
        if s is not None:
            r = in_words(st, q, s)
            if r is not None:
                return [(st, r)]
        return interp.fork(st, ("in", q, x), unk(q, x))
    ex = explicit(q)
    if ex is not None and len(ex) <= 12:
        cur, out = [st], []
        for v in ex:
            nxt = []
            for s in cur:
                for t, r in eq(interp, s, v, x, fr, node):
                    (out.append((t, r)) if r is not False else nxt.append(t))
            cur = nxt
        return out + [(s, False) for s in cur]
    if any(isinstance(p, One) and p.v == x for p in q.parts):
        return [(st, True)]
    return interp.fork(st, ("in", q, x), unk(q, x))


# ------------------------------------------------------------ dicts


def unhashable(interp, st, k, fr, node):
    if isinstance(k, Ref) and st.obj(k).kind in ("list", "dict", "set"):
        return interp.exc(st, "TypeError", node, fr, "unhashable")
    if isinstance(k, Ref) and st.obj(k).kind == "inst":
        c = st.obj(k).cls
        if c.dc is not None and c.dc.get("eq", True) and not c.dc.get("frozen") and not c.dc.get("unsafe_hash") and interp.lookup(st, c, "__hash__") is None:
            return interp.exc(st, "TypeError", node, fr, "unhashable")
    return None


def rest_get(interp, st, rest, k):
    mm = interp.map_models.get(rest)
    if mm is not None:
        return mm.get(interp, st, rest, k)
    return U("get", (rest, k), None, rest.labels)


def rest_find(interp, st, rest, k, fr, node):
    """-> [(state, value or None)] from the unknown part of a mapping."""
    if rest == NONE:
        return [(st, None)]
    if isinstance(rest, U) and rest.op == "entries":
        out = []
        a = st.copy()
        if ("in", rest, k) not in st.facts:
            a.vague("entries of a mapping")
            st.vague("entries of a mapping")
        a.facts[("in", rest, k)] = False
        if st.facts.get(("in", rest, k)) is not True:
            out.append((a, None))
        if st.facts.get(("in", rest, k)) is not False:
            st.facts[("in", rest, k)] = True
            key = ("entry", rest, k)
            if key in st.facts:
                out.append((st, st.facts[key]))
            else:
                from .join import instantiate
                B = rest.args[0]
                for n, t in enumerate(B.tmpl):
                    x = st.copy()
                    v = instantiate(interp, x, t, B)
                    if v is None:
                        continue
                    kk = v.parts[0].v
                    for y, r in eq(interp, x, kk, k, fr, node):
                        if r is True:
                            y.facts[key] = v.parts[1].v
                            out.append((y, v.parts[1].v))
        return out
    mm = interp.map_models.get(rest)
    if mm is not None and hasattr(mm, "find"):
        return mm.find(interp, st, rest, k, fr, node)
    return [(s, rest_get(interp, s, rest, k) if b else None) for s, b in interp.fork(st, ("in", rest, k), unk(rest, k))]


def dict_find(interp, st, ref, k, fr, node):
    """-> [(state, value or None if absent)]"""
    o = st.obj(ref)
    ents = o.f["ents"]
    for kk, v in reversed(ents):
        if kk == k and not isinstance(kk, Ref):
            return [(st, v)]
    cur, out = [st], []
    for kk, v in reversed(ents):
        nxt = []
        for s in cur:
            for t, r in eq(interp, s, kk, k, fr, node):
                if r is True:
                    out.append((t, v))
                elif r is False:
                    nxt.append(t)
                else:
                    out.append((t, v))
        cur = nxt
    for s in cur:
        out += rest_find(interp, s, o.f["rest"], k, fr, node)
    return out


def dict_set(interp, st, ref, k, val, fr, node, quiet=False):
    r = unhashable(interp, st, k, fr, node)
    if r is not None:
        return [(st, r)]
    if not quiet:
        interp.mutated(st, ref, "[]=", fr, node, val)
        st.event("setitem", ref, k, val, interp.where(node, fr))
    o = st.obj(ref)
    out = []
    if isinstance(o.f["rest"], U) and o.f["rest"].op == "entries":
        # summarised: weak update
        rest = o.f["rest"]
        B = rest.args[0]
        ts = merge_tmpls(B.tmpl, (generalise(interp, st, S("tuple", (One(k), One(val)))),))
        if ts != B.tmpl:
            nb = fresh_base("list", B.labels | labels_of(val, st) | labels_of(k, st), ts, "ents")
            st.put(ref, o.set(rest=U("entries", (nb,), None, nb.labels)))
        return [(st, NONE)]
    cur = [(st, ())]
    ents = list(o.f["ents"])
    # find an equal key
    pend = [st]
    for n, (kk, v) in enumerate(ents):
        nxt = []
        for s in pend:
            for t, r in ([(s, True)] if kk == k and not isinstance(kk, Ref) else eq(interp, s, kk, k, fr, node)):
                if r is True:
                    e2 = list(ents)
                    if v is None:
                        del e2[n]
                        e2.append((kk, val))
                    else:
                        e2[n] = (kk, val)
                    t.put(ref, t.obj(ref).set(ents=tuple(e2)))
                    out.append((t, NONE))
                else:
                    nxt.append(t)
        pend = nxt
    for s in pend:
        s.put(ref, s.obj(ref).set(ents=tuple(ents) + ((k, val),)))
        out.append((s, NONE))
    return out


def dict_del(interp, st, ref, k, fr, node, default=None):
    """-> [(state, removed value or Raise)]"""
    out = []
    for s, v in dict_find(interp, st, ref, k, fr, node):
        if v is None:
            out.append((s, default if default is not None else interp.exc(s, "KeyError", node, fr)))
            continue
        interp.mutated(s, ref, "del []", fr, node, k)
        s.event("delitem", ref, k, interp.where(node, fr))
        o = s.obj(ref)
        ents = []
        hit = False
        for kk, vv in o.f["ents"]:
            if kk == k or s.facts.get(eqkey(kk, k)) is True or (isinstance(kk, (I, S)) and isinstance(k, (I, S)) and _defeq(s, kk, k)):
                hit = True
                continue
            ents.append((kk, vv))
        if o.f["rest"] != NONE:
            ents.append((k, None))
        s.put(ref, o.set(ents=tuple(ents)))
        out.append((s, v))
    return out


def _defeq(st, a, b):
    if isinstance(a, I) and isinstance(b, I):
        return st.num.is0(a.lin - b.lin) is True
    if isinstance(a, S) and isinstance(b, S):
        return seq.same(st.num, a, b)
    return False


def delitem(interp, st, v, idx, fr, node):
    if isinstance(v, Ref):
        o = st.obj(v)
        if o.kind == "dict":
            return [(s, r if isinstance(r, Raise) else NONE) for s, r in dict_del(interp, st, v, idx, fr, node)]
        if o.kind == "list":
            interp.mutated(st, v, "del []", fr, node)
            out = []
            q = o.f["seq"]
            if isinstance(idx, SL):
                for s, lo, hi in slice_bounds(interp, st, q, idx):
                    s2 = seq.split_at(s, q.parts, hi, interp)
                    for t, l, r in s2:
                        for u, l2, _ in seq.split_at(t, l, lo, interp):
                            u.put(v, u.obj(v).set(seq=S("list", norm_parts(u.num, l2 + r))))
                            out.append((u, NONE))
                return out
            for s, r in list_remove_at(interp, st, v, idx, fr, node):
                out.append((s, r if isinstance(r, Raise) else NONE))
            return out
        if o.kind == "inst":
            m = interp.lookup(st, o.cls, "__delitem__")
            if m is not None:
                return interp.call(st, Bound(m, v), [idx], {}, fr, node)
            return [(st, interp.exc(st, "TypeError", node, fr))]
    interp.mutated(st, v, "del []", fr, node)
    st.event("delitem", v, idx, interp.where(node, fr))
    return [(st, NONE)]


def slice_bounds(interp, st, q, sl):
    n = slen(q)
    out = []
    lo = None if sl.lo == NONE else int_lin(interp, st, sl.lo)
    hi = None if sl.hi == NONE else int_lin(interp, st, sl.hi)
    for s, a in ([(st, ZERO)] if lo is None else seq.clamp(st, lo, n)):
        for t, b in ([(s, n)] if hi is None else seq.clamp(s, hi, n)):
            for u, ok in interp.decide(t, b - a):
                out.append((u, a, b if ok else a))
    return out


def index_pos(interp, st, q, idx, fr, node):
    """-> [(state, position or Raise)] for 0 <= position < len."""
    l = int_lin(interp, st, idx)
    if l is None:
        if isinstance(idx, U):
            a = int_lin(interp, st, U("asint", (idx,), "int", idx.labels))
            n = slen(q)
            ok = st.copy()
            ok.vague("unknown index")
            if ok.assume_ge0(a) and ok.assume_ge0(n - a - 1):
                return [(ok, a)]
            return []
        return [(st, interp.exc(st, "TypeError", node, fr, "index type"))]
    n = slen(q)
    out = []
    for s, pos in interp.decide(st, l):
        i = l if pos else l + n
        for t, ok in (interp.decide(s, n - i - 1) if pos else interp.decide(s, i)):
            if ok:
                out.append((t, i))
            else:
                out.append((t, interp.exc(t, "IndexError", node, fr)))
    return out


def list_remove_at(interp, st, ref, idx, fr, node):
    """Remove and return one element."""
    out = []
    q = st.obj(ref).f["seq"]
    for s, i in index_pos(interp, st, q, idx, fr, node):
        if isinstance(i, Raise):
            out.append((s, i))
            continue
        for t, e in interp.element(s, q, i, fr, node):
            if isinstance(e, Raise):
                out.append((t, e))
                continue
            for u, l, r in seq.split_at(t, q.parts, i, interp):
                for w, _, r2 in seq.split_at(u, r, ONE, interp):
                    w.put(ref, w.obj(ref).set(seq=S(q.kind, norm_parts(w.num, l + r2))))
                    out.append((w, e))
    return out


def getitem(interp, st, v, idx, fr, node):
    if isinstance(v, Ext):
        st.event("impure", v.path, interp.where(node, fr))
    if is_type(v) and v != NONE and not isinstance(v, UnionT):
        return [(st, U("subscripted", (v, idx if isinstance(idx, V) else NONE)))]
    q = seqv(interp, st, v)
    if isinstance(v, Ref) and st.obj(v).kind == "set":
        return [(st, interp.exc(st, "TypeError", node, fr))]
    if q is None and isinstance(v, Ref) and st.obj(v).kind == "inst" and st.obj(v).cls.nt:
        q = S("tuple", [One(st.obj(v).f[n]) for n, _, _ in st.obj(v).cls.fields])
    if q is not None:
        if isinstance(idx, U) and interp_isa(interp, st, idx, "slice"):
            b = derived("slice", (q, idx), q.kind, labels_of(q) | idx.labels, None, "tmpl" if q.kind in ("list", "tuple") and any(isinstance(p, One) for p in q.parts) else None,
                        elem_templates(interp, st, q.parts) if q.kind in ("list", "tuple") and any(isinstance(p, One) for p in q.parts) else ())
            return [(st, b.seq())]
        if isinstance(idx, SL):
            out = []
            if idx.step != NONE and not (isinstance(idx.step, I) and st.num.is0(idx.step.lin - 1) is True):
                if isinstance(idx.step, I) and st.num.is0(idx.step.lin + 1) is True and idx.lo == NONE and idx.hi == NONE:
                    r = reverse_seq(interp, q)
                    if isinstance(v, Ref):
                        return [(st, st.alloc(Obj("list", None, {"seq": S("list", r.parts)}, interp.owner)))]
                    return [(st, simp(r))]
                b = derived("stepslice", (q, idx), q.kind, labels_of(q) | {"unk"})
                return [(st, b.seq())]
            for s in (idx.lo, idx.hi):
                if s != NONE and int_lin(interp, st, s) is None:
                    if isinstance(s, U):
                        b = derived("slice", (q, idx), q.kind, labels_of(q))
                        return [(st, b.seq())]
                    return [(st, interp.exc(st, "TypeError", node, fr, "slice bounds"))]
            lo = None if idx.lo == NONE else int_lin(interp, st, idx.lo)
            hi = None if idx.hi == NONE else int_lin(interp, st, idx.hi)
            if q.kind in ("bytes", "str"):
                st.event("slice", q, lo, hi, interp.where(node, fr))
            for s, r in seq.slice_seq(st, q, lo, hi, interp):
                if isinstance(v, Ref) and st.obj(v).kind == "list":
                    out.append((s, s.alloc(Obj("list", None, {"seq": S("list", r.parts)}, interp.owner))))
                else:
                    out.append((s, simp(r)))
            return out
        out = []
        for s, i in index_pos(interp, st, q, idx, fr, node):
            if isinstance(i, Raise):
                out.append((s, i))
            else:
                out += interp.element(s, q, i, fr, node)
        return out
    if isinstance(v, Ref):
        o = st.obj(v)
        if o.kind == "dict":
            r = unhashable(interp, st, idx, fr, node)
            if r is not None:
                return [(st, r)]
            out = []
            for s, x in dict_find(interp, st, v, idx, fr, node):
                out.append((s, x if x is not None else interp.exc(s, "KeyError", node, fr)))
            return out
        if o.kind == "inst":
            m = interp.lookup(st, o.cls, "__getitem__")
            if m is not None:
                return interp.call(st, Bound(m, v), [idx], {}, fr, node)
            return [(st, interp.exc(st, "TypeError", node, fr, "not subscriptable"))]
        if o.kind == "ext":
            return interp.lib.ext_getitem(interp, st, v, idx, fr, node)
        if o.kind in ("gen", "iter", "chain", "mapit", "filterit"):
            return [(st, interp.exc(st, "TypeError", node, fr, "not subscriptable"))]
    if isinstance(v, (C, I, Fn, Bound, SL, Mod)):
        return [(st, interp.exc(st, "TypeError", node, fr, f"{v!r} is not subscriptable"))]
    if isinstance(v, U) and v.op in ("match", "matchx"):
        return interp.lib.match_item(interp, st, v, idx, fr, node)
    if isinstance(v, U) and v.op == "os.environ":
        pass
    if isinstance(v, U) and isinstance(v.ty, Cls):
        m = interp.lookup(st, v.ty, "__getitem__")
        if m is not None:
            return interp.call(st, Bound(m, v), [idx], {}, fr, node)
    mm = interp.map_models.get(v)
    if mm is not None:
        out = []
        for s, x in rest_find(interp, st, v, idx, fr, node):
            out.append((s, x if x is not None else interp.exc(s, "KeyError", node, fr)))
        return out
    h = interp.__dict__.get("item_hook")
    if h is not None:
        r = h(interp, st, v, idx, fr, node)
        if r is not None:
            return r
    ft = interp.field_types.get(("item", v.op)) if isinstance(v, U) else None
    return [(st, U("item", (v, idx), ft, labels_of(v) | labels_of(idx)))]


def interp_isa(interp, st, v, t):
    return v.ty == t or st.facts.get(("isa", v, t)) is True


def reverse_seq(interp, q):
    parts = []
    for p in reversed(q.parts):
        if isinstance(p, One):
            parts.append(p)
        elif isinstance(p, Lit):
            parts.append(Lit(p.v[::-1]))
        elif isinstance(p, Sl):
            parts.append(reverse_part(p))
        else:
            b = derived("text", (p,), q.kind, labels_of(p), part_len(p))
            parts.append(reverse_part(b.whole()))
    return S(q.kind, parts)


def reverse_part(p):
    if p.base.op == "reversed":
        src = p.base.args[0]
        return Sl(src, src.len - p.hi, src.len - p.lo)
    b = derived("reversed", (p.base,), p.base.kind, p.base.labels, p.base.len,
                lambda interp, s, c, j: interp.elem(s, c.args[0], c.args[0].len - 1 - j))
    b.meta = p.base.meta if b.meta is None else b.meta
    return Sl(b, b.len - p.hi, b.len - p.lo)


def setitem(interp, st, v, idx, val, fr, node):
    if isinstance(v, Ref):
        o = st.obj(v)
        if o.kind == "dict":
            return dict_set(interp, st, v, idx, val, fr, node)
        if o.kind == "list":
            interp.mutated(st, v, "[]=", fr, node, val)
            q = o.f["seq"]
            out = []
            if isinstance(idx, SL):
                for x, w in interp.to_seq(st, val, fr, node):
                    if isinstance(w, Raise):
                        out.append((x, w))
                        continue
                    for s, lo, hi in slice_bounds(interp, x, q, idx):
                        for t, l, r in seq.split_at(s, q.parts, hi, interp):
                            for u, l2, _ in seq.split_at(t, l, lo, interp):
                                u.put(v, u.obj(v).set(seq=S("list", norm_parts(u.num, l2 + token_parts(w) + r))))
                                out.append((u, NONE))
                return out
            for s, i in index_pos(interp, st, q, idx, fr, node):
                if isinstance(i, Raise):
                    out.append((s, i))
                    continue
                for t, l, r in seq.split_at(s, q.parts, i, interp):
                    for u, _, r2 in seq.split_at(t, r, ONE, interp):
                        u.put(v, u.obj(v).set(seq=S("list", norm_parts(u.num, l + (One(val),) + r2))))
                        out.append((u, NONE))
            return out
        if o.kind == "inst":
            m = interp.lookup(st, o.cls, "__setitem__")
            if m is not None:
                return interp.call(st, Bound(m, v), [idx, val], {}, fr, node)
            return [(st, interp.exc(st, "TypeError", node, fr))]
    if isinstance(v, (C, I, S, SL, Fn, Bound)):
        return [(st, interp.exc(st, "TypeError", node, fr, "item assignment"))]
    interp.mutated(st, v, "[]=", fr, node, val)
    st.event("setitem", v, idx, val, interp.where(node, fr))
    return [(st, NONE)]


def known_dict(interp, st, v):
    if isinstance(v, Ref):
        o = st.obj(v)
        if o.kind == "dict" and o.f["rest"] == NONE and all(isinstance(k, C) and isinstance(k.v, str) for k, _ in o.f["ents"]):
            return {k.v: x for k, x in o.f["ents"] if x is not None}
    return None


def dict_update(interp, st, ref, other, fr, node):
    if isinstance(other, Ref) and st.obj(other).kind == "dict":
        oo = st.obj(other)
        cur = [st]
        if oo.f["rest"] != NONE:
            o = st.obj(ref)
            if not o.f["ents"] and o.f["rest"] == NONE:
                st.put(ref, o.set(rest=oo.f["rest"]))
            else:
                st.vague("update of a mapping")
                st.put(ref, o.set(rest=U("updated", (o.f["rest"], oo.f["rest"]), None, labels_of(o.f["rest"]) | labels_of(oo.f["rest"])), ents=()))
        for k, v in oo.f["ents"]:
            nxt = []
            for s in cur:
                if v is not None:
                    nxt += [t for t, _ in dict_set(interp, s, ref, k, v, fr, node, quiet=True)]
                else:
                    nxt.append(s)
            cur = nxt
        return [(s, NONE) for s in cur]
    q, err = view(interp, st, other, fr, node)
    if isinstance(q, S) and explicit(q) is not None:
        cur = [st]
        for e in explicit(q):
            nxt = []
            for s in cur:
                p = seqv(interp, s, e)
                ex = explicit(p) if p is not None else None
                if ex is None or len(ex) != 2:
                    s.vague("update")
                    nxt.append(s)
                else:
                    nxt += [t for t, _ in dict_set(interp, s, ref, ex[0], ex[1], fr, node, quiet=True)]
            cur = nxt
        return [(s, NONE) for s in cur]
    st.vague("update from an unknown mapping")
    o = st.obj(ref)
    st.put(ref, o.set(rest=U("updated", (o.f["rest"], other), None, labels_of(other, st) | labels_of(o.f["rest"])), ents=()))
    return [(st, NONE)]


def dict_from_pairs(interp, st, q, fr, node):
    d = st.alloc(Obj("dict", None, {"ents": (), "rest": NONE}, interp.owner, site=node))
    ex = explicit(q)
    if ex is not None:
        return [(s, d) for s, _ in dict_update(interp, st, d, simp(q) if q.kind == "tuple" else S("tuple", q.parts), fr, node)]
    if len(q.parts) == 1 and isinstance(q.parts[0], Sl) and callable(q.parts[0].base.elem):
        p = q.parts[0]
        st.put(d, st.obj(d).set(rest=U("dictof", (q,), None, labels_of(q))))
        return [(st, d)]
    ts = elem_templates(interp, st, q.parts)
    B = fresh_base("list", labels_of(q, st), ts, "ents")
    st.put(d, st.obj(d).set(rest=U("entries", (B,), None, B.labels)))
    return [(st, d)]


# ------------------------------------------------------------ attributes


def getattr_(interp, st, v, name, fr, node):
    if isinstance(v, Mod):
        env = interp.load(v.name)
        x = st.obj(env).f.get(name)
        if x is None:
            sub = v.name + "." + name
            if sub in interp.trees:
                interp.load(sub)
                return [(st, Mod(sub))]
            return [(st, interp.exc(st, "AttributeError", node, fr, f"{v.name}.{name}"))]
        return [(st, x)]
    if isinstance(v, Ext):
        return [(st, interp.ext(v.path + "." + name))]
    if isinstance(v, Cls):
        x = interp.lookup(st, v, name)
        if isinstance(x, Fn):
            if "class" in x.flags:
                return [(st, Bound(x, v))]
            return [(st, x)]
        if x is not None:
            return [(st, x)]
        if name in ("__name__", "__qualname__"):
            return [(st, C(v.name))]
        if v.nt and name == "_fields":
            return [(st, S("tuple", [One(C(n)) for n, _, _ in v.fields]))]
        if v.nt and name == "_make":
            return [(st, Meth(v, name))]
        if name in ("__doc__", "__module__", "__dict__", "__mro__", "__init__"):
            return [(st, U("attr", (v, C(name))))]
        if has_ext_base(interp, v):
            return [(st, U("attr", (v, C(name)), None, {"unk"}))]
        return [(st, interp.exc(st, "AttributeError", node, fr, f"{v.name}.{name}"))]
    if isinstance(v, SL):
        if name in ("start", "stop", "step"):
            return [(st, {"start": v.lo, "stop": v.hi, "step": v.step}[name])]
        return [(st, Meth(v, name))]
    if isinstance(v, Ref):
        o = st.obj(v)
        if o.kind == "inst":
            return inst_attr(interp, st, v, o, name, fr, node)
        if o.kind == "exc":
            if name == "args":
                return [(st, o.f["args"])]
            if name in ("__traceback__", "__cause__", "__context__"):
                return [(st, NONE)]
            return [(st, U("attr", (v, C(name))))]
        if o.kind == "ext":
            return interp.lib.ext_attr(interp, st, v, name, fr, node)
        if o.kind == "cm":
            return [(st, Meth(v, name))]
        if name == "__class__":
            t = interp.type_of(st, v)
            return [(st, t)]
        if o.kind in interp.lib.METHODS and name not in interp.lib.METHODS[o.kind]:
            return [(st, interp.exc(st, "AttributeError", node, fr, f"{o.kind} has no {name}"))]
        return [(st, Meth(v, name))]
    if isinstance(v, (C, I, S)):
        if name == "__class__":
            return [(st, interp.type_of(st, v))]
        k = interp.type_of(st, v).name
        if k in interp.lib.METHODS and name not in interp.lib.METHODS[k] and not name.startswith("__"):
            return [(st, interp.exc(st, "AttributeError", node, fr, f"{k} has no {name}"))]
        if k == "NoneType" and not name.startswith("__"):
            return [(st, interp.exc(st, "AttributeError", node, fr, f"None has no {name}"))]
        if isinstance(v, I) and name in ("real", "numerator"):
            return [(st, v)]
        return [(st, Meth(v, name))]
    if isinstance(v, (Fn, Bound)):
        f = v.fn if isinstance(v, Bound) else v
        if name in ("__name__", "__qualname__"):
            return [(st, C(f.name))]
        x = st.facts.get(("field", v, name))
        if x is not None:
            return [(st, x)]
        return [(st, U("attr", (v, C(name))))]
    if isinstance(v, Bi):
        if v.name in ("int", "str", "bytes", "dict", "list", "tuple", "set", "object", "chain"):
            return [(st, Ext(v.name + "." + name))]
        if name == "__name__":
            return [(st, C(v.name))]
        return [(st, Ext(v.name + "." + name))]
    if isinstance(v, U):
        x = st.facts.get(("field", v, name))
        if x is not None:
            return [(st, x)]
        if v.op == "super":
            s, cname = v.args
            if isinstance(s, Ref) and st.obj(s).kind == "inst":
                cls = st.obj(s).cls
                mro = interp.mro(cls)
                seen = False
                for c in mro:
                    if seen and isinstance(c, Cls):
                        f = st.obj(c.env).f.get(name)
                        if f is not None:
                            return [(st, Bound(f, s) if isinstance(f, Fn) and "static" not in f.flags else f)]
                    if isinstance(c, Cls) and c.qual == cname.v:
                        seen = True
            return [(st, Meth(v, name))]
        if v.op in ("match", "regex"):
            return [(st, Meth(v, name))]
        for t in ([v.ty] if v.ty is not None and not isinstance(v.ty, tuple) else ["str", "bytes", "tuple", "list", "dict", "slice", "int"]):
            if isinstance(t, Cls):
                return typed_attr(interp, st, v, t, name, fr, node)
            if isinstance(t, str) and (v.ty == t or st.facts.get(("isa", v, t)) is True):
                if t == "slice" and name in ("start", "stop", "step"):
                    return [(st, U("attr", (v, C(name)), "int" if name != "step" else None, v.labels))]
                if t in interp.lib.METHODS and name not in interp.lib.METHODS[t] and not name.startswith("__"):
                    return [(st, interp.exc(st, "AttributeError", node, fr, f"{t} has no {name}"))]
                if t in ("str", "bytes", "tuple", "list"):
                    return [(st, Meth(seqv(interp, st, v) if t in ("str", "bytes", "tuple") else v, name))]
                return [(st, Meth(v, name))]
        if st.facts.get(("none", v)) is True:
            return [(st, interp.exc(st, "AttributeError", node, fr, f"None has no {name}"))]
        for k, val in st.facts.items():
            if k[0] == "isa" and k[1] == v and val is True and isinstance(k[2], Cls):
                return typed_attr(interp, st, v, k[2], name, fr, node)
        if name == "__class__":
            return [(st, U("type", (v,)))]
        return [(st, U("attr", (v, C(name)), interp.field_types.get(("attr", name)), v.labels))]
    return [(st, U("attr", (v, C(name)), None, labels_of(v) | {"unk"}))]


def typed_attr(interp, st, v, t, name, fr, node):
    x = interp.lookup(st, t, name)
    names = [n for n, _, _ in t.fields] if t.fields else []
    if name in names:
        ty = interp.field_types.get((t.name, name))
        return [(st, U("attr", (v, C(name)), ty, v.labels))]
    if isinstance(x, Fn):
        if "property" in x.flags:
            return interp.call(st, Bound(x, v), [], {}, fr, node)
        if "static" in x.flags:
            return [(st, x)]
        return [(st, Bound(x, v))]
    if x is not None:
        return [(st, x)]
    if t.nt and name in ("_replace", "_asdict", "index", "count", "_fields"):
        return [(st, Meth(v, name))]
    return [(st, U("attr", (v, C(name)), interp.field_types.get((t.name, name)), v.labels))]


MIXIN = {"MutableMapping": {"get", "items", "keys", "values", "pop", "popitem", "clear", "update", "setdefault", "__contains__", "__eq__", "__ne__"},
         "Mapping": {"get", "items", "keys", "values", "__contains__", "__eq__", "__ne__"},
         "UserDict": {"get", "items", "keys", "values", "pop", "popitem", "clear", "update", "setdefault", "data", "copy"}}


def inst_attr(interp, st, v, o, name, fr, node):
    cx = interp.lookup(st, o.cls, name)
    if isinstance(cx, Fn) and "property" in cx.flags:
        return interp.call(st, Bound(cx, v), [], {}, fr, node)
    x = o.f.get(name)
    if x is not None:
        return [(st, x)]
    if isinstance(cx, Fn):
        if "static" in cx.flags:
            return [(st, cx)]
        if "class" in cx.flags:
            return [(st, Bound(cx, o.cls))]
        return [(st, Bound(cx, v))]
    if isinstance(cx, (Py,)):
        return [(st, cx)]
    if cx is not None:
        return [(st, cx)]
    if name == "__class__":
        return [(st, o.cls)]
    if name == "__dict__":
        return [(st, U("attr", (v, C(name))))]
    if o.cls.nt and name in ("_replace", "_asdict", "index", "count", "_fields", "__len__"):
        return [(st, Meth(v, name))]
    for c in interp.mro(o.cls):
        if isinstance(c, Ext):
            short = c.path.split(".")[-1]
            if name in MIXIN.get(short, ()):
                return [(st, Meth(v, name))]
            if short not in ("Protocol", "Generic", "ABC") and short not in MIXIN:
                return [(st, U("attr", (v, C(name)), None, {"unk"}))]
        if isinstance(c, Bi) and c.name not in ("object",):
            return [(st, U("attr", (v, C(name)), None, {"unk"}))]
    ga = interp.lookup(st, o.cls, "__getattr__")
    if ga is not None:
        return interp.call(st, Bound(ga, v), [C(name)], {}, fr, node)
    if o.f.get("%open") == TRUE:
        return [(st, U("attr", (v, C(name)), interp.field_types.get((o.cls.name, name)), o.labels))]
    return [(st, interp.exc(st, "AttributeError", node, fr, f"{o.cls.name} has no {name}"))]


# ------------------------------------------------------------ text


def to_str(interp, st, v, fr, node):
    s = as_seq(v)
    if s is not None and s.kind == "str":
        return [(st, s)]
    if isinstance(v, C):
        return [(st, C(str(v.v)))]
    if isinstance(v, I):
        l = st.num.norm(v.lin)
        if l.const:
            return [(st, C(str(l.c)))]
        return [(st, derived("str", (I(l),), "str").seq())]
    if isinstance(v, U):
        q = seqv(interp, st, v)
        if q is not None and q.kind == "str":
            return [(st, q)]
    if isinstance(v, Ref) and st.obj(v).kind == "inst":
        o = st.obj(v)
        for m in ("__str__", "__repr__"):
            f = interp.lookup(st, o.cls, m)
            if isinstance(f, Fn):
                return interp.call(st, Bound(f, v), [], {}, fr, node)
    b = derived("str", (v,), "str", labels_of(v, st))
    return [(st, b.seq())]


def enter(interp, st, cm, fr, node):
    return interp.lib.enter(interp, st, cm, fr, node)


def exit_(interp, st, cm, sig, fr, node):
    return interp.lib.exit_(interp, st, cm, sig, fr, node)


def construct(interp, st, cls, args, kw, fr, node):
    return interp.lib.construct(interp, st, cls, args, kw, fr, node)


def call(interp, st, f, args, kw, fr, node):
    return interp.lib.call(interp, st, f, args, kw, fr, node)


def call_unknown(interp, st, f, args, kw, fr, node):
    return interp.lib.call_unknown(interp, st, f, args, kw, fr, node)
