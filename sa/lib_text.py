"""Methods of str and bytes, and match objects."""
from .num import Atom, Lin, ZERO, ONE
from .values import *
from .values import V, Raise
from . import seq
from .seq import as_seq, lit, simp, slen, cval, concat, norm_parts
from .join import fresh_base, elem_templates
from . import models as M

NONE, TRUE, FALSE = C(None), C(True), C(False)

FOLD = {"strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "swapcase", "casefold", "replace", "center",
        "ljust", "rjust", "zfill", "expandtabs", "removeprefix", "removesuffix", "hex", "translate"}
BOOL = {"startswith", "endswith", "isspace", "isdigit", "isalpha", "isalnum", "isupper", "islower", "isidentifier",
        "isdecimal", "isnumeric", "isprintable", "istitle", "isascii"}
INT = {"find", "rfind", "index", "rindex", "count", "__len__"}


def const_text(s):
    if not s.parts:
        return seq.EMPTY[s.kind]
    if len(s.parts) == 1 and isinstance(s.parts[0], Lit):
        return s.parts[0].v
    return None


def text_method(interp, st, s, name, args, kw, fr, node):
    s = seq.normalize(st.num, s)
    kind = s.kind
    labs = labels_of(s)
    for a in args:
        labs |= labels_of(a, st)
    if name == "join":
        return join(interp, st, s, args[0], fr, node)
    if name == "split":
        return split(interp, st, s, args, kw, fr, node)
    if name == "splitlines":
        keep = (args[0] if args else kw.get("keepends", FALSE)) == TRUE
        ex = splitlines_template(st, s, keep)
        if ex is not None:
            return [(x, x.alloc(Obj("list", None, {"seq": S("list", [One(l) for l in ls])}, interp.owner))) for x, ls in ex]
        return [(st, pieces(interp, st, s, "splitlines_keep" if keep else "splitlines", labs))]
    if name == "rsplit" and len(args) == 2 and not kw and const_arg(args[0]) not in (None, ("",), (b"",)) and const_arg(args[1]) == (1,):
        t = template_search(interp, st, s, "rpartition", args[:1], const_arg(args[0])[0], fr, node) if plain(s) else None
        c = const_text(s)
        ex = None
        if t is not None:
            ex = [(x, [p.v for p in q.parts if isinstance(p, One)]) for x, q in t]
        elif c is not None:
            ex = [(st, [lit(x) for x in (("", "") + tuple(c.rsplit(const_arg(args[0])[0], 1)))[-3:]] if const_arg(args[0])[0] not in c else [lit(c.rsplit(const_arg(args[0])[0], 1)[0]), lit(const_arg(args[0])[0]), lit(c.rsplit(const_arg(args[0])[0], 1)[1])])]
        if ex is not None:
            out = []
            for x, ps in ex:
                m = M.seqv(interp, x, ps[1])
                ps = [ps[2]] if m is not None and not m.parts else [ps[0], ps[2]]
                out.append((x, x.alloc(Obj("list", None, {"seq": S("list", [One(p) for p in ps])}, interp.owner))))
            return out
    if name in ("rsplit",):
        return [(st, pieces(interp, st, s, "rsplit", labs))]
    if name == "encode" and kind == "str":
        return encode(interp, st, s, args, kw, fr, node)
    if name == "decode" and kind == "bytes":
        return decode(interp, st, s, args, kw, fr, node)
    if name == "format" and kind == "str":
        return format_(interp, st, s, args, kw, fr, node)
    c = const_text(s)
    cargs = [const_arg(a) for a in args]
    if name in FOLD or name in BOOL or name in INT or name in ("partition", "rpartition"):
        if name in BOOL or name in ("replace", "removeprefix", "removesuffix", "find", "count", "index"):
            for a in args:
                q = M.seqv(interp, st, a)
                if q is not None and q.kind in ("str", "bytes") and q.kind != kind:
                    return [(st, interp.exc(st, "TypeError", node, fr, f"{kind}.{name}({q.kind})"))]
        if c is not None and all(a is not None for a in cargs) and not kw:
            try:
                return [(st, cval(getattr(c, name)(*[a[0] for a in cargs])))]
            except (ValueError, IndexError):
                return [(st, interp.exc(st, "ValueError", node, fr))]
            except Exception:
                pass
    if name in ("find", "index", "partition", "rpartition", "rfind", "rindex", "count") and cargs and cargs[0] is not None and plain(s):
        r = template_search(interp, st, s, name, args, cargs[0][0], fr, node)
        if r is not None:
            return r
    if plain(s) and not kw and kind == "str":
        r = template_fold(st, s, name, [a[0] for a in cargs] if None not in cargs else None)
        if r is not None:
            return [(st, r)]
    if name in FOLD:
        return [(st, derived(name, (s,) + tuple(args), kind, labs).seq())]
    if name in BOOL:
        if name in ("startswith", "endswith") and args:
            q = M.seqv(interp, st, args[0])
            if q is not None and q.kind == kind and s.parts and len(q.parts) == 1:
                p = s.parts[0] if name == "startswith" else s.parts[-1]
                t = q.parts[0]
                if isinstance(p, Lit) and isinstance(t, Lit) and len(p.v) >= len(t.v):
                    return [(st, C(getattr(p.v, name)(t.v)))]
            if q is not None and q.kind == kind and not q.parts:
                return [(st, TRUE)]
            if q is not None and q.kind == kind and s.parts:
                p = s.parts[0] if name == "startswith" else s.parts[-1]
                w = const_text(q)
                e = None if not w else w[:1] if name == "startswith" else w[-1:]
                if isinstance(p, Sl) and p.base.meta == "plain" and e is not None and not e.isalnum() and e not in ("_", b"_") and (isinstance(e, str) or e[0] < 128):
                    n = part_len(p)
                    if st.num.ge0(n - 1) is True:
                        return [(st, FALSE)]
                    a = st.copy()
                    r = []
                    if a.assume_ge0(n - 1):
                        r.append((a, FALSE))
                    if st.assume_eq0(n):
                        rest = S(kind, s.parts[1:] if name == "startswith" else s.parts[:-1])
                        r += text_method(interp, st, rest, name, args, kw, fr, node)
                    return r
            if not s.parts and q is not None and q.kind == kind and st.num.ge0(slen(q) - 1):
                return [(st, FALSE)]
        elif not s.parts and name != "isascii" and name != "isprintable":
            return [(st, FALSE)]
        return [(st, U(name, (s,) + tuple(args), "bool", labs))]
    if name in INT:
        if name == "__len__":
            return [(st, I(slen(s)))]
        u = U(name, (s,) + tuple(args), "int", labs)
        l = M.int_lin(interp, st, u)
        if name == "count":
            st.assume_ge0(l)
        else:
            st.assume_ge0(l + 1)
            st.assume_ge0(slen(s) - l)
        if name in ("index", "rindex"):
            bad = st.copy()
            st.assume_ge0(l)
            return [(st, u), (bad, interp.exc(bad, "ValueError", node, fr))]
        return [(st, u)]
    if name in ("partition", "rpartition"):
        return [(st, S("tuple", [One(derived(name, (s, args[0], I(k)), kind, labs).seq()) for k in range(3)]))]
    interp.unmodelled[kind + "." + name] = interp.unmodelled.get(kind + "." + name, 0) + 1
    return [(st, U(kind + "." + name, (s,) + tuple(args), None, labs | {"unk"}))]


def const_arg(a):
    if isinstance(a, C):
        return (a.v,)
    if isinstance(a, I) and a.lin.const:
        return (a.lin.c,)
    s = as_seq(a)
    if s is not None and s.kind in ("str", "bytes"):
        t = const_text(s)
        return None if t is None else (t,)
    if s is not None:
        xs = [const_arg(p.v) if isinstance(p, One) else None for p in s.parts]
        if all(x is not None for x in xs):
            return (tuple(x[0] for x in xs),)
    return None


def pieces(interp, st, s, op, labs, *more):
    """An opaque list of pieces of a text."""
    def at(interp, x, c, j):
        return [(x, derived("piece", (c, I(j)), s.kind, labs).seq())]

    if len(s.parts) != 1 or isinstance(s.parts[0], Lit):
        st.vague("pieces of a text")
    b = derived(op, (s,) + more, "list", labs, None, at)
    return st.alloc(Obj("list", None, {"seq": b.seq()}, interp.owner))


# ------------------------------------------------------------ split and join


def split(interp, st, s, args, kw, fr, node):
    sep = args[0] if args else kw.get("sep", NONE)
    labs = labels_of(s)
    maxs = args[1] if len(args) > 1 else kw.get("maxsplit", I(-1))
    q = as_seq(sep)
    t = const_text(q) if q is not None else None
    if q is not None and q.kind != s.kind:
        return [(st, interp.exc(st, "TypeError", node, fr, f"{s.kind}.split({q.kind})"))]
    if t is not None and len(t) == 0:
        return [(st, interp.exc(st, "ValueError", node, fr, "empty separator"))]
    if not t or maxs != I(-1):
        if not (isinstance(maxs, I) and maxs.lin.const and maxs.lin.c < 0 and t):
            ex = split_template(st, s, t) if t and plain(s) else None
            if ex is not None and isinstance(maxs, I) and maxs.lin.const:
                k = maxs.lin.c
                while len(ex) > k + 1:
                    a, b = as_seq(ex[-2]), as_seq(ex.pop())
                    ex[-1] = simp(S(s.kind, norm_parts(st.num, a.parts + (Lit(t),) + b.parts)))
                return [(st, st.alloc(Obj("list", None, {"seq": S("list", [One(x) for x in ex])}, interp.owner)))]
            return [(st, pieces(interp, st, s, "split*", labs, sep, maxs))]
    c = const_text(s)
    if c is not None:
        return [(st, st.alloc(Obj("list", None, {"seq": S("list", [One(cval(x)) for x in c.split(t)])}, interp.owner)))]
    ex = split_template(st, s, t)
    if ex is not None:
        return [(st, st.alloc(Obj("list", None, {"seq": S("list", [One(x) for x in ex])}, interp.owner)))]
    b = split_base(s, t)
    return [(st, st.alloc(Obj("list", None, {"seq": b.seq()}, interp.owner)))]


BREAKS = {"str": "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029", "bytes": b"\n\r"}


def template_fold(st, s, name, args):
    """strip, replace and isspace of a text with opaque words, or None."""
    if args is None:
        return None
    somewhere = any(isinstance(p, Sl) and st.num.ge0(part_len(p) - 1) is True for p in s.parts)
    if name == "isspace" and not args and somewhere:
        return FALSE
    if name in ("strip", "lstrip", "rstrip"):
        chars = args[0] if args else None
        if chars is not None and (not isinstance(chars, str) or any(c.isalnum() or c == "_" for c in chars)):
            return None
        ps = list(s.parts)
        for side in (0, -1):
            if name == ("rstrip", "lstrip")[side + 1 == 0] or not ps:
                continue
            while ps:
                p = ps[side]
                if not isinstance(p, Lit):
                    if st.num.ge0(part_len(p) - 1) is not True:
                        return None
                    break
                v = p.v.lstrip(chars) if side == 0 else p.v.rstrip(chars)
                if v:
                    ps[side] = Lit(v)
                    break
                ps.pop(side)
        return simp(S("str", ps))
    if name == "replace" and len(args) == 2 and args[0] and not any(c.isalnum() or c == "_" for c in args[0]):
        return simp(S("str", norm_parts(st.num, [Lit(p.v.replace(*args)) if isinstance(p, Lit) else p for p in s.parts if not isinstance(p, Lit) or p.v.replace(*args)])))
    return None


def plain(s):
    """Parts of a text made of constants and opaque pieces of word characters."""
    return all(isinstance(p, Lit) or isinstance(p, Sl) and p.base.meta == "plain" for p in s.parts) and any(isinstance(p, Sl) for p in s.parts)


def split_template(st, s, t):
    """Explicit pieces of a text whose opaque parts do not contain the separator."""
    if not plain(s) or len(t) != 1:
        return None
    if isinstance(t, str) and (t.isalnum() or t == "_"):
        return None
    if isinstance(t, bytes) and (t.isalnum() or t == b"_" or t[0] > 127):
        return None
    cur, out = (), []
    for p in s.parts:
        if isinstance(p, Lit):
            xs = p.v.split(t)
            for k, x in enumerate(xs):
                if k:
                    out.append(cur)
                    cur = ()
                if x:
                    cur += (Lit(x),)
        else:
            cur += (p,)
    out.append(cur)
    return [simp(S(s.kind, norm_parts(st.num, c))) for c in out]


def sep_ok(kind, t):
    """A single character that is no part of a word."""
    if isinstance(t, str) != (kind == "str") or len(t) != 1 or t.isalnum() or t in ("_", b"_"):
        return False
    return isinstance(t, str) or t[0] < 128


def template_search(interp, st, s, name, args, t, fr, node):
    if not sep_ok(s.kind, t):
        return None
    lo = ZERO
    if len(args) > 1:
        if len(args) > 2 or name in ("rfind", "rindex", "count"):
            return None
        lo = M.int_lin(interp, st, args[1])
        if lo is None or st.num.ge0(lo) is not True:
            return None
    hits = []
    off = ZERO
    for p in s.parts:
        n = part_len(p)
        if isinstance(p, Lit):
            d = st.num.norm(lo - off)
            if st.num.ge0(-d) is True:
                k = 0
            elif d.const:
                k = d.c
            elif st.num.ge0(d - n) is True:
                k = len(p.v)
            else:
                return None
            while True:
                k = p.v.find(t, k)
                if k < 0:
                    break
                hits.append(off + k)
                k += 1
        off = off + n
    if name == "count":
        return [(st, I(len(hits)))]
    pos = None if not hits else hits[0] if name in ("find", "index", "partition") else hits[-1]
    if name in ("partition", "rpartition"):
        e = simp(S(s.kind, ()))
        if pos is None:
            return [(st, S("tuple", [One(x) for x in ((simp(s), e, e) if name == "partition" else (e, e, simp(s)))]))]
        out = []
        for x, l, r in seq.split_at(st, s.parts, pos, interp):
            for y, m, r2 in seq.split_at(x, r, ONE, interp):
                out.append((y, S("tuple", [One(simp(S(s.kind, norm_parts(y.num, q)))) for q in (l, m, r2)])))
        return out
    if pos is None:
        return [(st, I(-1) if name in ("find", "rfind") else interp.exc(st, "ValueError", node, fr))]
    return [(st, I(pos))]


def splitlines_template(st, s, keep):
    """The same for all line ends; a line end is a constant part as a whole.
    -> [(state, pieces)] or None"""
    if not plain(s) and const_text(s) is None:
        return None
    cur, out = (), []
    br = BREAKS[s.kind]
    for p in s.parts:
        if not isinstance(p, Lit):
            cur += (p,)
            continue
        for x in p.v.splitlines(True):
            body = x.rstrip(br)
            if body:
                cur += (Lit(body),)
            if len(body) < len(x):
                out.append(cur + ((Lit(x[len(body):]),) if keep else ()))
                cur = ()
    lines = [simp(S(s.kind, norm_parts(st.num, c))) for c in out]
    if not cur:
        return [(st, lines)]
    last = S(s.kind, norm_parts(st.num, cur))
    if any(isinstance(p, Lit) for p in cur):
        return [(st, lines + [simp(last)])]
    r = []
    n = slen(last)
    a = st.copy()
    if a.assume_eq0(n):
        r.append((a, lines))
    if st.assume_ge0(n - 1):
        r.append((st, lines + [simp(last)]))
    return r


_lens = {}


def split_base(s, t):
    key = (s, t)
    n = _lens.get(key)
    if n is None:
        n = _lens[key] = Lin.of(Atom(f"nlines({s!r})", 1))

    def at(interp, x, c, j):
        return [(x, derived("line", (c, I(j)), s.kind, c.labels).seq())]

    b = derived("split", (s, C(t)), "list", labels_of(s), n, at)
    b.meta = t
    return b


def cat_of(interp, st, p):
    """Concatenation of the elements of a slice -> parts, or None."""
    b = p.base
    whole = st.num.is0(p.lo) is True and st.num.is0(p.hi - b.len) is True
    if b.op == "chars":
        return (Sl(b.args[0], p.lo, p.hi),)
    if b.op == "splitlines_keep" and whole:
        return b.args[0].parts
    if b.op in ("split", "tmpl"):
        return None
    r = cat_chars(interp, st, p)
    if r is not None:
        return r
    if callable(b.elem) and whole:
        # the elements are all the matches of an expression that matches
        # every piece of a text
        i = Atom("i")
        x = st.copy()
        il = Lin.of(i)
        if x.assume_ge0(il) and x.assume_ge0(b.len - il - 1):
            es = interp.elem(x, b, il)
            if len(es) == 1 and isinstance(es[0][1], S) and len(es[0][1].parts) == 1:
                e = es[0][1].parts[0]
                if isinstance(e, Sl) and e.base.op == "group" and seq._whole(x.num, e):
                    src, idx = e.base.args
                    if idx == I(il) and src.op == "matches":
                        rt = interp.__dict__.get("regex_total")
                        if rt is not None and rt(src.args[0]):
                            return src.args[1].parts
    return None


def cat_chars(interp, st, p):
    """The elements are the single characters of a text, perhaps encoded."""
    x = st.copy()
    i = Lin.of(Atom("i"))
    if not (x.assume_ge0(i - p.lo) and x.assume_ge0(p.hi - i - 1)):
        return None
    es = interp.elem(x, p.base, i)
    if len(es) != 1 or not isinstance(es[0][1], S) or len(es[0][1].parts) != 1:
        return None
    x, e = es[0][0], es[0][1].parts[0]
    if not isinstance(e, Sl):
        return None
    enc = None
    if e.base.op == "encode" and seq._whole(x.num, e) and isinstance(e.base.args[0], Sl):
        enc = e.base.args[1]
        e = e.base.args[0]
    k = x.num.norm(e.lo - i)
    if not k.const or x.num.is0(e.hi - e.lo - 1) is not True:
        return None
    part = Sl(e.base, p.lo + k, p.hi + k)
    if enc is None:
        return (part,)
    if e.base.op == "decode" and e.base.args[1] == enc and seq._whole(st.num, part):
        return e.base.args[0].parts
    return (derived("encode", (part, enc), "bytes", labels_of(part)).whole(),)


def elem_kind(interp, st, p):
    """Kind of the elements of a container slice, or None."""
    b = p.base
    if b.op == "chars":
        return b.args[0].kind if b.args[0].kind == "str" else "int"
    i = Atom("i")
    x = st.copy()
    il = Lin.of(i)
    if not (x.assume_ge0(il - p.lo) and x.assume_ge0(p.hi - il - 1)):
        return None
    ks = set()
    for y, e in interp.elem(x, b, il):
        q = M.seqv(interp, y, e)
        if q is not None:
            ks.add(q.kind if not isinstance(e, Ref) else "list")
        else:
            t = interp.type_of(y, e)
            ks.add(None if t is None else getattr(t, "name", None) or "obj")
    return ks.pop() if len(ks) == 1 else None


def join(interp, st, sep, it, fr, node):
    from .lib_bi import seqs

    kind = sep.kind
    out = []
    for x, q in seqs(interp, st, it, fr, node):
        if isinstance(q, Raise):
            out.append((x, q))
            continue
        if q.kind in ("str", "bytes") and q.kind != kind and x.num.is0(slen(q)) is not True:
            out.append((x, interp.exc(x, "TypeError", node, fr, f"{kind}.join({q.kind})")))
            continue
        if q.kind == "bytes" and kind == "bytes" and x.num.ge0(slen(q) - 1):
            out.append((x, interp.exc(x, "TypeError", node, fr, "bytes.join(bytes)")))
            continue
        parts = M.token_parts(q)
        # (state, result parts, something before?)
        cur = [(x, (), False)]
        for p in parts:
            nxt = []
            for y, acc, some in cur:
                pre = sep.parts if some else ()
                if isinstance(p, One):
                    e = text_of(interp, y, p.v, kind)
                    if e is None:
                        out.append((y, interp.exc(y, "TypeError", node, fr, f"{kind}.join: {type_name(interp, y, p.v)} item")))
                    else:
                        nxt.append((y, acc + pre + e.parts, True))
                    continue
                ek = elem_kind(interp, y, p)
                if ek is not None and ek != kind:
                    for z, b in interp.decide(y, p.hi - p.lo - 1):
                        if b:
                            out.append((z, interp.exc(z, "TypeError", node, fr, f"{kind}.join: {ek} item")))
                        else:
                            nxt.append((z, acc, some))
                    continue
                if not sep.parts:
                    c = cat_of(interp, y, p)
                    if c is None:
                        c = (Cat(p.base, p.lo, p.hi),)
                        mark_kind(p.base, kind)
                    nxt.append((y, acc + c, some))
                    continue
                for z, b in interp.decide(y, p.hi - p.lo - 1):
                    pre = sep.parts if some else ()
                    if not b:
                        nxt.append((z, acc, some))
                    elif p.base.op == "split" and const_text(sep) == p.base.meta:
                        for w, e in interp.elem(z, p.base, p.hi - 1):
                            body = (JL(p.base, p.lo, p.hi - 1),) if z.num.is0(p.hi - 1 - p.lo) is not True else ()
                            nxt.append((w, acc + pre + body + e.parts, True))
                    else:
                        j = derived("join", (sep, S("list", (p,))), kind, labels_of(p) | labels_of(sep))
                        nxt.append((z, acc + pre + (j.whole(),), True))
            cur = nxt
        for y, acc, _ in cur:
            out.append((y, simp(S(kind, norm_parts(y.num, acc)))))
    return out


def mark_kind(b, kind):
    if b.meta is None:
        b.meta = "" if kind == "str" else b""


def text_of(interp, st, v, kind):
    q = M.seqv(interp, st, v)
    if q is not None:
        return q if q.kind == kind and not isinstance(v, Ref) else None
    if isinstance(v, U) and (v.ty is None or isinstance(v.ty, tuple) and kind in v.ty):
        if st.facts.get(("none", v)) is True:
            return None
        for t in ("int", "str", "bytes", "tuple", "list", "slice"):
            if st.facts.get(("isa", v, t)) is True and t != kind:
                return None
        return derived("val", (v,), kind, v.labels).seq()
    return None


def type_name(interp, st, v):
    t = interp.type_of(st, v)
    return getattr(t, "name", None) or repr(t)


# ------------------------------------------------------------ encodings


def enc_name(args, kw):
    e = args[0] if args else kw.get("encoding", C("utf-8"))
    if isinstance(e, C) and isinstance(e.v, str):
        return C(e.v.lower().replace("_", "-").replace("utf8", "utf-8"))
    return e


ASCII = tuple(C(x) for x in ("utf-8", "ascii", "us-ascii", "latin-1", "iso-8859-1", "latin1", "iso8859-1", "utf8", "cp1252"))


def encode(interp, st, s, args, kw, fr, node):
    enc = enc_name(args, kw)
    err = args[1] if len(args) > 1 else kw.get("errors", C("strict"))
    parts = []
    for p in s.parts:
        if isinstance(p, Lit):
            try:
                parts.append(Lit(p.v.encode(enc.v)))
                continue
            except Exception:
                pass
        if isinstance(p, Sl) and p.base.op == "decode" and p.base.args[1] == enc and seq._whole(st.num, p):
            parts += list(p.base.args[0].parts)
            continue
        if isinstance(p, Sl) and p.base.meta == "ascii" and enc in ASCII:
            b = derived("encode", (p, ASCII[0]), "bytes", labels_of(p))
        elif err in (C("strict"), S("str", (Lit("strict"),))) or enc == C("utf-8"):
            b = derived("encode", (p, enc), "bytes", labels_of(p))
        else:
            b = derived("encode with errors", (p, enc, err), "bytes", labels_of(p))
        parts.append(b.whole())
    return [(st, simp(S("bytes", norm_parts(st.num, parts))))]


def decode(interp, st, s, args, kw, fr, node):
    enc = enc_name(args, kw)
    parts = []
    ok = True
    for p in s.parts:
        if isinstance(p, Lit):
            try:
                parts.append(Lit(p.v.decode(enc.v)))
                continue
            except Exception:
                ok = False
                break
        if isinstance(p, Sl) and p.base.op == "encode" and p.base.args[1] == enc and seq._whole(st.num, p):
            parts.append(p.base.args[0])
            continue
        if isinstance(p, Sl) and p.base.op == "encode" and isinstance(p.base.args[0], Sl) and p.base.args[0].base.meta == "ascii" and p.base.args[1] in ASCII and enc in ASCII and seq._whole(st.num, p):
            parts.append(p.base.args[0])
            continue
        if isinstance(p, Sl) and p.base.meta == "plain" and seq._whole(st.num, p) and enc == C("utf-8"):
            b = derived("decode", (S("bytes", (p,)), enc), "str", labels_of(p))
            b.meta = "plain"
            parts.append(b.whole())
            continue
        ok = False
        break
    if ok:
        return [(st, simp(S("str", norm_parts(st.num, parts))))]
    err = args[1] if len(args) > 1 else kw.get("errors", C("strict"))
    bad = st.copy()
    bad.event("fails", "decoding", interp.where(node, fr))
    b = derived("decode" if err == C("strict") else "decode with errors", (s, enc) if err == C("strict") else (s, enc, err), "str", labels_of(s))
    st.event("decode", s, node)
    if enc in (C("latin-1"), C("iso-8859-1"), C("latin1"), C("iso8859-1")) or err in (C("replace"), C("ignore"), C("surrogateescape"), C("backslashreplace")):
        return [(st, b.seq())]
    return [(st, b.seq()), (bad, interp.exc(bad, "UnicodeDecodeError", node, fr))]


def format_(interp, st, s, args, kw, fr, node):
    """str.format with simple fields."""
    import string

    t = const_text(s)
    labs = labels_of(s)
    for a in list(args) + list(kw.values()):
        if isinstance(a, V):
            labs |= labels_of(a, st)
    if t is not None:
        try:
            items = list(string.Formatter().parse(t))
        except ValueError:
            return [(st, interp.exc(st, "ValueError", node, fr))]
        auto = 0
        cur = [(st, S("str"))]
        out = []
        for text, field, spec, conv in items:
            val = None
            if field is not None:
                if field == "":
                    key, auto = auto, auto + 1
                else:
                    key = int(field) if field.isdigit() else field
                if isinstance(key, int):
                    if key >= len(args):
                        return [(st, interp.exc(st, "IndexError", node, fr, "format()"))]
                    val = args[key]
                elif key in kw:
                    val = kw[key]
                elif "." in key or "[" in key or "**" in kw:
                    val = U("formatfield", (C(key),), None, {"unk"})
                else:
                    return [(st, interp.exc(st, "KeyError", node, fr, "format()"))]
            nxt = []
            for x, acc in cur:
                acc = concat(x.num, acc, lit(text)) if text else acc
                if val is None:
                    nxt.append((x, acc))
                elif not spec and conv in (None, "s"):
                    for y, r in M.to_str(interp, x, val, fr, node):
                        if isinstance(r, Raise):
                            out.append((y, r))
                        else:
                            nxt.append((y, concat(y.num, acc, as_seq(r))))
                else:
                    b = derived("format", (val, C(spec), C(conv)), "str", labels_of(val, x))
                    nxt.append((x, concat(x.num, acc, b.seq())))
            cur = nxt
        return out + [(x, simp(a)) for x, a in cur]
    vals = tuple(a for a in args if isinstance(a, V)) + tuple(kw[k] for k in sorted(kw))
    return [(st, derived("formatted", (s,) + vals, "str", labs).seq())]


# ------------------------------------------------------------ matches


def match_item(interp, st, m, idx, fr, node):
    return match_method(interp, st, m, "group", [idx], {}, fr, node)


def match_method(interp, st, m, name, args, kw, fr, node):
    if m.op == "matchx":
        if name in ("group", "__getitem__") and (not args or args == [I(0)]):
            return [(st, simp(m.args[0]))]
        st.vague("match." + name)
        return [(st, interp.fresh("match." + name, labels={"unk"}))]
    src, i = m.args
    if name in ("group", "__getitem__"):
        if not args or args == [I(0)]:
            b = derived("group", (src, i), src.args[1].kind, m.labels)
            return [(st, b.seq())]
        return [(st, derived("subgroup", (src, i) + tuple(args), src.args[1].kind, m.labels).seq())]
    if name in ("start", "end") and (not args or args == [I(0)]):
        u = U("match." + name, (m,), "int", m.labels)
        st.assume_ge0(M.int_lin(interp, st, u))
        return [(st, u)]
    return [(st, U("match." + name, (m,) + tuple(args), None, m.labels))]
