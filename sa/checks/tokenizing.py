"""Abstract runs of the tokenizers, used by C22, C23 and C24."""
from .util import *
from .. import regex
from ..report import Anchor
from ..lib_text import const_text

# fixed texts put between the opaque pieces
EOLS = {"str": ["\n", "\r", "\r\n", "\x0b", "\x0c", "\x1c", "\x85", "\u2028", "\u2029", "\n\n"], "bytes": [b"\n", b"\r", b"\r\n", b"\n\n"]}


def tokenizers(ctx, it):
    """Classes of the package with encode and decode that can be made."""
    m = it.mods.get("gaspra.tokenizers")
    if m is None:
        raise Anchor("gaspra.tokenizers does not exist")
    r = []
    for mod in sorted(it.mods):
        env = it.init.obj(Ref(it.mods[mod]))
        for n, v in sorted(env.f.items(), key=lambda x: str(x[0])):
            if isinstance(v, Cls) and v.mod == mod and not n.startswith("_"):
                if is_protocol(v):
                    continue
                if all(isinstance(it.lookup(it.init, v, x), Fn) for x in ("encode", "decode")):
                    r.append((n, v))
    if not r:
        raise Anchor("there are no tokenizers")
    return r


def is_protocol(c):
    import ast

    if not isinstance(c.node, ast.ClassDef):
        return True
    return any("Protocol" in ast.unparse(b) for b in c.node.bases) or any("ABC" in ast.unparse(b) for b in c.node.bases)


def word(name, kind, lo=0):
    """Any text of word characters (so, no separators of any kind)."""
    b = base(name, kind, lo=lo)
    b.meta = "plain"
    return b


def distinct(st, *words):
    for a in words:
        for b in words:
            if a is not b:
                st.facts[M.eqkey(a.seq(), b.seq())] = False
                if a.kind == "bytes":
                    da, db = decoded(a), decoded(b)
                    st.facts[M.eqkey(da.seq(), db.seq())] = False


def decoded(b):
    d = derived("decode", (S("bytes", (b.whole(),)), C("utf-8")), "str", b.labels)
    d.meta = "plain"
    return d


def text(kind, *parts):
    """A text of opaque pieces (bases) and constants."""
    ps = []
    for p in parts:
        if isinstance(p, Base):
            ps.append(p.whole())
        elif p:
            ps.append(Lit(p))
    return S(kind, ps)


def interp(ctx):
    it = ctx.interp(limit_s=60)
    it.unroll = 24
    it.max_states = 4000
    it.regex_pieces = pieces(ctx)
    return it


def pieces(ctx):
    """Matches of a regular expression: those of a constant text are known;
    an expression that matches every text from its start to its end cuts
    it into its parts (the texts of the checks are put together in all ways)."""

    def hook(st, rx, s):
        import re

        c = const_text(s)
        if c is not None:
            return [lit(m[0]) for m in re.compile(*rx).finditer(c)]
        t = regex.total(*rx)
        if t is not True:
            if t and t[1] not in ctx.gaps:
                ctx.gaps.append(t[1])
            return None
        out = []
        for p in s.parts:
            if isinstance(p, Lit):
                out += [lit(m[0]) for m in re.compile(*rx).finditer(p.v)]
            else:
                out.append(S(s.kind, (p,)))
        return out

    ctx.gaps = []
    return hook


def same_text(st, v, t, it):
    """Is the value the text?  True, False or None"""
    q = M.seqv(it, st, v)
    if q is None or isinstance(v, Ref):
        return False if exact(st, v) and (q is not None or isinstance(v, (I, C, Ref))) else None
    if q.kind != t.kind:
        return False
    if seq.same(st.num, q, t):
        return True
    if not exact(st, v):
        return None
    r = M.plain_eq(st, q, t)
    if r is not None:
        return r
    if const_text(q) is not None and const_text(t) is not None:
        return const_text(q) == const_text(t)
    if st.num.is0(slen(q) - slen(t)) is False:
        return False
    return None


def make(it, st, cls, fr):
    outs = it.call(st, cls, [], {}, fr, None)
    outs = [(s, v) for s, v in outs if not isinstance(v, Raise)]
    if len(outs) != 1:
        raise Anchor(f"{cls.name} cannot be made without arguments")
    return outs[0]


def method(it, st, obj, name, args, fr):
    out = []
    for s, f in it.getattr(st, obj, name, fr, None):
        if isinstance(f, Raise):
            out.append((s, f))
        else:
            out += it.call(s, f, args, {}, fr, None)
    return [(s, v) for s, v in out if feasible(s)]
