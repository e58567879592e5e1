"""C03: stored changesets read back unchanged."""
import itertools

from .util import *
from ..values import derived, Base

EXPLAIN = (
    "Abstract composition of writer and reader of changesets. Items have opaque contents, lengths and positions (empty ones included); every "
    "order of literal and copied items is covered up to a length at which the control state of both loops (which depends on the previous item "
    "only) has taken every transition. Integers are kept as symbolic encodings justified by C01. On every path the reader has to yield exactly "
    "the non-empty items, in order, and consume the string."
)


def codec(it):
    """Abstract integer codecs: what one writes the other reads."""
    def enc(op):
        def h(it, st, f, args, kw, fr, node):
            if len(args) != 1 or kw:
                return None
            l = M.int_lin(it, st, args[0])
            if l is None:
                return None
            b = derived(op, (I(st.num.norm(l)),), "bytes", frozenset(), Lin.of(Atom(f"len({op} {l!r})", 1, 9 if op == "vint" else 4)))
            return [(st, b.seq())]
        return h

    def dec(op):
        def h(it, st, f, args, kw, fr, node):
            if len(args) != 1 or kw:
                return None
            q = M.seqv(it, st, args[0])
            if q is None:
                return None
            q = seq.normalize(st.num, q)
            if not q.parts or st.num.is0(slen(q)) is True:
                return [(st, it.exc(st, "RuntimeError", node, fr))]
            p = q.parts[0]
            if isinstance(p, Sl) and p.base.op == op and st.num.is0(p.lo) is True and st.num.is0(p.hi - p.base.len) is True:
                rest = S("bytes", q.parts[1:])
                return [(st, S("tuple", (One(p.base.args[0]), One(simp(rest)))))]
            st.event("misread", f.qual, q, it.where(node, fr))
            if not (isinstance(p, Lit) or isinstance(p, Sl) and (p.base.op in ("vint", "fint") or p.base.name.startswith("literal"))):
                st.vague("unknown position in the byte string")
            # nothing sensible can be said about what follows
            return [(st, it.exc(st, "RuntimeError", node, fr))]
        return h

    it.override("gaspra.serialize", "vserialize_int", enc("vint"))
    it.override("gaspra.serialize", "vdeserialize_int", dec("vint"))
    try:
        it.override("gaspra.serialize", "serialize_int", enc("fint"))
        it.override("gaspra.serialize", "deserialize_int", dec("fint"))
    except Exception:
        pass


def item(kind, k):
    if kind == "b":
        return base(f"literal{k}", "bytes").seq()
    a, n = Atom(f"start{k}", 0, 2 ** 62), Atom(f"n{k}", 0, 2 ** 62)
    return SL(I(Lin.of(a)), I(Lin.of(a) + Lin.of(n)), NONE)


def same_item(it, st, want, got):
    if isinstance(want, SL):
        if not isinstance(got, SL):
            return False
        return all(M.int_lin(it, st, x) is not None and st.num.is0(M.int_lin(it, st, x) - M.int_lin(it, st, y)) is True
                   for x, y in ((got.lo, want.lo), (got.hi, want.hi)))
    q = M.seqv(it, st, got)
    return q is not None and q.kind == "bytes" and bool(seq.same(st.num, q, want))


def size(want):
    return want.hi.lin - want.lo.lin if isinstance(want, SL) else slen(want)


def one(ctx, kinds):
    it = ctx.interp()
    codec(it)
    it.unroll = 2 * len(kinds) + 2
    w, r = ctx.fn(it, "serialize", "serialize_changeset"), ctx.fn(it, "serialize", "deserialize_changeset")
    fr = top_frame(it)
    xs = [item(k, i) for i, k in enumerate(kinds)]
    name = "".join({"b": "L", "s": "C"}[k] for k in kinds) or "none"
    for s, b in it.call(it.start(), w, [S("tuple", [One(x) for x in xs])], {}, fr, None):
        if isinstance(b, Raise):
            if exact(s) and feasible(s):
                ctx.violation("write", f"{name}", f"serialize_changeset raises {it.exc_name(s, b)} for items {name}", where_fn(w), path_of(s))
            continue
        mark = s.trace
        for t, g in it.call(s, r, [b], {}, fr, None):
            if isinstance(g, Raise):
                outs = [(t, ("exc", g))]
            else:
                def body(x, e):
                    x.event("got", e)
                    return [(x, None)]

                outs = it.iterate(t, g, body, fr, None)
            for x, sig in outs:
                if not feasible(x):
                    continue
                ev = x.events(mark)
                got = [e[1] for e in ev if e[0] == "got"]
                bad = [e for e in ev if e[0] == "misread"]
                if bad:
                    if exact(x):
                        ctx.violation("read", "misread", f"items {name}: {bad[0][1]} is applied to {describe(bad[0][2])}", "src/" + bad[0][3], path_of(x))
                    else:
                        ctx.undecided("read", name, "reader not in step: " + ", ".join(x.imp))
                    continue
                want = [w_ for w_ in xs if x.num.is0(size(w_)) is not True]
                if sig is not None:
                    if exact(x):
                        ctx.violation("read", "raises", f"deserialize_changeset raises on a stored changeset of items {name}", where_fn(r), path_of(x))
                    else:
                        ctx.undecided("read", name, "may raise: " + ", ".join(x.imp))
                    continue
                def empty(g_):
                    q = M.seqv(it, x, g_)
                    if isinstance(g_, SL) and g_.lo == g_.hi:
                        return True
                    return q is not None and x.num.is0(slen(q)) is True

                got = [g_ for g_ in got if not empty(g_)]
                ok = len(got) == len(want) and all(same_item(it, x, w_, g_) for w_, g_ in zip(want, got))
                if ok:
                    ctx.good("items", f"{name} read back")
                elif exact(x, *got):
                    ctx.violation("items", "sequence", f"items {name} written as {describe(b)} are read back as {describe(got)}", where_fn(r), path_of(x))
                else:
                    ctx.undecided("items", name, f"read back as {describe(got)}")
    ctx.absorb(it)


def check(ctx):
    top = 3 if ctx.tier != "thorough" else 5
    for n in range(top + 1):
        for kinds in itertools.product("bs", repeat=n):
            ctx.part("items", one, ctx, kinds)
