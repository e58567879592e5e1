"""C32: the line view keeps every character of both sides."""
import itertools

from .tokenizing import *
from .contracts import collect, is_rec, field

EXPLAIN = (
    "Abstract interpretation of the conversion to the line view on streams of up to five unchanged texts and changes in turn, put together in many ways from texts in which words are opaque "
    "pieces of any length and the line ends and blanks between them are enumerated, one or both sides of a change empty included. The first side of the result (texts, and "
    "first sides of changes, down to the changes within changes) must be exactly the first side of the stream, the second side likewise, except for one line end added at the end; "
    "every piece but the last must consist of whole lines on both sides."
)

# "w" is an opaque word
FRAGS = ("w", "w\n", "\n", " ", "w\nw", "w\nw\n", " \nw", "w\n\nw\nw", "\n\n")
SIDES = ("", "w", "w\n", "w\nw", "\n", " ")


def shapes():
    changes = [("c", a, b) for a in SIDES for b in SIDES if (a or b) and (SIDES.index(a) < 4 or SIDES.index(b) < 3)]
    few = [("c", a, b) for a, b in (("w", ""), ("", "w"), ("w", "w"), ("w\n", "w"), ("w", "w\n"), ("w\n", "w\n"), ("", "w\n"), ("w\n", ""), ("w", "\n"))]
    frags = [("f", x) for x in FRAGS]
    few_frags = [("f", x) for x in ("w", "w\n", "\n", "w\nw", " ", "w\nw\nw\n")]
    out = [()]
    out += [(x,) for x in frags + changes]
    out += list(itertools.product(frags, changes)) + list(itertools.product(changes, frags))
    out += list(itertools.product(few_frags + frags[5:], few, frags)) + list(itertools.product(few, frags, few))
    out += [(a, b, c, d) for a in few_frags[:4] for b in few for c in few_frags[:5] for d in few]
    out += [(b, c, d, e) for b in few for c in few_frags[:5] for d in few for e in few_frags[:4]]
    out += [(a, b, c, d, e) for a in few_frags[:2] for b in few[2:5] for c in few_frags for d in few[2:7] for e in few_frags[:4]]
    return out


def check(ctx):
    it = ctx.interp()
    ctx.fn(it, "diff_to_lines", "to_line_diff")
    k = 8
    ctx.parallel([("lines", part, name, j, k) for name in ("to_line_diff", "consolidated_line_diff") for j in range(k)])


def part(ctx, name, j, k):
    it = ctx.interp(limit_s=240)
    it.unroll = 24
    it.max_states = 4000
    fn = ctx.fn(it, "diff_to_lines", name, name == "to_line_diff")
    if fn is None:
        return
    fr = top_frame(it)
    change = ctx.fn(it, "types", "Change")
    for shape in shapes()[j::k]:
        one(ctx, it, fr, fn, change, name, shape)
        if ctx.violations:
            break
    ctx.absorb(it)


def build(it, st, fr, change, shape):
    n = [0]

    def txt(x):
        ps = []
        for ch in x:
            if ch == "w":
                n[0] += 1
                ps.append(word(f"w{n[0]}", "str", 1))
            else:
                ps.append(ch)
        return text("str", *ps)

    xs, a, b = [], S("str", ()), S("str", ())
    for s in shape:
        if s[0] == "f":
            t = txt(s[1])
            xs.append(t)
            a, b = concat(st.num, a, t), concat(st.num, b, t)
        else:
            ta, tb = txt(s[1]), txt(s[2])
            outs = it.call(st, change, [simp(ta), simp(tb)], {}, fr, None)
            if len(outs) != 1 or isinstance(outs[0][1], Raise):
                raise Anchor("Change(a, b) cannot be made")
            st, c = outs[0]
            xs.append(c)
            a, b = concat(st.num, a, ta), concat(st.num, b, tb)
    return st, [simp(x) for x in xs], a, b


def side(it, st, v, which):
    """Text of one side of a piece of the line view, or None."""
    q = M.seqv(it, st, v)
    if q is not None and q.kind == "str":
        return q
    if is_rec(it, st, v, "Change"):
        return side(it, st, field(st, v, which), which)
    if q is not None and q.kind in ("tuple", "list"):
        es = M.explicit(q)
        if es is None:
            return None
        r = S("str", ())
        for e in es:
            x = side(it, st, e, which)
            if x is None:
                return None
            r = concat(st.num, r, x)
        return r
    return None


def one(ctx, it, fr, fn, change, name, shape):
    st, xs, a, b = build(it, it.start(), fr, change, shape)
    shown = ", ".join(repr(s[1]) if s[0] == "f" else f"Change({s[1]!r}, {s[2]!r})" for s in shape)
    stream = st.alloc(Obj("iter", None, {"seq": S("list", [One(x) for x in xs])}, "local"))
    for s, g in it.call(st, fn, [stream], {}, fr, None):
        for t, es in collect(it, s, g, fr, "lined") if not isinstance(g, Raise) else [(s, None)]:
            if not feasible(t):
                continue

            def bad(rule, what, msg):
                if exact(t, *(es or ())):
                    ctx.violation(rule, f"{name}:{what}", f"{name}([{shown}]) (w is any word): {msg}", where_fn(fn), path_of(t))
                else:
                    ctx.undecided(rule, f"{name}:{what}", msg)

            if es is None or isinstance(es, Raise):
                bad("lines", "raises", "raises an exception")
                continue
            good = True
            for which, want in (("a", a), ("b", b)):
                sides = [side(it, t, e, which) for e in es]
                if any(x is None for x in sides):
                    ctx.undecided("lines", f"{name}:{which}", "pieces of an unexpected form")
                    good = False
                    continue
                got = S("str", ())
                for x in sides:
                    got = concat(t.num, got, x)
                if not any(seq.same(t.num, got, w) for w in (want, concat(t.num, want, S("str", (Lit("\n"),))))):
                    good = False
                    bad("lines", which, f"the {'first' if which == 'a' else 'second'} side is {describe(got)} instead of {describe(want)}")
            if good:
                ctx.good("lines", f"{name} {len(shape)} pieces")
                whole(ctx, it, t, es, bad, name)


def whole(ctx, it, st, es, bad, name):
    for k, e in enumerate(es[:-1]):
        for which in ("a", "b"):
            q = side(it, st, e, which)
            if q.parts and not (isinstance(q.parts[-1], Lit) and q.parts[-1].v.endswith("\n")):
                bad("whole", which, f"piece {k} ({describe(e)}) ends within a line")
                return
    ctx.good("whole", name)
