"""C04: a diff loses, repeats and reorders nothing."""
from .contracts import *

EXPLAIN = (
    "Symbolic tiling of both sequences by slices. The search for a common part is replaced by its contract (nothing, or any match inside both "
    "segments); the recursion is covered by structural induction: each node is checked with both children standing for any tiling of their segments. "
    "On every path the unchanged and deleted parts must concatenate to the whole first sequence and the unchanged (rewritten through the match) and "
    "inserted parts to the whole second one, as equalities of slice bounds over unbounded lengths. Decided for str, bytes and tuples."
)


def tiles(ctx, it, x, got, O, Mb, name, kind, chg="Change"):
    """Check that a list of diff items covers both sequences."""
    o, m = S(kind), S(kind)
    vague = not exact(x, *got)
    for e in got:
        if is_rec(it, x, e, chg):
            a, b = M.seqv(it, x, field(x, e, "a")), M.seqv(it, x, field(x, e, "b"))
            parts = [(a, "m"), (b, "o")]
        else:
            q = M.seqv(it, x, e)
            parts = [(q, "o"), (q, "m")]
        for q, side in parts:
            if q is None:
                ctx.undecided("tiling", f"{name} {kind}", f"element {describe(e)}")
                return
            if q.kind != kind:
                if vague:
                    ctx.undecided("tiling", f"{name} {kind}", f"element of kind {q.kind}")
                    return
                q = S(kind, q.parts)
            q = translate(x, q, Mb, O) if side == "o" else translate(x, q, O, Mb)
            if side == "o":
                o = concat(x.num, o, q)
            else:
                m = concat(x.num, m, q)
    for side, got_, want in (("first", o, O), ("second", m, Mb)):
        if seq.same(x.num, got_, want.seq()):
            ctx.good("tiling", f"{name} {kind}: {side} sequence")
        elif vague or not feasible(x):
            ctx.undecided("tiling", f"{name} {kind}: {side}", f"parts give {describe(got_)}; " + ", ".join(x.imp))
        else:
            ctx.violation("tiling", f"{name}:{side}", f"{name}: the parts that should make up the {side} sequence ({kind}) are {describe(got_)}", "", path_of(x))


def one(ctx, mod, fname, kind, call):
    it = ctx.interp()
    lcs_contract(it, 3 if ctx.tier == "thorough" else 2)
    f = ctx.fn(it, mod, fname)
    it.max_states, it.unroll = 2000, 14
    fr = top_frame(it)
    O, Mb = base("original", kind), base("modified", kind)
    st = it.start()
    for s, g in call(it, st, f, O.seq(), Mb.seq(), fr):
        if isinstance(g, Raise):
            outs = [(s, g)]
        else:
            outs = collect(it, s, g, fr)
        for x, got in outs:
            if not isinstance(got, list):
                if exact(x) and feasible(x):
                    w, n, _ = raise_where(it, x, got)
                    ctx.violation("tiling", f"{fname}:raises {n}", f"{fname} raises {n} for two sequences of kind {kind}", w, path_of(x))
                else:
                    ctx.undecided("tiling", f"{fname} {kind}", "may raise: " + ", ".join(x.imp))
                continue
            tiles(ctx, it, x, got, O, Mb, fname, kind)
    ctx.absorb(it)


def plain(it, st, f, o, m, fr):
    return it.call(st, f, [o, m], {}, fr, None)


def check(ctx):
    for kind in KINDS:
        ctx.part("tiling", one, ctx, "changesets", "diff_token_sequences", kind, plain)
        if kind != "tuple":
            ctx.part("tiling", one, ctx, "tokenizers", "diff", kind, plain)
