"""C08: results are of the same kind as the inputs."""
from itertools import product
from .merging import *
from . import tokenizing as T

EXPLAIN = (
    "Kind inference over every path of diff, patch and merge, separately for strings, bytes and token tuples: each item and each side of a change or "
    "conflict in the result must have the kind of the inputs, on every path including those where it is empty, and no path may end in an exception. "
    "The search for common parts is replaced by its contract. diff and merged are also run with every tokenizer on texts of opaque lines, with all combinations of empty "
    "and shared texts."
)


def kinds(ctx, it, x, got, kind, name):
    if isinstance(got, Raise):
        if exact(x) and feasible(x):
            w, n, _ = raise_where(it, x, got)
            ctx.violation("no failure", f"{name}:{kind}:{n}", f"{name} raises {n} for {kind}", w, path_of(x, 60))
        else:
            ctx.undecided("no failure", f"{name} {kind}", "may raise: " + ", ".join(x.imp))
        return
    for e in got:
        if is_rec(it, x, e, "Change"):
            vs = [("first side", field(x, e, "a")), ("second side", field(x, e, "b"))]
        else:
            vs = [("item", e)]
        for side, v in vs:
            q = M.seqv(it, x, v)
            if q is not None and q.kind == kind:
                ctx.good("kind", f"{name} {kind}: {side}")
            elif q is None and not isinstance(v, C) or not exact(x, v) or not feasible(x):
                ctx.undecided("kind", f"{name} {kind}: {side}", f"{describe(v)}; " + ", ".join(x.imp))
            else:
                ctx.violation("kind", f"{name}:{kind}:{side}", f"{name} of {kind} gives {describe(v)} as {side} of a result", "", path_of(x, 60))


def merge(ctx, kind, case, api):
    if api == "merge_token_sequence":
        m = Merge(ctx, kind, case)
        for x, got in m.outcomes():
            kinds(ctx, m.it, x, got, kind, api)
        return
    m = Merge(ctx, kind, case)
    it = m.it
    f = ctx.fn(it, "tokenizers", "merged")
    for s, g in it.call(it.start(), f, [m.P.seq(), m.B[0].seq(), m.B[1].seq()], {}, m.fr, None):
        for x, got in [(s, g)] if isinstance(g, Raise) else collect(it, s, g, m.fr):
            kinds(ctx, it, x, got, kind, api)
    ctx.absorb(it)


def diff(ctx, kind, mod, name):
    it = ctx.interp()
    lcs_contract(it, 1)
    it.max_states, it.unroll = 2000, 14
    fr = top_frame(it)
    f = ctx.fn(it, mod, name)
    O, Mb = base("original", kind), base("modified", kind)
    for s, g in it.call(it.start(), f, [O.seq(), Mb.seq()], {}, fr, None):
        for x, got in [(s, g)] if isinstance(g, Raise) else collect(it, s, g, fr):
            kinds(ctx, it, x, got, kind, name)
    ctx.absorb(it)


def patch(ctx, kind, way):
    it = ctx.interp()
    lcs_contract(it, 1)
    it.max_states, it.unroll = 2000, 14
    fr = top_frame(it)
    find, strip, app = ctx.fn(it, "changesets", "find_changeset"), ctx.fn(it, "changesets", "strip_" + way), ctx.fn(it, "changesets", "apply")
    O, Mb = base("original", kind), base("modified", kind)
    name = f"strip_{way} and apply"
    for s, cs in it.call(it.start(), find, [O.seq(), Mb.seq()], {}, fr, None):
        if isinstance(cs, Raise):
            kinds(ctx, it, s, cs, kind, "find_changeset")
            continue
        for t, stream in it.getattr(s, cs, "as_change_stream", fr, None):
            for u, changes in it.call(t, stream, [], {}, fr, None):
                for w, p in it.call(u, strip, [changes], {}, fr, None):
                    for x, r in it.call(w, app, [p, (O if way == "forward" else Mb).seq()], {}, fr, None):
                        kinds(ctx, it, x, r if isinstance(r, Raise) else [r], kind, name)
    ctx.absorb(it)


def common(it):
    """find_lcs for token sequences that are spelled out: the longest common
    part if the tokens are known, nothing in common otherwise."""
    numbers = lambda st, v: [M.int_lin(it, st, x) for x in M.explicit(M.seqv(it, st, v)) or ()] if M.seqv(it, st, v) is not None else []

    def build(it, st, f, args, kw, fr, node):
        return [(st, U("automaton", (args[0],)))] if len(args) == 1 else None

    def find(it, st, f, args, kw, fr, node):
        if len(args) != 2 or not (isinstance(args[0], U) and args[0].op == "automaton"):
            return None
        a, b = numbers(st, args[0].args[0]), numbers(st, args[1])
        best = (0, 0, 0)
        for i, j in product(range(len(a)), range(len(b))):
            n = 0
            while i + n < len(a) and j + n < len(b) and a[i + n] is not None and a[i + n] == b[j + n]:
                n += 1
            if n > best[2]:
                best = (i, j, n)
        return [(st, S("tuple", tuple(One(I(x)) for x in best)))]

    it.override("gaspra.suffix_automaton", "build", build)
    it.override("gaspra.suffix_automaton", "find_lcs", find)


def encoded(ctx, kind, tok, api):
    """diff and merged with a tokenizer: texts of up to three lines"""
    it = T.interp(ctx)
    common(it)
    fr = top_frame(it)
    f = ctx.fn(it, "tokenizers", api)
    cls = dict(T.tokenizers(ctx, it))[tok]
    words = {n: T.word(n, kind, 1) for n in "abc"}
    st0 = it.start()
    T.distinct(st0, *words.values())
    nl = T.EOLS[kind][0]
    texts = ["", "a", "ab", "acb", "b"]
    known = False
    s, o = T.make(it, st0.copy(), cls, fr)
    for x, v in T.method(it, s, o, "encode", [T.simp(T.text(kind, words["a"], nl, words["b"], nl))], fr):
        known = not isinstance(v, Raise) and M.seqv(it, x, v) is not None and M.explicit(M.seqv(it, x, v)) is not None
    if not known:
        texts = ["", "a", "b"]
    for names in product(texts, repeat=2 if api == "diff" else 3):
        args = [T.simp(T.text(kind, *[x for n in t for x in (words[n], nl)])) for t in names]
        for st, o in [T.make(it, st0.copy(), cls, fr)]:
            for s, g in it.call(st, f, args + [o], {}, fr, None):
                for x, got in [(s, g)] if isinstance(g, Raise) else collect(it, s, g, fr):
                    kinds(ctx, it, x, got, kind, f"{api} with {tok}")
    ctx.absorb(it)


def check(ctx):
    jobs = []
    # the shapes with many fragments cost most and add no other kinds of parts
    some = [c for c in cases() if sum(sum(g) for x in c[:2] if x for g in x) <= 6]
    for kind in KINDS:
        jobs += [("kind", merge, kind, c, "merge_token_sequence") for c in (some if kind == "bytes" or ctx.tier == "thorough" else some[-150:])]
        jobs += [("kind", diff, kind, "changesets", "diff_token_sequences")]
        jobs += [("kind", patch, kind, w) for w in ("forward", "reverse")]
        if kind != "tuple":
            jobs += [("kind", diff, kind, "tokenizers", "diff")]
            jobs += [("kind", merge, kind, c, "merged") for c in ((None, None, 0), ((REP, REP), None, 0), ((REP, NIL), (NIL, REP), 0), ((NIL, NIL), (NIL, NIL), 0))]
    it = ctx.interp()
    for n, _ in T.tokenizers(ctx, it):
        jobs += [("kind", encoded, kind, n, api) for kind in ("str", "bytes") for api in ("diff", "merged")]
    run(ctx, jobs)
