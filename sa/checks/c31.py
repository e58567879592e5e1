"""C31: reported common parts are consistently recorded."""
from .c25 import *
from .c25 import contents, patterns, splits

EXPLAIN = (
    "Abstract interpretation over tokens of which only equality is known: the construction of the automaton and the pairwise search are interpreted on opaque tokens, for every pattern of "
    "equal and different tokens in two sequences of small total length (loops are unrolled, as the shape is known; 7 tokens, thorough: 8, and longer ones over two tokens). "
    "On every path position and length must belong to one match inside both sequences, the first one of that length in each; without a common token all must be zero. "
    "The bound is on the length only: the tokens stand for any hashable values. Strings, bytes, lists and falsy tokens are interpreted as well."
)
TECHNIQUE = "abstract interpretation over token equality, loops unrolled up to a bound on the length"


def entries(ctx, it):
    """(name, callable of state and two sequences)"""
    r = [("find_lcs", "wrappers", None), ("suffix_automaton.find_lcs", "suffix_automaton", ctx.fn(it, "suffix_automaton", "build"))]
    return [(n, ctx.fn(it, m, "find_lcs"), b) for n, m, b in r]


def run(it, st, f, b, x, y, fr):
    if b is None:
        return it.call(st, f, [x, y], {}, fr, None)
    out = []
    for s, root in it.call(st, b, [x], {}, fr, None):
        out += [(s, root)] if isinstance(root, Raise) else it.call(s, f, [root, y], {}, fr, None)
    return out


def check(ctx):
    jobs = []
    for sizes in splits(2, 6 if ctx.tier == "quick" else 8):
        jobs.append(("matches", matches, sizes, None))
    for sizes in splits(2, 8 if ctx.tier == "quick" else 11):
        # few tokens, many repetitions: nodes of the automaton are split
        if sum(sizes) > (6 if ctx.tier == "quick" else 8) and sizes[1] <= 4:
            jobs.append(("matches", matches, sizes, 2))
    for kind in KINDS:
        jobs.append(("kinds", kinds, kind))
    ctx.parallel(jobs)


def limited(n, m):
    for p in patterns(n):
        if m is None or max(p) < m:
            yield p


def matches(ctx, sizes, m):
    it, _, _ = search(ctx)
    fr = top_frame(it)
    names = "abcdefghij"
    st = it.start()
    t = distinct(st, names)
    for u in t.values():
        st.facts[("foreign", u)] = True
    es = entries(ctx, it)
    for k, p in enumerate(limited(sum(sizes), m)):
        a, b = [names[v] for v in p[:sizes[0]]], [names[v] for v in p[sizes[0]:]]
        x, y = (S("tuple", [One(t[c]) for c in s]) for s in (a, b))
        name, f, build = es[k % len(es)] if sum(sizes) > 4 else es[0]
        inspect2(ctx, it, f, build, st, x, y, a, b, fr, name)
        if sum(sizes) <= 4:
            name, f, build = es[1]
            inspect2(ctx, it, f, build, st, x, y, a, b, fr, name)


PAIRS = [("", ""), ("", "a"), ("a", ""), ("ab", "cd"), ("abcab", "cab"), ("xabcy", "zabcw"), ("aaa", "aa"), ("abcd", "bcxbcd"), ("mississippi", "issip"), ("abab", "baba"),
         ("axbycz", "zcybxa"), ("abcbc", "bcbc"), ("ab" * 5, "ba" * 4), ("abcdefabc", "xabcdefy")]
KINDS = {
    "strings": lambda s: lit(s),
    "bytes": lambda s: lit(s.encode()),
    "numbers with 0": lambda s: S("tuple", [One(I(Lin("abcdefghijklmnopqrstuvwxyz".index(c)))) for c in s]),
    "falsy tokens": lambda s: S("tuple", [One({"a": lit(""), "b": I(Lin(0)), "c": S("tuple"), "d": C(None)}.get(c, lit(c))) for c in s]),
    "list": lambda s: S("list", [One(lit(c)) for c in s]),
}


def kinds(ctx, kind):
    it, _, _ = search(ctx)
    fr = top_frame(it)
    for a, b in PAIRS:
        for name, f, build in entries(ctx, it):
            st = it.start()
            x, y = KINDS[kind](a), KINDS[kind](b)
            if x.kind == "list":
                x, y = (st.alloc(Obj("list", None, {"seq": q}, "input")) for q in (x, y))
            inspect2(ctx, it, f, build, st, x, y, list(a), list(b), fr, name + " of " + kind)


def inspect2(ctx, it, f, build, st, x, y, a, b, fr, name):
    rule = "match"
    what = f"{name}({''.join(a) or '-'}, {''.join(b) or '-'})"
    outs = run(it, st.copy(), f, build, x, y, fr)
    ctx.absorb(it)
    sure = 0
    for s, r in outs:
        if s.imp or not feasible(s):
            continue
        if isinstance(r, Raise):
            ctx.violation(rule, f"{rule}:{name}:fails:{it.exc_name(s, r)}", f"{what} fails with {it.exc_name(s, r)}", raise_where(it, r, f), path_of(s))
            return
        bad = judge2(it, s, r, a, b)
        if bad is None:
            continue
        if bad:
            ctx.violation(rule, f"{rule}:{name}:{bad[0]}", f"{what} {bad[1]}", where_fn(f), path_of(s))
            return
        sure += 1
    if sure:
        ctx.good(rule, f"{rule}:{name}")
    else:
        ctx.undecided(rule, f"{rule}:{name}", f"the result of {what} is not known")


def judge2(it, s, r, a, b):
    parts = contents(it, s, r)
    if parts is None or len(parts) != 3 or not all(isinstance(v, I) and v.lin.const for v in parts):
        return None
    pa, pb, n = (v.lin.c for v in parts)
    got = f"reports ({pa}, {pb}, {n})"
    if not set(a) & set(b):
        return () if (pa, pb, n) == (0, 0, 0) else ("none", got + " although nothing is common")
    if n <= 0:
        return ("missed", got + " although there is a common token")
    if pa < 0 or pa + n > len(a) or pb < 0 or pb + n > len(b):
        return ("outside", got + ", which is not inside the sequences")
    if a[pa:pa + n] != b[pb:pb + n]:
        return ("different", got + f": {''.join(a[pa:pa + n])} and {''.join(b[pb:pb + n])} are not the same")
    for p in range(pb):
        if any(b[p:p + n] == a[q:q + n] for q in range(len(a) - n + 1)):
            return ("later", got + f", but a match as long starts at {p} in the second sequence")
    for q in range(pa):
        if b[pb:pb + n] == a[q:q + n]:
            return ("later", got + f", but the match starts at {q} in the first sequence")
    ext = [(1, pa + n < len(a) and pb + n < len(b) and a[pa + n] == b[pb + n]), (-1, pa > 0 and pb > 0 and a[pa - 1] == b[pb - 1])]
    if any(e for _, e in ext):
        return ("shorter", got + ", but the match goes on")
    return ()
