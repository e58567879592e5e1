"""C25: separators in a multi-way search match nothing else."""
from .util import *
from .db import distinct

EXPLAIN = (
    "The multi-way search is interpreted abstractly. (1) What it hands to the automaton is recorded for up to four sequences, each made of opaque tokens "
    "(which stand for any token the caller may use) or of fixed ones, in tuples, lists, strings and bytes: it must be the sequences in order, each followed by one separator, and "
    "equality of the separators with each other and with tokens that look like them (numbers, tuples, texts, bytes, None, floats) must be false. "
    "(2) The positions reported are checked on every pattern of equal and different opaque tokens of small total length, and with such look-alike tokens: "
    "each lies inside its own sequence and shows the same tokens."
)
TECHNIQUE = "abstract interpretation: provenance of the concatenated sequence, equality of separators; positions over opaque tokens"

LOOKALIKE = {
    "numbers": [I(Lin(n)) for n in (0, 1, 2, 3, 4, -1, 10)],
    "negative and large numbers": [I(Lin(n)) for n in (-2, -3, -4, 256, 257, 65536, 1114111, 1114112)],
    "tuples of numbers": [S("tuple", [One(I(Lin(n)))]) for n in (0, 1, 2, 3, 4, -1)],
    "tuples": [S("tuple"), S("tuple", [One(I(Lin(0))), One(I(Lin(0)))]), S("tuple", [One(C(None))]), S("tuple", [One(lit("0"))]), S("tuple", [One(lit(""))])],
    "texts": [lit(x) for x in ("", "0", "1", "2", "3", "\0", "\1", "\n", " ", "$", "#", "|", "\ue000", "\uffff", "\U0010ffff")],
    "bytes": [lit(x) for x in (b"", b"0", b"1", b"\0", b"\1", b"\xff", b"\n")],
    "None and truth values": [C(None), C(True), C(False)],
    "floats": [C(x) for x in (0.0, 1.0, 2.0, -1.0, 0.5, float("inf"))],
}


def search(ctx):
    it = ctx.interp()
    it.unroll = it.max_rec = 1500
    it.max_states = 3000
    f = ctx.fn(it, "multiple_strings", "find_lcs")
    build = ctx.fn(it, "suffix_automaton", "build")
    return it, f, build


def check(ctx):
    jobs = []
    for k in range(5):
        jobs.append(("concatenation", concatenation, k))
    for name in LOOKALIKE:
        jobs.append(("look-alikes", lookalikes, name))
    size = 6 if ctx.tier == "quick" else 7
    for k in (1, 2, 3):
        n = size if k < 3 else size - 1
        if k == 1:
            n = 3
        jobs += [("positions", positions, sizes) for sizes in splits(k, n)]
    if ctx.tier != "quick":
        jobs += [("positions", positions, sizes) for sizes in splits(4, 5)]
    ctx.parallel(jobs)


def splits(k, n):
    if k == 0:
        return [()]
    return [(i,) + r for i in range(n + 1) for r in splits(k - 1, n - i)]




def handed_over(ctx, it, f, build, st, seqs, fr):
    """What the automaton is built from: [(state, sequence)]"""
    got = []

    def record(interp, s, fn, args, kw, fr2, node):
        if args:
            arg = args[0]
        else:
            arg = kw.get("tokens", next(iter(kw.values())) if kw else None)
        for x, q in interp.to_seq(s, arg, fr2, node):
            got.append((x, q))
        return []

    it.overrides[id(build.node)] = record
    try:
        outs = it.call(st, f, list(seqs), {}, fr, None)
    finally:
        del it.overrides[id(build.node)]
    return got, outs




def concatenation(ctx, k):
    it, f, build = search(ctx)
    fr = top_frame(it)
    forms = ["fixed", "mixed", "empty"]
    for form in forms:
        st = it.start()
        t = distinct(st, "abcdefgh")
        for u in t.values():
            st.facts[("foreign", u)] = True
        n = 0
        seqs = []
        for i in range(k):
            if form == "empty" and i % 2 == 0:
                seqs.append(S("tuple"))
            else:
                m = 2 if form == "fixed" else 1 + i % 2
                seqs.append(S("tuple", [One(t["abcdefgh"[(n + j) % 8]]) for j in range(m)]))
                n += m
        judge(ctx, it, f, build, st, seqs, fr, f"{k} sequences ({form})", [("an arbitrary token", u) for u in t.values()])
    if k:
        # sequences of every kind
        for kind, parts in (("list", None), ("str", "xyz"), ("bytes", b"xyz")):
            st = it.start()
            t = distinct(st, "abcdefgh")
            for u in t.values():
                st.facts[("foreign", u)] = True
            seqs = []
            for i in range(k):
                if parts is None:
                    seqs.append(st.alloc(Obj("list", None, {"seq": S("list", [One(t["abcdefgh"[i]]), One(t["abcdefgh"[i + 1]])])}, "input")))
                else:
                    seqs.append(lit(parts[:i % 4]))
            judge(ctx, it, f, build, st, seqs, fr, f"{k} sequences of kind {kind}", [])


def contents(it, st, v):
    q = M.seqv(it, st, v)
    return M.explicit(S("list", M.token_parts(q))) if q is not None else None


def judge(ctx, it, f, build, st, seqs, fr, what, tokens):
    rule = "separators"
    key = f"{rule}:{what}"
    got, outs = handed_over(ctx, it, f, build, st.copy(), seqs, fr)
    for s, r in outs:
        if isinstance(r, Raise) and exact(s, r) and feasible(s):
            ctx.violation(rule, key + ":fails", f"the search fails with {it.exc_name(s, r)} for {what}", raise_where(it, r, f), path_of(s))
            return
    if not got:
        if not seqs:
            return
        ctx.undecided(rule, key, f"nothing is handed to the automaton for {what}")
        return
    for s, q in got:
        ex = None if isinstance(q, Raise) else M.explicit(S("list", M.token_parts(q)))
        if ex is None:
            ctx.undecided(rule, key, f"what the automaton is built from is not known for {what}")
            return
        if s.imp or not feasible(s):
            continue
        want = []
        pos = 0
        seps = []
        bad = None
        for i, a in enumerate(seqs):
            mine = contents(it, s, a)
            if [base_eq(it, s, x, y, fr) for x, y in zip(ex[pos:pos + len(mine)], mine)] != [True] * len(mine) or len(ex) < pos + len(mine):
                bad = f"sequence {i + 1} is not handed over where it belongs"
                break
            pos += len(mine)
            if pos >= len(ex):
                bad = f"sequence {i + 1} has no separator after it"
                break
            seps.append(ex[pos])
            pos += 1
        if bad is None and pos != len(ex):
            bad = f"{len(ex) - pos} tokens follow the last separator"
        if bad is None:
            unknown = False

            def same(a, b):
                nonlocal unknown
                r = base_eq(it, s, a, b, fr)
                if r is None and isinstance(a, (I, C, S)):
                    # the caller may use any such value as a token
                    return True
                unknown = unknown or r is None
                return r

            for i, a in enumerate(seps):
                for j, b in enumerate(seps[:i]):
                    if same(a, b):
                        bad = f"the separators after sequences {j + 1} and {i + 1} are not different"
                for i2, q2 in enumerate(seqs):
                    for x in contents(it, s, q2):
                        if same(a, x):
                            bad = f"the separator after sequence {i + 1} is not different from a token of sequence {i2 + 1}"
                for n, x in tokens + [(f"the token {show(x)}", x) for xs in LOOKALIKE.values() for x in xs]:
                    if same(a, x):
                        bad = f"the separator after sequence {i + 1} is not different from {n}"
        if bad is not None:
            ctx.violation(rule, key, f"{bad} ({what})", where_fn(f), path_of(s))
            return
        if unknown:
            ctx.undecided(rule, key, f"whether the separators are different from all tokens is not known ({what})")
            return
    ctx.good(rule, key)


def show(x):
    if isinstance(x, I):
        return repr(x.lin.c)
    if isinstance(x, C):
        return repr(x.v)
    ex = M.explicit(x) if x.kind in ("list", "tuple") else None
    if ex is not None:
        return "(" + ", ".join(show(e) for e in ex) + ("," if len(ex) == 1 else "") + ")"
    return repr(x.parts[0].v if x.parts else seq.EMPTY[x.kind])


def base_eq(it, st, a, b, fr):
    if a == b:
        return True
    s = st.copy()
    outs = M.eq(it, s, a, b, fr, None)
    vs = {r for _, r in outs if not isinstance(r, Raise)}
    if len(vs) == 1 and len(outs) == 1 and outs[0][0].imp == st.imp:
        return vs.pop()
    return None


def patterns(n):
    """All ways in which n tokens can be equal or different."""
    def grow(p, m):
        if len(p) == n:
            yield tuple(p)
            return
        for v in range(m + 1):
            yield from grow(p + [v], max(m, v + 1))
    yield from grow([], 0)


def positions(ctx, sizes):
    it, f, build = search(ctx)
    fr = top_frame(it)
    st = it.start()
    names = "abcdefghi"
    t = distinct(st, names)
    for u in t.values():
        st.facts[("foreign", u)] = True
    for p in patterns(sum(sizes)):
        ss, i = [], 0
        for n in sizes:
            ss.append(["abcdefghi"[v] for v in p[i:i + n]])
            i += n
        inspect(ctx, it, f, st, [S("tuple", [One(t[c]) for c in s]) for s in ss], ss, fr, " ".join("".join(s) or "-" for s in ss))


def lookalikes(ctx, name):
    it, f, build = search(ctx)
    fr = top_frame(it)
    toks = LOOKALIKE[name]
    st = it.start()
    for x in toks:
        for k in (2, 3):
            # the token where a separator would be taken for it
            for ss in ([[x], [x]], [[x, x], [x]], [[x], [x, x], [x]], [["u", x], [x, "v"], ["w", x]], [["u"], ["v", x, "u"], ["u", x]], [[x, "u"], ["u"], ["u", x]],
                       [["u", x, "v"], ["u", "v"]], [["u"], ["u", x]], [["u", x], ["u"]]):
                if (len(ss) == 2) != (k == 2):
                    continue
                seqs = [S("tuple", [One(lit("token " + e) if isinstance(e, str) else e) for e in s]) for s in ss]
                plain = [[e if isinstance(e, str) else "*" for e in s] for s in ss]
                inspect(ctx, it, f, st, seqs, plain, fr, " ".join("".join(s) for s in plain) + f" with * = {show(x)}")


def inspect(ctx, it, f, st, seqs, plain, fr, what):
    rule = "positions"
    outs = it.call(st.copy(), f, list(seqs), {}, fr, None)
    ctx.absorb(it)
    sure = 0
    for s, r in outs:
        if s.imp or not feasible(s):
            continue
        if isinstance(r, Raise):
            ctx.violation(rule, f"{rule}:fails:{it.exc_name(s, r)}", f"the search in {what} fails with {it.exc_name(s, r)}", raise_where(it, r, f), path_of(s))
            return
        bad = wrong(it, s, r, plain)
        if bad is None:
            continue
        if bad:
            ctx.violation(rule, f"{rule}:{bad[0]}", f"the search in {what} {bad[1]}", where_fn(f), path_of(s))
            return
        sure += 1
    if sure:
        ctx.good(rule, rule + ":" + str(len(plain)))
    else:
        ctx.undecided(rule, f"{rule}:{len(plain)}", f"the result for {what} is not known")


def wrong(it, s, r, plain):
    """() if the result is right, None if it is not known, else (key, text)"""
    parts = contents(it, s, r)
    if parts is None or len(parts) != 2:
        return None
    pos, n = contents(it, s, parts[0]), parts[1]
    if pos is None or not (isinstance(n, I) and n.lin.const):
        return None
    n = n.lin.c
    if not all(isinstance(x, I) and x.lin.const for x in pos):
        return None
    pos = [x.lin.c for x in pos]
    if len(pos) != len(plain):
        return ("number", f"reports {len(pos)} positions for {len(plain)} sequences")
    found = []
    for i, (p, s) in enumerate(zip(pos, plain)):
        if p < 0 or p + n > len(s):
            return ("outside", f"reports a part from {p} of length {n} outside of sequence {i + 1}")
        found.append(s[p:p + n])
    if any(x != found[0] for x in found):
        return ("different", f"reports different parts {pos} of length {n}")
    return ()
