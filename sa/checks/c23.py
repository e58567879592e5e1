"""C23: token numbers keep their meaning."""
from .tokenizing import *

EXPLAIN = (
    "Abstract interpretation of sequences of encode and decode calls on one tokenizer, with texts of opaque pieces. After every call, each number given out so far must decode "
    "to the same piece as before, different numbers to different pieces and no number to nothing. For tokenizers that number pieces, the same is shown for a tokenizer with any "
    "history: its tables are replaced by tables of N opaque entries (what the attributes stand for is inferred from the state after a first encode), "
    "a further text with new and known pieces is encoded, and all former numbers, represented by an arbitrary one, must keep their piece."
)


def scripts(kind):
    """Words are shared by the texts of a script: a list of texts."""
    n = EOLS[kind][0]
    return [
        ("new and known pieces", lambda a, b, c, d: [(a, n, b, n, c), (d, n, b, n, a, n), (c, n, d)]),
        ("repetitions", lambda a, b, c, d: [(a, n, a, n, b, n), (b, n, b, n, c, n, a, n)]),
        ("empty lines", lambda a, b, c, d: [(n, n, a, n), (a, n, n, b), (n,)]),
        ("an empty text", lambda a, b, c, d: [(a, n, b), (), (c, n, a)]),
        ("an empty text first", lambda a, b, c, d: [(), (a, n, b, n), (c,)]),
        ("the same text again", lambda a, b, c, d: [(a, n, b, n), (a, n, b, n), (b, n, a, n)]),
        ("four texts", lambda a, b, c, d: [(a, n), (b, n), (c, n), (d, n), (a, n, d, n)]),
    ]


def check(ctx):
    it = ctx.interp()
    jobs = []
    for n, _ in tokenizers(ctx, it):
        for kind in ("str", "bytes"):
            jobs.append(("meaning", histories, n, kind))
            jobs.append(("meaning", any_history, n, kind))
    ctx.parallel(jobs)


def numbers(it, st, v):
    """The constant numbers of an encoded text, or None."""
    q = M.seqv(it, st, v)
    if q is None or q.kind not in ("tuple", "list"):
        return None
    ex = M.explicit(q)
    return ex


def decode1(ctx, it, st, o, x, fr, name, kind, what):
    """Decode one token -> [(state, text or None)]"""
    out = []
    for s, r in method(it, st, o, "decode", [S("tuple", [One(x)])], fr):
        d = M.seqv(it, s, r) if not isinstance(r, Raise) else None
        if isinstance(r, Raise):
            w, e, _ = raise_where(it, s, r)
            if exact(s):
                ctx.violation("meaning", f"{name}:{kind}:{e}", f"{name}: a number given out before is no longer decoded ({e}; {what}, {kind})", w, path_of(s))
            else:
                ctx.undecided("meaning", f"{name}:{kind}:{what}", f"decode of a number fails with {e}")
            continue
        out.append((s, d if d is not None and d.kind == kind else None))
    return out


def histories(ctx, name, kind):
    it = interp(ctx)
    fr = top_frame(it)
    cls = dict(tokenizers(ctx, it))[name]
    where = where_fn(it.lookup(it.init, cls, "encode"))
    for what, f in scripts(kind):
        st = it.start()
        ws = [word(n, kind, 1) for n in "abcd"]
        distinct(st, *ws)
        st, o = make(it, st, cls, fr)
        # (state, {number: text}, encoded texts)
        cur = [(st, {}, [])]
        for t in f(*ws):
            t = text(kind, *t)
            nxt = []
            for s, known, done in cur:
                for s, v in method(it, s, o, "encode", [simp(t)], fr):
                    if isinstance(v, Raise):
                        w, e, _ = raise_where(it, s, v)
                        if exact(s):
                            ctx.violation("fails", f"{name}:{kind}:{e}", f"{name}.encode fails with {e} ({what}, {kind})", w, path_of(s))
                        else:
                            ctx.undecided("fails", f"{name}:{kind}:{what}", e)
                        continue
                    nxt += recheck(ctx, it, fr, s, o, known, done + [(v, t)], name, kind, what, where)
            cur = nxt
    ctx.absorb(it)


def recheck(ctx, it, fr, s, o, known, done, name, kind, what, where):
    def bad(rule, st, v, msg):
        if exact(st, *([v] if v is not None else [])):
            ctx.violation(rule, f"{name}:{kind}", f"{name}: {msg} ({what}, {kind})", where, path_of(st))
        else:
            ctx.undecided(rule, f"{name}:{kind}:{what}", msg)

    # earlier texts
    for k, (v, t) in enumerate(done):
        for x, r in method(it, s.copy(), o, "decode", [v], fr):
            if isinstance(r, Raise):
                bad("earlier", x, None, f"a text encoded {'earlier ' if k < len(done) - 1 else ''}can no longer be decoded ({it.exc_name(x, r)})")
                continue
            e = same_text(x, r, t, it)
            if e is True:
                ctx.good("earlier", f"{name} {kind} {what}")
            elif e is False:
                bad("earlier", x, None, f"a text encoded {'earlier ' if k < len(done) - 1 else ''}now decodes to {describe(r)}")
            else:
                ctx.undecided("earlier", f"{name}:{kind}:{what}", describe(r))
    nums = numbers(it, s, done[-1][0])
    if nums is None or not all(isinstance(x, I) and x.lin.const for x in nums):
        return [(s, known, done)]
    new = [x for x in dict.fromkeys(nums) if x not in known]
    cur = [(s, known)]
    for x in list(known) + new:
        nxt = []
        for y, kn in cur:
            for z, d in decode1(ctx, it, y, o, x, fr, name, kind, what):
                if d is None:
                    ctx.undecided("meaning", f"{name}:{kind}:{what}", "a number does not decode to a text")
                    continue
                if x in kn:
                    if seq.same(z.num, d, kn[x]):
                        ctx.good("meaning", f"{name} {kind} {what}")
                    else:
                        e = same_text(z, d, kn[x], it)
                        if e is False:
                            bad("meaning", z, None, f"number {x!r} stood for {describe(kn[x])} and now stands for {describe(d)}")
                        else:
                            ctx.undecided("meaning", f"{name}:{kind}:{what}", "pieces cannot be compared")
                    nxt.append((z, kn))
                    continue
                if z.num.ge0(slen(d) - 1) is True:
                    ctx.good("nonempty", f"{name} {kind}")
                else:
                    a = z.copy()
                    if not d.parts or a.assume_eq0(slen(d)) and exact(a):
                        bad("nonempty", a, None, f"number {x!r} stands for an empty piece")
                for m, p in kn.items():
                    e = same_text(z, d, p, it)
                    if e is False:
                        ctx.good("distinct", f"{name} {kind}")
                    elif e is True:
                        bad("distinct", z, None, f"numbers {m!r} and {x!r} stand for the same piece {describe(d)}")
                    else:
                        ctx.undecided("distinct", f"{name}:{kind}:{what}", "pieces cannot be compared")
                nxt.append((z, dict(kn, **{}) | {x: d}))
        cur = nxt
    return [(z, kn, done) for z, kn in cur]


# ------------------------------------------------------------ any history


class Table:
    """A mapping between N opaque pieces and their numbers."""

    def __init__(self, it, st, kind):
        self.it, self.kind = it, kind
        self.n = Lin.of(Atom("N", 1))
        self.base = Base("K", "tuple", frozenset(), self.n, self.at)
        self.rest = U("table", (), None)
        self.back = U("numbers", (), None)
        it.map_models[self.rest] = self
        it.map_models[self.back] = Back(self)

    def piece(self, st, j):
        j = st.num.norm(j)
        for k, i in st.facts.get("found", ()):
            if st.num.is0(i - j) is True:
                return k
        b = derived("K", (I(j),), self.kind)
        b.meta = "plain"
        st.assume_ge0(b.len - 1)
        return b.seq()

    def resolve(self, st, v):
        """The text with found pieces put in."""
        q = as_seq(v)
        if q is None or isinstance(v, Ref):
            return v
        parts = []
        for p in q.parts:
            if isinstance(p, Sl) and p.base.op == "K" and seq._whole(st.num, p):
                parts += as_seq(self.piece(st, p.base.args[0].lin)).parts
            else:
                parts.append(p)
        return simp(S(q.kind, M.norm_parts(st.num, parts)))

    def at(self, interp, st, c, j):
        return [(st, self.piece(st, j))]

    def keys(self, interp, st, rest):
        return self.base.seq("list")

    def values(self, interp, st, rest):
        b = derived("Kvalues", (rest,), "list", (), self.n, lambda it, x, c, j: [(x, I(j))])
        return b.seq()

    def items(self, interp, st, rest):
        b = derived("Kitems", (rest,), "list", (), self.n, lambda it, x, c, j: [(x, S("tuple", [One(self.piece(x, j)), One(I(j))]))])
        return b.seq()

    def get(self, interp, st, rest, k):
        return U("get", (rest, k), None)

    def find(self, interp, st, rest, k, fr, node):
        k = simp(as_seq(k)) if as_seq(k) is not None else k
        q = as_seq(k)
        if q is None or q.kind != self.kind or not q.parts:
            return [(st, None)]
        for k2, i in st.facts.get("found", ()):
            if k2 == k:
                return [(st, I(i))]
        if k in st.facts.get("absent", ()):
            return [(st, None)]
        # K of an index
        if len(q.parts) == 1 and isinstance(q.parts[0], Sl) and q.parts[0].base.op == "K":
            return [(st, q.parts[0].base.args[0])]
        a = st.copy()
        a.facts["absent"] = a.facts.get("absent", ()) + (k,)
        i = Lin.of(Atom("known", 0))
        out = [(a, None)]
        cur = [st] if st.assume_ge0(self.n - i - 1) else []
        for k2, j in st.facts.get("found", ()):
            # different pieces have different numbers
            if st.facts.get(M.eqkey(k, k2)) is not False and M.plain_eq(st, as_seq(k), as_seq(k2)) is not False:
                for x in cur:
                    x.vague("pieces that may be the same")
                continue
            nxt = []
            for x in cur:
                y = x.copy()
                if x.assume_ge0(i - j - 1):
                    nxt.append(x)
                if y.assume_ge0(j - i - 1):
                    nxt.append(y)
            cur = nxt
        for x in cur:
            x.facts["found"] = x.facts.get("found", ()) + ((k, i),)
            out.append((x, I(i)))
        return out


class Back:
    """The same table, by number."""

    def __init__(self, t):
        self.t = t

    def keys(self, interp, st, rest):
        return self.t.values(interp, st, rest)

    def values(self, interp, st, rest):
        return self.t.keys(interp, st, rest)

    def get(self, interp, st, rest, k):
        return U("get", (rest, k), None)

    def find(self, interp, st, rest, k, fr, node):
        l = M.int_lin(interp, st, k)
        if l is None:
            return [(st, None)]
        out = []
        for s, b in interp.decide(st, l):
            if not b:
                out.append((s, None))
                continue
            for x, c in interp.decide(s, self.t.n - l - 1):
                out.append((x, self.t.piece(x, l) if c else None))
        return out


def roles(it, st, o, nums, pieces):
    """What each attribute holds after a first encode: {name: role}; None if
    one of them is not understood."""
    r = {}
    if [x for x in nums] != [I(k) for k in range(len(pieces))]:
        return None

    def same(a, b):
        a, b = as_seq(a), as_seq(b)
        return a is not None and b is not None and seq.same(st.num, a, b)

    def is_pieces(vs):
        return vs is not None and len(vs) == len(pieces) and all(same(a, b) for a, b in zip(vs, pieces))

    def is_range(vs):
        return vs is not None and list(vs) == [I(k) for k in range(len(pieces))]

    for n, v in st.obj(o).f.items():
        if isinstance(v, Ref):
            ob = st.obj(v)
            if ob.kind == "dict" and ob.f["rest"] == NONE:
                ks, vs = [k for k, x in ob.f["ents"] if x is not None], [x for k, x in ob.f["ents"] if x is not None]
                if is_pieces(ks) and is_range(vs):
                    r[n] = "table"
                elif is_range(ks) and is_pieces(vs):
                    r[n] = "back"
                else:
                    return None
            elif ob.kind == "list" and is_pieces(M.explicit(ob.f["seq"])):
                r[n] = "list"
            else:
                return None
        elif isinstance(v, I):
            if v.lin.const and v.lin.c == len(pieces):
                r[n] = "count"
            elif v.lin.const:
                r[n] = "keep"
            else:
                return None
        elif isinstance(v, S) and v.kind == "tuple" and is_pieces(M.explicit(v)):
            r[n] = "tuple"
        elif isinstance(v, (C, Bi, Cls, Fn, Ext)):
            r[n] = "keep"
        else:
            return None
    return r


def any_history(ctx, name, kind):
    it = interp(ctx)
    fr = top_frame(it)
    cls = dict(tokenizers(ctx, it))[name]
    where = where_fn(it.lookup(it.init, cls, "encode"))
    nl = EOLS[kind][0]
    st = it.start()
    st, o = make(it, st, cls, fr)
    first = word("first", kind, 1)
    t = text(kind, first, nl)
    outs = method(it, st, o, "encode", [simp(t)], fr)
    if len(outs) != 1 or isinstance(outs[0][1], Raise):
        return ctx.absorb(it)
    st, v = outs[0]
    nums = numbers(it, st, v)
    if nums is None or not nums or not all(isinstance(x, I) and x.lin.const for x in nums):
        return ctx.absorb(it)  # does not number pieces
    pieces = []
    for x in nums:
        ds = decode1(ctx, it, st.copy(), o, x, fr, name, kind, "first text")
        if len(ds) != 1 or ds[0][1] is None:
            return ctx.absorb(it)
        pieces.append(ds[0][1])
    r = roles(it, st, o, nums, pieces)
    if r is None or "table" not in r.values():
        ctx.notes.append(f"{name} ({kind}): the tables are not understood; only explicit histories are analysed")
        return ctx.absorb(it)
    T = Table(it, st, kind)
    ob = st.obj(o)
    for n, role in r.items():
        if role == "table":
            ob = ob.put(n, st.alloc(Obj("dict", None, {"ents": (), "rest": T.rest}, "local")))
        elif role == "back":
            ob = ob.put(n, st.alloc(Obj("dict", None, {"ents": (), "rest": T.back}, "local")))
        elif role == "list":
            ob = ob.put(n, st.alloc(Obj("list", None, {"seq": T.base.seq("list")}, "local")))
        elif role == "tuple":
            ob = ob.put(n, T.base.seq())
        elif role == "count":
            ob = ob.put(n, I(T.n))
    st.put(o, ob)
    a, b = word("a", kind, 1), word("b", kind, 1)
    distinct(st, a, b)
    old = Lin.of(Atom("old", 0))
    st.assume_ge0(T.n - old - 1)
    for what, t in (("a new or known piece", text(kind, a, nl)), ("two pieces, the first of them twice", text(kind, a, nl, a, nl, b))):
        for s, v in method(it, st.copy(), o, "encode", [simp(t)], fr):
            if isinstance(v, Raise):
                w, e, _ = raise_where(it, s, v)
                if exact(s):
                    ctx.violation("any", f"{name}:{kind}:{e}", f"{name}.encode fails with {e} after other texts ({kind})", w, path_of(s))
                else:
                    ctx.undecided("any", f"{name}:{kind}", e)
                continue
            grown(ctx, it, fr, s, o, v, t, T, old, name, kind, what, where)
    ctx.absorb(it)


def grown(ctx, it, fr, s, o, v, t, T, old, name, kind, what, where):
    def bad(st, msg, d=None):
        if exact(st, *([d] if d is not None else [])):
            ctx.violation("any", f"{name}:{kind}", f"{name}, after any history: {msg} ({what}, {kind})", where, path_of(st))
        else:
            ctx.undecided("any", f"{name}:{kind}:{what}", msg)

    want = T.piece(s.copy(), old)
    found = dict((k, i) for k, i in s.facts.get("found", ()))
    # an arbitrary former number
    for x, d in decode1(ctx, it, s.copy(), o, I(old), fr, name, kind, what):
        w = T.piece(x, old)
        d = as_seq(T.resolve(x, d)) if d is not None else None
        if d is not None and seq.same(x.num, d, w):
            ctx.good("any", f"{name} {kind} former number")
        elif d is not None and (len(d.parts) != 1 or not isinstance(d.parts[0], Sl) or d.parts[0].base.op == "K" or x.num.is0(slen(d)) is True):
            bad(x, f"the former number of {describe(w)} now stands for {describe(d)}")
        else:
            ctx.undecided("any", f"{name}:{kind}:{what}", f"a former number decodes to {describe(d) if d else d}")
    # the text itself
    for x, r in method(it, s.copy(), o, "decode", [v], fr):
        if isinstance(r, Raise):
            bad(x, f"what was encoded cannot be decoded ({it.exc_name(x, r)})")
            continue
        r = T.resolve(x, r)
        e = same_text(x, r, t, it)
        if e is True:
            ctx.good("any", f"{name} {kind} text")
        elif e is False:
            bad(x, f"{describe(t)} decodes to {describe(r)}")
        else:
            ctx.undecided("any", f"{name}:{kind}:{what}", f"decodes to {describe(r)}")
    # new numbers are not former numbers
    q = M.seqv(it, s, v)
    ex = M.explicit(q) if q is not None else None
    if ex is None:
        return ctx.undecided("any", f"{name}:{kind}:{what}", "the encoded text is not explicit")
    for n in ex:
        l = M.int_lin(it, s, n)
        if l is None:
            ctx.undecided("any", f"{name}:{kind}:{what}", "a token is not a number")
            continue
        if any(s.num.is0(l - i) is True for i in found.values()) or s.num.ge0(l - T.n) is True or s.num.ge0(-l - 1) is True:
            ctx.good("any", f"{name} {kind} new numbers")
        else:
            y = s.copy()
            if y.assume_ge0(l) and y.assume_ge0(T.n - l - 1) and feasible(y):
                bad(y, f"a new piece gets the number {l!r}, which may have another piece")
