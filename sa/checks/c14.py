"""C14: falsy tags, tokens and contents are ordinary values."""
from .util import *
from . import c18, c26, db, trees
from .db import Database, distinct
from .versioning import same_seq
from ..report import Anchor

EXPLAIN = (
    "The public operations are interpreted with a value that counts as false in one place of the scenario, and the result compared with what it is for ordinary values. "
    "Trees: histories of additions and re-parentings in which each version in turn has the tag 0, '' or b''. Version store: with every tree and collection, histories in which each version in turn has such a tag, "
    "empty contents, or an empty stored difference. Collections: tags and contents that are false, against a dictionary. Manifests: names, tags and contents that are false, in every situation of C26. "
    "Tokens: comparison, patching, merging and searching of explicit short sequences in which one token is 0, '', () or None must give the same, renamed, as with ordinary tokens; tokenizers must restore texts of empty and "
    "zero characters. Other tags and contents stay opaque; the lengths of sequences are bounded."
)
TECHNIQUE = "abstract interpretation, differential between ordinary and falsy values"

TAGS = {"0": I(Lin(0)), "''": C(""), "b''": C(b""), "0.0": C(0.0)}


# ------------------------------------------------------------------ tags


def tree_history(ctx, mod, cls, k, value):
    what, ops = trees.HISTORIES[k]
    names = sorted({o[1] for o in ops})
    for n in names:
        trees.history(ctx, what, ops, True, {n: TAGS[value]}, mod, cls)


class Mixed(c18.Mixed):
    """The version store on real back ends with empty contents of one version
    or an empty stored difference."""

    empty = None  # tag of the version with empty contents
    empty_delta = None  # (its parent, it)

    def content(self, tag):
        if self.empty is not None and tag == self.empty:
            return lit(b"")
        return super().content(tag)

    def x_serialize_changeset(self, it, st, f, args, kw, fr, node):
        out = super().x_serialize_changeset(it, st, f, args, kw, fr, node)
        if out is None or self.empty_delta is None:
            return out
        a, b = (self.content(t) for t in self.empty_delta)
        return [(s, lit(b"") if not isinstance(r, Raise) and same_seq(s, r, self.delta(a, b)) else r) for s, r in out]

    def x_deserialize_changeset(self, it, st, f, args, kw, fr, node):
        if self.empty_delta is not None:
            q = M.seqv(it, st, next(iter(c18.argv(f, args, kw).values()), None))
            if q is not None and q.kind == "bytes" and not q.parts:
                a, b = (self.content(t) for t in self.empty_delta)
                args, kw = [self.delta(a, b)], {}
        return super().x_deserialize_changeset(it, st, f, args, kw, fr, node)


def store(ctx, tree, heads, diffs, k, what):
    """Scenarios of the version store with one odd value."""
    hist = c18.HISTORIES[k][1]
    names = [t for t, _ in hist]
    real = c18.distinct
    old = c18.Mixed

    def named(values):
        def f(st, ns):
            return {n: values.get(n, C(n)) for n in ns}
        return f

    def structure(log):
        """Where each version is kept and the way to it."""
        def f(S, s, parts, tags, known):
            h, d, t = parts
            back = {v: n for n, v in tags.items()}
            row = []
            for n in known:
                for what_, obj in (("heads", h), ("differences", d)):
                    got = {r.v if isinstance(r, C) else None for _, r in member(S, s.copy(), obj, tags[n])}
                    row.append((what_, n, got.pop() if len(got) == 1 else None))
                for _, r in S.d.op(s.copy(), t, "path_to", tags[n]):
                    l = None if isinstance(r, Raise) or r == NONE else items(S.it, s, r)
                    row.append(("path", n, None if l is None else tuple(back.get(x, "?") for x in l)))
            log.append((row, S, s))
        return f

    try:
        ordinary = []
        if what in TAGS:
            c18.distinct, c18.Mixed = named({}), Mixed
            c18.storage(ctx, tree, heads, diffs, k, structure(ordinary))
        for n in names + (["stranger"] if what in TAGS else []):
            class Sub(Mixed):
                pass

            if what in TAGS:
                c18.distinct = named({n: TAGS[what]})
            elif what == "contents":
                c18.distinct = named({})
                Sub.empty = C(n)
            else:
                c18.distinct = named({})
                below = [p for p, b in hist if b == n]
                if not below:
                    continue
                Sub.empty_delta = (C(below[0]), C(n))
            c18.Mixed = Sub
            log = []
            c18.storage(ctx, tree, heads, diffs, k, structure(log))
            for (a, _, _), (b, S, s) in zip(ordinary, log):
                for x, y in zip(a, b):
                    key = f"{x[0]} in {tree}, {heads}, {diffs}"
                    if x == y and x[2] is not None:
                        ctx.good("structure", key)
                    elif None in (x[2], y[2]) or not exact(s):
                        ctx.undecided("structure", key, "not known")
                    else:
                        text = f"the way to {x[1]} is {y[2]} instead of {x[2]}" if x[0] == "path" else f"{x[1]} is {'' if y[2] else 'not '}among the {x[0]}"
                        ctx.violation("structure", x[0], f"when the tag of {n} is {what} in {c18.HISTORIES[k][0]} with {tree}: {text}",
                                      where_fn(S.it.lookup(s, S.cls, "add")), path_of(s))
    finally:
        c18.distinct, c18.Mixed = real, old


def member(S, st, obj, tag):
    if isinstance(obj, Ref) and st.obj(obj).kind == "dict":
        return [(x, C(r)) for x, r in ((st, any(k == tag and v is not None for k, v in st.obj(obj).f["ents"])),)]
    out = []
    for x, r in S.d.op(st, obj, "__contains__", tag):
        out += [(x, r)] if isinstance(r, Raise) else [(y, b if isinstance(b, Raise) else C(b)) for y, b in S.it.truth(x, r, S.fr, None)]
    return out


# ----------------------------------------------------------- collections


def collection(ctx, name):
    S = c18.Mixed(ctx)
    it = S.it
    for key in list(TAGS) + [None]:
        for content in (lit(b""), None):
            if key is None and content is None:
                continue
            st = it.start()
            other = distinct(st, ["a"])["a"] if key is None else C("a")
            k = other if key is None else TAGS[key]
            v = content if content is not None else db.content("x")
            what = f"{name} with the tag {key or 'opaque'} and {'empty' if content is not None else 'opaque'} contents"
            st, c = S.build(st, name, "t")
            if key is not None:
                st = put(ctx, S, st, c, other, db.content("other"), what, name)
                if st is None:
                    continue
            look_up(ctx, S, st, c, k, None, 1 if key is not None else 0, what, name)
            st = put(ctx, S, st, c, k, v, what, name)
            if st is None:
                continue
            look_up(ctx, S, st, c, k, v, 2 if key is not None else 1, what, name)
            for s, r in S.d.op(st.copy(), c, "__delitem__", k):
                if isinstance(r, Raise):
                    report(ctx, S, s, "delete", name, f"deleting from {what} fails with {it.exc_name(s, r)}", "__delitem__")
                else:
                    look_up(ctx, S, s, c, k, None, 1 if key is not None else 0, what + ", deleted", name)
    ctx.absorb(it)


def report(ctx, S, s, rule, name, msg, meth, *vals):
    c = S.cls_named(name)
    f = S.it.lookup(S.it.init, c, meth)
    if exact(s, *vals) and feasible(s):
        ctx.violation("collection", f"{name}.{meth}:{rule}", msg, where_fn(f) if isinstance(f, Fn) else f"src/{c.mod.replace('.', '/')}.py", path_of(s))
    elif feasible(s):
        ctx.undecided("collection", f"{name}.{meth}:{rule}", msg)


def put(ctx, S, st, c, k, v, what, name):
    outs = S.d.op(st, c, "__setitem__", k, v)
    for s, r in outs:
        if isinstance(r, Raise):
            report(ctx, S, s, "set", name, f"storing in {what} fails with {S.it.exc_name(s, r)}", "__setitem__")
    outs = [s for s, r in outs if not isinstance(r, Raise)]
    if len(outs) != 1:
        if outs:
            ctx.undecided("collection", f"{name}.__setitem__", f"{len(outs)} outcomes for {what}")
        return None
    return outs[0]


def look_up(ctx, S, st, c, k, v, size, what, name):
    it = S.it
    for s, r in S.d.op(st.copy(), c, "__getitem__", k):
        if v is None:
            if isinstance(r, Raise) and it.exc_name(s, r) == "KeyError":
                ctx.good("collection", "reading a missing tag")
            else:
                report(ctx, S, s, "missing", name, f"reading a missing tag from {what} gives {it.exc_name(s, r) if isinstance(r, Raise) else describe(r)}", "__getitem__")
        elif not isinstance(r, Raise) and same_seq(s, r, v):
            ctx.good("collection", "reading")
        else:
            report(ctx, S, s, "read", name, f"reading from {what} gives {it.exc_name(s, r) if isinstance(r, Raise) else describe(r)}", "__getitem__", *([] if isinstance(r, Raise) else [r]))
    default = C("%default")
    for s, r in S.d.op(st.copy(), c, "get", k, default):
        if not isinstance(r, Raise) and (r == default if v is None else same_seq(s, r, v)):
            ctx.good("collection", "get")
        else:
            report(ctx, S, s, "get", name, f"get from {what} gives {it.exc_name(s, r) if isinstance(r, Raise) else describe(r)}", "get", *([] if isinstance(r, Raise) else [r]))
    for s, r in S.d.op(st.copy(), c, "__contains__", k):
        for y, b in ([(s, r)] if isinstance(r, Raise) else it.truth(s, r, S.fr, None)):
            if b is (v is not None):
                ctx.good("collection", "membership")
            else:
                report(ctx, S, y, "in", name, f"membership in {what} is {it.exc_name(y, b) if isinstance(b, Raise) else b}", "__contains__")
    for s, r in S.d.op(st.copy(), c, "__len__"):
        if not isinstance(r, Raise) and r == I(Lin(size)):
            ctx.good("collection", "length")
        else:
            report(ctx, S, s, "len", name, f"the length of {what} is {it.exc_name(s, r) if isinstance(r, Raise) else describe(r)} instead of {size}", "__len__")
    for s, q in it.to_seq(st.copy(), c, S.fr, None):
        ks = None if isinstance(q, Raise) else M.explicit(q)
        if ks is not None and len(ks) == size and (k in ks) is (v is not None):
            ctx.good("collection", "iteration")
        else:
            report(ctx, S, s, "iter", name, f"iterating over {what} gives {'?' if ks is None else [describe(x) for x in ks]}", "__iter__")


# ------------------------------------------------------------- manifests


def manifests(ctx, k, which):
    class Odd(c26.Model):
        def __init__(self, ctx):
            super().__init__(ctx)
            kind, n, value = which
            for d, what in ((self.tags, "tag"), (self.names, "name")):
                for x in d:
                    d[x] = value if (kind, n) == (what, x) else lit(x) if what == "name" else C("t" + x)
            self.back = {v: x for x, v in list(self.tags.items()) + list(self.names.items())}

        def contents(self, t):
            return lit(b"") if which[:2] == ("contents", t) else super().contents(t)

    old = c26.Model
    c26.Model = Odd
    try:
        c26.reading(ctx, k)
    finally:
        c26.Model = old


# ---------------------------------------------------------------- tokens

FALSY = {"0": I(Lin(0)), "''": lit(""), "None": C(None), "()": S("tuple")}
PLAIN = {"x": lit("x"), "y": lit("y"), "z": lit("z")}

TWO = ["-/-", "-/x", "x/-", "x/x", "x/y", "xy/yx", "xyz/xz", "xx/x", "x/xx", "xyx/x", "xyxzx/xzyx", "xxy/yxx", "yx/y", "zxyz/zyxz"]
THREE = ["-/x/y", "x/-/x", "x/y/x", "x/xy/zx", "x/x/-", "xy/yx/xy", "xyz/xz/xyz", "xyz/yz/xy", "xyz/zyz/xyx", "yz/yxz/yxz", "yz/yxz/yz", "yz/yxz/yyz", "xy/-/-", "y/xy/yx"]


def operations(ctx, it):
    """name -> (examples, f(state, sequences) -> outcomes, are results numbers)"""
    fr = top_frame(it)
    fn = lambda mod, n: ctx.fn(it, mod, n)

    def then(outs, g):
        r = []
        for s, v in outs:
            r += [(s, v)] if isinstance(v, Raise) else g(s, v)
        return r

    def call(s, f, *a):
        return it.call(s, f, list(a), {}, fr, None)

    def listed(outs):
        return then(outs, lambda s, v: it.to_seq(s, v, fr, None))

    def stream(s, a, b):
        return then(call(s, fn("changesets", "find_changeset"), a, b), lambda s, c: then(it.getattr(s, c, "as_change_stream", fr, None), lambda s, f: it.call(s, f, [], {}, fr, None)))

    def patch(direction, side):
        def f(s, a, b):
            return then(then(stream(s, a, b), lambda s, x: call(s, fn("changesets", "strip_" + direction), x)),
                        lambda s, p: call(s, fn("changesets", "apply"), p, (a, b)[side]))
        return f

    def applied(direction, side):
        def f(s, a, b):
            return then(stream(s, a, b), lambda s, x: call(s, fn("changesets", "apply_" + direction), x, (a, b)[side]))
        return f

    def occurrences(s, a, b):
        return listed(then(call(s, fn("suffix_automaton", "build"), a), lambda s, r: call(s, fn("suffix_automaton", "find_substring_all"), r, b)))

    def first(s, a, b):
        return then(call(s, fn("suffix_automaton", "build"), a), lambda s, r: call(s, fn("suffix_automaton", "find_substring"), r, b))

    return {
        "diff": (TWO, lambda s, a, b: listed(call(s, fn("changesets", "diff_token_sequences"), a, b)), False),
        "change stream": (TWO, lambda s, a, b: listed(stream(s, a, b)), None),
        "patch forward": (TWO, patch("forward", 0), False),
        "patch backward": (TWO, patch("reverse", 1), False),
        "apply forward": (TWO, applied("forward", 0), False),
        "apply backward": (TWO, applied("reverse", 1), False),
        "merge": (THREE, lambda s, p, a, b: listed(call(s, fn("merge", "merge_token_sequence"), p, a, b)), False),
        "longest match": (TWO, lambda s, a, b: call(s, fn("wrappers", "find_lcs"), a, b), True),
        "longest match of several": (THREE, lambda s, a, b, c: call(s, fn("multiple_strings", "find_lcs"), a, b, c), True),
        "occurrences": ([t for t in TWO if not t.endswith("-")], occurrences, True),
        "first occurrence": ([t for t in TWO if not t.endswith("-")], first, True),
    }


OPS = ["diff", "change stream", "patch forward", "patch backward", "apply forward", "apply backward", "merge", "longest match", "longest match of several", "occurrences", "first occurrence"]


def plain(it, st, v, names, depth=0):
    """The value as nested tuples, tokens by their letters."""
    for n, t in names:
        if v == t or (isinstance(v, S) and isinstance(t, S) and depth > 0 and v.kind == t.kind and seq.same(st.num, v, t)):
            return n
    if isinstance(v, I):
        return v.lin.c if v.lin.const else None
    if isinstance(v, C):
        return repr(v.v)
    if isinstance(v, SL):
        return describe(v)
    if isinstance(v, Ref):
        o = st.obj(v)
        if o.kind == "inst":
            c = o.cls.name if o.cls is not None else "?"
            fs = [(k, plain(it, st, x, names, depth + 1)) for k, x in o.f.items() if isinstance(k, str)]
            return None if any(x is None for _, x in fs) else (c, *fs)
        if o.kind == "tuple" or o.kind == "list" or o.kind == "iter":
            v = o.f.get("seq", v)
    q = M.seqv(it, st, v) if not isinstance(v, S) else v
    if q is None:
        return None
    parts = M.explicit(S("list", M.token_parts(q)))
    if parts is None:
        return None
    r = [plain(it, st, x, names, depth + 1) for x in parts]
    return None if None in r else (q.kind if not getattr(q, "cls", None) else q.cls.name, *r)


def tokens(ctx, op, value, letter):
    it = ctx.interp()
    it.unroll = it.max_rec = 1500
    it.max_states = 3000
    examples, f, numbers = operations(ctx, it)[op]
    odd = dict(PLAIN, **{letter: FALSY[value]})
    for e in examples:
        if letter not in e:
            continue
        res = []
        for tok in (PLAIN, odd):
            st = it.start()
            seqs = [S("tuple", [One(tok[c]) for c in w if c != "-"]) for w in e.split("/")]
            names = [] if numbers else [(c, t) for c, t in tok.items()]
            outs = [(s, r) for s, r in f(st, *seqs) if feasible(s)]
            if len(outs) != 1 or outs[0][0].imp:
                res.append(None)
                continue
            s, r = outs[0]
            res.append(("raise", it.exc_name(s, r), s, r) if isinstance(r, Raise) else ("value", plain(it, s, r, names), s, r))
        what = f"{op} of {e} with {letter} being {value}"
        if None in res or res[0][0] == "raise" or any(r[0] == "value" and r[1] is None for r in res):
            ctx.undecided("tokens", f"{op}:{value}", f"the result of {what} is not known")
            continue
        if res[0][:2] == res[1][:2]:
            ctx.good("tokens", f"{op}, {value}")
            continue
        s, r = res[1][2:]
        if isinstance(r, Raise):
            w, n, _ = raise_where(it, s, r)
            ctx.violation("tokens", f"{op}:{n}", f"{what} fails with {n}", w, path_of(s))
        else:
            ctx.violation("tokens", op, f"{what} gives {res[1][1]} instead of {res[0][1]}", "src/gaspra", path_of(s))
    ctx.absorb(it)


def check(ctx):
    quick = ctx.tier == "quick"
    S0 = c18.Store(ctx)
    colls = [c.name for c in c18.collections(S0.it)]
    found = c18.classes(S0.it, c18.MARKS["tree"])
    if not found:
        raise Anchor("no tree is left")
    jobs = []
    hs = [1, 3] if quick else range(len(trees.HISTORIES))
    values = ["0", "''"] if quick else list(TAGS)
    for c in found:
        if c.name in ("MemoryTree", "DBTree"):
            for k in hs:
                for v in values:
                    jobs.append(("tree", tree_history, c.mod.split(".")[-1], c.name, k, v))
    pairs = [("MemoryTree", "dict", "dict")] + [(c.name, "dict", "dict") for c in found if c.name != "MemoryTree"] + [("MemoryTree", n, n) for n in colls]
    for p in pairs:
        for k in ([1] if quick else range(len(c18.HISTORIES))):
            for w in values + ["contents", "difference"]:
                jobs.append(("store", store, *p, k, w))
    jobs += [("collection", collection, n) for n in colls]
    odd = [("tag", t, v) for t in ("f0", "f1", "old", "base", "new") for v in (TAGS["''"], TAGS["0"])] + [("name", "f", lit("")), ("contents", "f0", None), ("contents", "f1", None)]
    for k, (_, b, m) in enumerate(c26.SITUATIONS):
        used = set((b or {}).values()) | set(m.values()) | {"new"} | ({"base"} if b is not None else set()) | set(b or {}) | set(m)
        jobs += [("manifest", manifests, k, o) for o in odd if o[1] in used]
    jobs += [("tokens", tokens, op, v, l) for op in OPS for v in FALSY if v != "()" or op in ("longest match", "longest match of several", "occurrences", "first occurrence") for l in (("x",) if quick else "xyz")]
    ctx.parallel(jobs)
