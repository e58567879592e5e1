"""C18: storage back ends and tokenizers are interchangeable."""
from .versioning import *
from .db import Database, distinct
from . import tokenizing

EXPLAIN = (
    "(1) Signatures: every class of the package that can serve as a tree or a tokenizer offers each operation of the protocol, with at least the same positional arguments. "
    "(2) The version store is interpreted with every combination of the trees and collections of the package (found by the operations they offer; the database behind them is an abstract one) "
    "on histories of additions with opaque tags and contents; differences, patches and their stored form are terms. No operation may fail, and what is retrieved, membership and base versions "
    "must be the same for all. (3) It is interpreted with every tokenizer, on texts made of opaque pieces; what is retrieved must be the text; "
    "so are the high-level diff and merge calls, with what the comparison finds replaced by one change of everything."
)
TECHNIQUE = "class analysis (protocol conformance) and abstract interpretation of the version store with every back end"

# (tag, added on) in order
HISTORIES = [
    ("one version", [("v1", None)]),
    ("a chain", [("v1", None), ("v2", "v1"), ("v3", "v2"), ("v4", "v3"), ("v5", "v4"), ("v6", "v5")]),
    ("two heads", [("v1", None), ("w1", None), ("v2", "v1"), ("w2", "w1"), ("v3", "v2"), ("w3", "w2")]),
]


def classes(it, names):
    """Public classes of the package that offer all these operations."""
    r = []
    for mod in sorted(it.mods):
        if mod == "gaspra.model_":
            continue
        env = it.init.obj(Ref(it.mods[mod]))
        for n, v in sorted(env.f.items(), key=lambda x: str(x[0])):
            if isinstance(v, Cls) and v.mod == mod and not tokenizing.is_protocol(v) and all(isinstance(it.lookup(it.init, v, x), Fn) for x in names):
                r.append(v)
    return r


# a class is meant as one if it has these
MARKS = {"tree": ("path_to", "change_parent"), "tokenizer": ("encode", "decode")}


def is_mapping(it, c):
    return all(isinstance(it.lookup(it.init, c, x), Fn) for x in ("__getitem__", "__setitem__", "__delitem__", "__len__")) or any(
        getattr(b, "path", "").split(".")[-1] == "MutableMapping" or getattr(b, "name", "") == "MutableMapping" for b in it.mro(c) if not isinstance(b, Cls))


def collections(it):
    r = []
    for mod in sorted(it.mods):
        if mod == "gaspra.model_":
            continue
        env = it.init.obj(Ref(it.mods[mod]))
        for n, v in sorted(env.f.items(), key=lambda x: str(x[0])):
            if isinstance(v, Cls) and v.mod == mod and not tokenizing.is_protocol(v) and is_mapping(it, v):
                r.append(v)
    return r


def check(ctx):
    S = Store(ctx)
    trees = [c.name for c in classes(S.it, MARKS["tree"])]
    colls = ["dict"] + [c.name for c in collections(S.it)]
    toks = [c.name for c in classes(S.it, MARKS["tokenizer"])]
    if not trees or not toks:
        raise Anchor("no tree or no tokenizer is left")
    jobs = [("signatures", signatures)]
    jobs += [("storage", storage, t, c, d, k) for t in trees for c in colls for d in colls for k in range(len(HISTORIES))]
    jobs += [("tokenizer", tokens, t) for t in toks]
    jobs += [("calls", calls, t, kind) for t in toks + [None] for kind in ("str", "bytes")]
    ctx.parallel(jobs)


# ------------------------------------------------------------ signatures


def accepts(f):
    """(least, most) number of positional arguments without self; names that
    have to be given by keyword"""
    a = f.node.args
    pos = len(a.posonlyargs) + len(a.args) - 1
    least = pos - len(a.defaults)
    kwonly = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return max(least, 0), None if a.vararg else pos, kwonly


def signatures(ctx):
    S = Store(ctx)
    it = S.it
    uses = {"tree": {}, "tokenizer": {}}
    for what, (mod, n) in {"tree": ("tree", "Tree"), "tokenizer": ("tokenizers", "Tokenizer")}.items():
        p = ctx.fn(it, mod, n, required=False)
        if not isinstance(p, Cls):
            continue
        for name in sorted(set(members(it, p))):
            f = it.lookup(it.init, p, name)
            if isinstance(f, Fn) and isinstance(f.node, ast.FunctionDef) and (not name.startswith("_") or name in ("__contains__", "__len__", "__iter__")):
                uses[what][name] = accepts(f)
    if not any(uses.values()):
        ctx.undecided("protocol", "protocol", "there are no protocol classes")
        return
    for what, ops in uses.items():
        for c in classes(it, MARKS[what]):
            for name, (least, most, _) in ops.items():
                f = it.lookup(it.init, c, name)
                key = f"{c.name}.{name}"
                where = f"src/{c.mod.replace('.', '/')}.py:{c.node.lineno}" if getattr(c, "node", None) is not None else "src/" + c.mod.replace(".", "/") + ".py"
                if f is None:
                    ctx.violation("protocol", key, f"{c.name} does not offer {name}, which is part of the protocol of a {what}", where)
                elif not (isinstance(f, Fn) and isinstance(f.node, ast.FunctionDef)):
                    ctx.undecided("protocol", key, "not a plain method")
                else:
                    l, m, kw = accepts(f)
                    if l > least or m is not None and most is not None and m < most or kw:
                        ctx.violation("protocol", key, f"{c.name}.{name} does not accept the arguments of the protocol of a {what} ({least} to {most})", where_fn(f))
                    else:
                        ctx.good("protocol", key)


def members(it, c):
    return [n for k in it.mro(c) if isinstance(k, Cls) for n in it.init.obj(k.env).f if isinstance(n, str)]


# --------------------------------------------------------------- storage


class Mixed(Store):
    """The version store on back ends of the package."""

    def __init__(self, ctx):
        super().__init__(ctx)
        it = self.it
        it.db = True
        it.unroll = 60
        self.d = Database.__new__(Database)
        self.d.ctx, self.d.it, self.d.fresh, self.d.fr = ctx, it, True, self.fr
        self.connection_factory = it.attr_of("gaspra.model_", "make_connection")
        it.overrides[id(self.connection_factory.node)] = self.d.connect

    def cls_named(self, n):
        for mod in self.it.mods:
            v = self.it.init.obj(Ref(self.it.mods[mod])).f.get(n)
            if isinstance(v, Cls) and v.mod == mod:
                return v
        raise Anchor(f"{n} does not exist")

    def build(self, st, name, table):
        """A new back end: for a database the arguments it needs."""
        if name == "dict":
            return st, st.alloc(Obj("dict", None, {"ents": (), "rest": NONE}, "param"))
        c = self.cls_named(name)
        init = self.it.lookup(st, c, "__init__")
        args, kw = [], {}
        if isinstance(init, Fn):
            names = [a.arg for a in init.node.args.args[1:] + init.node.args.kwonlyargs]
            for n in names:
                if "factory" in n or "connect" in n:
                    kw[n] = self.connection_factory
                elif n == "table" or not kw and not args and "name" in n:
                    kw[n] = C(table)
        return self.d.one(self.it.call(st, c, args, kw, self.fr, None), f"{name}()")


def storage(ctx, tree, heads, diffs, k, seen=None):
    what, hist = HISTORIES[k]
    title = f"{tree}, {heads} and {diffs}"
    S = Mixed(ctx)
    it = S.it
    st = it.start()
    tags = distinct(st, sorted({t for t, _ in hist} | {"stranger"}))
    st, h = S.build(st, heads, "head")
    st, d = S.build(st, diffs, "diffs")
    st, t = S.build(st, tree, "tree")
    fields = {"head_version": h, "diffs": d, "tree": t, "tokenizer_factory": S.factory}
    st, v = S.d.one(it.call(st, S.cls, [], fields, S.fr, None), "Versions()")
    cur = [st]
    done = []

    def failed(rule, op, s, r, text):
        w, n, _ = raise_where(it, s, r)
        if exact(s):
            ctx.violation(rule, f"{op}:{n}", f"{text} with {title} fails with {n}", w, path_of(s))
        else:
            ctx.undecided(rule, op, f"{text} with {title} may fail with {n}")

    for tag, base in hist:
        nxt = []
        for s in cur:
            for x, r in S.d.op(s, v, "add", tags[tag], S.content(tags[tag]), tags[base] if base else NONE):
                if isinstance(r, Raise):
                    failed("add", "add", x, r, f"adding {tag} in {what}")
                else:
                    nxt.append(x)
        done.append((tag, base))
        if len(nxt) != 1:
            if nxt:
                ctx.undecided("add", "add", f"{len(nxt)} outcomes of adding {tag} in {what} with {title}")
            return
        cur = nxt
        for n in [t for t, _ in done] + ["stranger"]:
            look(ctx, S, cur[0], v, tags, n, dict(done), f"{what} with {title}", failed)
        if seen is not None:
            seen(S, cur[0], (h, d, t), tags, [t for t, _ in done])
    ctx.absorb(it)


def look(ctx, S, st, v, tags, n, known, what, failed):
    it = S.it
    where = lambda name: where_fn(it.lookup(st, S.cls, name))
    for s, r in S.d.op(st.copy(), v, "get", tags[n]):
        if isinstance(r, Raise):
            failed("get", "get", s, r, f"retrieving {n} in {what}")
            continue
        good = r == NONE if n not in known else isinstance(r, V) and same_seq(s, r, S.content(tags[n]))
        if good:
            ctx.good("get", "retrieval")
        elif exact(s, r):
            ctx.violation("get", "get", f"retrieving {n} in {what} gives {describe(r)}", where("get"), path_of(s))
        else:
            ctx.undecided("get", "get", describe(r))
    for s, r in S.d.op(st.copy(), v, "__contains__", tags[n]):
        for y, b in ([(s, r)] if isinstance(r, Raise) else it.truth(s, r, S.fr, None)):
            if isinstance(b, Raise):
                failed("in", "__contains__", y, b, f"membership of {n} in {what}")
            elif b is (n in known):
                ctx.good("in", "membership")
            elif exact(y) and feasible(y):
                ctx.violation("in", "__contains__", f"membership of {n} in {what} is {b}", where("__contains__"), path_of(y))
    if it.lookup(st, S.cls, "version_info") is None:
        return
    for s, r in S.d.op(st.copy(), v, "version_info", tags[n]):
        if isinstance(r, Raise):
            failed("info", "version_info", s, r, f"information about {n} in {what}")
        elif n not in known:
            if r == NONE:
                ctx.good("info", "information")
            elif exact(s, r):
                ctx.violation("info", "version_info", f"information about {n} in {what} is {describe(r)}", where("version_info"), path_of(s))
        else:
            b = known[n]
            got = s.obj(r).f.get("base_version") if isinstance(r, Ref) and s.obj(r).kind == "inst" else None
            if got == (tags[b] if b else NONE):
                ctx.good("info", "information")
            elif exact(s, r) and r == NONE:
                ctx.violation("info", "version_info", f"there is no information about {n} in {what}", where("version_info"), path_of(s))
            elif exact(s, r) and got is not None:
                ctx.violation("info", "version_info", f"the base version of {n} in {what} is {describe(got)}", where("version_info"), path_of(s))
            else:
                ctx.undecided("info", "version_info", "not known")


# ------------------------------------------------------------ tokenizers


class Replacing(Store):
    """The version store with a real tokenizer; the difference found is the
    replacement of everything."""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.it.regex_pieces = tokenizing.pieces(ctx)

    def items(self, op, a, b, kind):
        return [One(simp(b))]

    def x_serialize_changeset(self, it, st, f, args, kw, fr, node):
        out = []
        for s, q in it.to_seq(st, next(iter(argv(f, args, kw).values()), None), fr, node):
            vals = None if isinstance(q, Raise) else M.explicit(q)
            if vals is None or len(vals) != 1:
                return None
            w = M.seqv(it, s, vals[0])
            if w is None or w.kind != "bytes":
                s.event("odd", "a literal is not decoded before it is serialized", it.where(node, fr))
                return [(s, it.exc(s, "TypeError", node, fr))]
            out.append((s, derived("stored", (S("bytes", seq.normalize(s.num, w).parts),), "bytes").seq()))
        return out

    def x_deserialize_changeset(self, it, st, f, args, kw, fr, node):
        q = M.seqv(it, st, next(iter(argv(f, args, kw).values()), None))
        b = whole_base(st, q) if q is not None else None
        if b is None or b.op != "stored":
            return None
        return [(st, st.alloc(Obj("iter", None, {"seq": S("list", [One(simp(b.args[0]))])}, "local")))]

    def x_apply(self, it, st, f, args, kw, fr, node):
        out = []
        for s, q in it.to_seq(st, list(argv(f, args, kw).values())[0], fr, node):
            vals = None if isinstance(q, Raise) else M.explicit(q)
            if vals is None or len(vals) != 1:
                return None
            out.append((s, vals[0]))
        return out


def texts():
    nl = b"\n"
    return [("empty", 0, lambda: ()), ("a word", 1, lambda a: (a,)), ("lines", 2, lambda a, b: (a, nl, b)), ("ended lines", 2, lambda a, b: (a, nl, b, nl)),
            ("an empty line", 1, lambda a: (nl, a)), ("a line end", 0, lambda: (nl,)), ("words", 2, lambda a, b: (a, b" ", b, b".")), ("other bytes", 0, lambda: (b"\x00\x7f\xc3\xa9\r\n",))]


def tokens(ctx, name):
    S = Replacing(ctx)
    it = S.it
    cls = S.it.init and next(c for c in classes(it, MARKS["tokenizer"]) if c.name == name)
    ts = texts()
    for i, (what, n, f) in enumerate(ts):
        what2, n2, f2 = ts[(i + 3) % (len(ts) - 1)]  # the last has no words: they may equal what it holds
        if i == len(ts) - 1:
            what2, n2, f2 = ts[5]
        st = it.start()
        ws = [tokenizing.word(f"P{k}", "bytes", 1) for k in range(n)]
        ws2 = [tokenizing.word(f"Q{k}", "bytes", 1) for k in range(n2)]
        tokenizing.distinct(st, *ws, *ws2)
        a, b = tokenizing.text("bytes", *f(*ws)), tokenizing.text("bytes", *f2(*ws2))
        tags = distinct(st, ("v1", "v2"))
        mk = lambda: st.alloc(Obj("dict", None, {"ents": (), "rest": NONE}, "param"))
        tree = st.alloc(Obj("inst", S.tree_cls, {}, "param"))
        st.facts[("T", "nodes")] = ()
        outs = it.call(st, S.cls, [], {"head_version": mk(), "diffs": mk(), "tree": tree, "tokenizer_factory": cls}, S.fr, None)
        d = Database.__new__(Database)
        d.it, d.fr = it, S.fr
        st, v = d.one(outs, "Versions()")
        title = f"{name} ({what}, then {what2})"

        def failed(s, r, op):
            w, n, _ = raise_where(it, s, r)
            if exact(s):
                ctx.violation("tokenizer", f"{name}:{op}:{n}", f"{op} with {title} fails with {n}", w, path_of(s))
            else:
                ctx.undecided("tokenizer", f"{name}:{op}", f"may fail with {n}")

        cur = [st]
        for tag, text, base in (("v1", a, None), ("v2", b, "v1")):
            nxt = []
            for s in cur:
                if base:
                    s.facts[("T", "split", tags[base])] = (tags[base],)
                for x, r in d.op(s, v, "add", tags[tag], simp(text), tags[base] if base else NONE):
                    failed(x, r, "adding") if isinstance(r, Raise) else nxt.append(x)
            cur = nxt
        for s in cur:
            for tag, text in (("v1", a), ("v2", b)):
                for x, r in d.op(s.copy(), v, "get", tags[tag]):
                    if isinstance(r, Raise):
                        failed(x, r, "retrieving")
                        continue
                    if not tokenizing.same_text(x, r, text, it):
                        # a piece may be known to equal a fixed text here
                        vs = {b if isinstance(b, bool) else None for _, b in M.eq(it, x.copy(), r, simp(text), S.fr, None)}
                    else:
                        vs = {True}
                    if vs == {True}:
                        ctx.good("tokenizer", name)
                    elif exact(x, r) and vs == {False}:
                        ctx.violation("tokenizer", f"{name}:text", f"with {title} {tag} is retrieved as {describe(r)}", where_fn(it.lookup(x, S.cls, "get")), path_of(x))
                    else:
                        ctx.undecided("tokenizer", name, describe(r))
    ctx.absorb(it)


def calls(ctx, name, kind):
    """diff() and merged() of gaspra.tokenizers with each tokenizer"""
    it = tokenizing.interp(ctx)
    fr = top_frame(it)
    change = ctx.fn(it, "types", "Change")
    cls = next(c for c in classes(it, MARKS["tokenizer"]) if c.name == name) if name else None
    got = {}

    def found(kind_of):
        def h(it, st, f, args, kw, fr, node):
            vs = list(argv(f, args, kw).values())
            out = []
            for s, c in it.call(st, change, [vs[-2], vs[-1]], {}, fr, node):
                out.append((s, s.alloc(Obj("iter", None, {"seq": S("list", [One(vs[-2]), One(c)])}, "local"))))
            return out
        return h

    it.override("gaspra.changesets", "diff_token_sequences", found("diff"))
    it.override("gaspra.merge", "merge_token_sequence", found("merge"))
    for fn, n in (("diff", 2), ("merged", 3)):
        f = ctx.fn(it, "tokenizers", fn, required=False)
        if f is None:
            continue
        for what, nw, t in [x for x in texts() if kind == "bytes" or x[0] != "other bytes"]:
            st = it.start()
            ts, allw = [], []
            for k in range(n):
                ws = [tokenizing.word(f"{'PQR'[k]}{j}", kind, 1) for j in range(nw)]
                allw += ws
                parts = [p if kind == "bytes" or not isinstance(p, bytes) else p.decode() for p in t(*ws)]
                ts.append(tokenizing.text(kind, *parts))
            tokenizing.distinct(st, *allw)
            args = [simp(x) for x in ts]
            key = f"{fn}:{name}:{kind}"
            title = f"{fn}() of {kind} with {name or 'no tokenizer'} ({what})"
            if cls is not None:
                st, o = tokenizing.make(it, st, cls, fr)
                args.append(o)
            for s, r in it.call(st, f, args, {}, fr, None):
                for x, q in [(s, r)] if isinstance(r, Raise) else it.to_seq(s, r, fr, None):
                    if isinstance(q, Raise):
                        w, e, _ = raise_where(it, x, q)
                        if exact(x) and feasible(x):
                            ctx.violation("calls", f"{key}:{e}", f"{title} fails with {e}", w, path_of(x))
                        else:
                            ctx.undecided("calls", key, f"{title} may fail with {e}")
                        continue
                    ex = M.explicit(q)
                    ok = ex is not None and len(ex) == 2
                    if ok:
                        c = items(it, x, ex[1]) if not isinstance(ex[1], Ref) else [x.obj(ex[1]).f.get("a"), x.obj(ex[1]).f.get("b")]
                        ok = tokenizing.same_text(x, ex[0], ts[-2], it) and c is not None and len(c) == 2 and all(
                            isinstance(v, V) and tokenizing.same_text(x, v, w, it) for v, w in zip(c, ts[-2:]))
                    if ok:
                        ctx.good("calls", key)
                    elif exact(x, *(ex or ())) and ex is not None:
                        ctx.violation("calls", key, f"{title} does not give the decoded texts: {', '.join(map(describe, ex))}", where_fn(f), path_of(x))
                    else:
                        ctx.undecided("calls", key, title)
    ctx.absorb(it)
