"""Abstract runs of every public operation with all events recorded, used by
C09 to C12.  Objects handed in by the caller are owned by "input", objects
that exist after the import of the package by "module"."""
from .util import *
from .contracts import lcs_contract, prefix_contract
from .tokenizing import tokenizers, pieces
from ..report import Anchor, Budget

MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "add", "discard", "update", "setdefault", "popitem",
            "appendleft", "popleft", "extendleft", "rotate", "__setitem__", "__delitem__", "__setattr__", "__delattr__",
            "intersection_update", "difference_update", "symmetric_difference_update", "write", "close"}


def fixed_hash(st, v):
    """Does the value have the same hash in every process?"""
    if isinstance(v, I) or isinstance(v, C) and not isinstance(v.v, (str, bytes)):
        return True
    if isinstance(v, S) and v.kind == "tuple":
        return all(isinstance(p, One) and fixed_hash(st, p.v) for p in v.parts)
    if isinstance(v, Ref) and st.obj(v).kind == "inst" and (st.obj(v).cls.nt or st.obj(v).cls.dc is not None):
        return all(fixed_hash(st, w) for w in st.obj(v).f.values() if isinstance(w, V))
    return False


class Run:
    def __init__(self, ctx, name, contracts=True):
        self.ctx, self.name = ctx, name
        it = self.it = ctx.interp(limit_s=90)
        it.max_states, it.unroll = 3000, 10
        it.regex_pieces = pieces(ctx)
        if contracts:
            lcs_contract(it, 2 if ctx.tier == "thorough" else 1)
            prefix_contract(it)
        self.fr = top_frame(it)
        self.events = {}
        self.inputs = {}  # objects handed in: id -> name
        self.results = []
        self.returned, self.passed = {}, {}
        self.st0 = it.start()
        self.own = it.init

    def __enter__(self):
        State.sink = self.record
        self.sets = {}
        if self.watch_sets:
            self.it.value_hook = self.value
        return self

    def __exit__(self, *exc):
        State.sink = None
        self.ctx.absorb(self.it)

    watch_sets = False

    def value(self, st, e, v, fr):
        """Remember expressions that are sets of several elements whose
        order depends on the process."""
        if isinstance(v, Ref) and st.obj(v).kind == "set":
            ps = st.obj(v).f["seq"].parts
            if len(ps) < 2 and all(isinstance(p, One) for p in ps) or all(isinstance(p, One) and fixed_hash(st, p.v) for p in ps):
                return
        elif not (isinstance(v, U) and v.ty == "set"):
            return
        if id(e) not in self.sets and feasible(st):
            self.sets[id(e)] = (e, fr.mod, fr.fn.qual if fr.fn is not None else "", path_of(st, 8))

    def record(self, st, e):
        if e[0] == "return" and "cached" in e[1].flags:
            self.returned.setdefault(id(e[1].node), []).append(e[2])
        if e[0] == "call" and "cached" in e[1].flags:
            self.passed.setdefault(id(e[1].node), []).extend(a for a in e[2] if isinstance(a, V))
        if e[0] in ("mut", "globalwrite", "ext", "opaquecall", "open", "write", "read", "console", "console.print", "connect", "impure", "setitem", "delitem", "sql"):
            if e[0] == "mut" and e[2] in ("local",):
                return
            k = (e[0],) + tuple(x for x in e[1:] if isinstance(x, (str, Ref, U, Meth, Fn, Cls, Mod, Ext)))
            if k not in self.events and feasible(st):
                self.events[k] = (e, st, path_of(st, 12))

    # -- inputs

    def seq(self, name, kind, st=None):
        if kind == "list":
            r = (st or self.st0).alloc(Obj("list", None, {"seq": base(name, "list").seq()}, "input"))
            self.inputs[r.id] = name
            return r
        return base(name, kind).seq()

    def given(self, parts, name, st=None):
        r = (st or self.st0).alloc(Obj("list", None, {"seq": S("list", [One(p) for p in parts])}, "input"))
        self.inputs[r.id] = name
        return r

    def new(self, cls, args=(), kw=(), owner="input"):
        """An instance made by the caller."""
        self.it.owner = owner
        outs = [(s, v) for s, v in self.it.call(self.st0, cls, list(args), dict(kw), self.fr, None) if not isinstance(v, Raise)]
        self.it.owner = "local"
        if not outs:
            raise Anchor(f"{cls!r} cannot be made")
        self.st0, v = outs[0]
        return v

    # -- calls

    def call(self, f, args, kw=(), st=None, drain=True):
        out = []
        try:
            outs = self.it.call((st or self.st0).copy(), f, list(args), dict(kw), self.fr, None)
        except (Budget, RecursionError) as e:
            self.ctx.undecided("effects", f"{self.name}: {f!r}", f"analysis not finished ({e})")
            return out
        for s, v in outs:
            if isinstance(v, Raise) or not drain:
                out.append((s, v))
            else:
                out += self.drain(s, v)
        for s, v in out:
            self.results.append((s, v))
        return out

    def method(self, obj, name, args, kw=(), st=None):
        out = []
        for s, f in self.it.getattr((st or self.st0).copy(), obj, name, self.fr, None):
            if not isinstance(f, Raise):
                out += self.call(f, args, kw, s)
        return out

    def drain(self, s, v):
        """Take everything out of what was returned."""
        if isinstance(v, Ref) and s.obj(v).kind in ("gen", "chain", "mapit", "filterit", "iter", "cm"):
            if s.obj(v).kind == "cm":
                return [(s, v)]
            r = []
            for x, sig in self.it.iterate(s, v, lambda y, e: [(y, None)], self.fr, None):
                r.append((x, sig[1] if sig is not None and isinstance(sig[1], Raise) else NONE))
            return r
        return [(s, v)]

    def fn(self, mod, name, required=False):
        f = self.ctx.fn(self.it, mod, name, required)
        return f


KINDS4 = ("str", "bytes", "tuple", "list")


def public(it, mod):
    """Public functions defined in a module."""
    env = it.init.obj(Ref(it.mods[mod])).f
    return {n: v for n, v in env.items() if isinstance(v, Fn) and v.mod == mod and not n.startswith("_")}


# ------------------------------------------------------------------ scenarios


PATTERNS = ("", "a", "aa", "abcbc", "aabbabb")


def tokens(r, pattern, kind, owner="input"):
    """A sequence of opaque tokens with the given pattern of equal ones."""
    if kind in ("str", "bytes"):
        return lit(pattern if kind == "str" else pattern.encode())
    parts = [One(lit("token-" + c)) for c in pattern]
    if kind == "tuple":
        return S("tuple", parts)
    ref = r.st0.alloc(Obj("list", None, {"seq": S("list", parts)}, owner))
    r.inputs[ref.id] = "tokens"
    return ref


def s_search(r, kind):
    it = r.it
    it.unroll, it.max_rec = 400, 30  # everything is explicit
    for p, q in (("", "a"), ("a", ""), ("aa", "a"), ("abcbc", "xbcb"), ("aabbabb", "bbx")):
        for k in ("find_substring", "find_lcs"):
            f = r.fn("wrappers", k)
            if f:
                r.call(f, [tokens(r, p, kind), tokens(r, q, kind)])
    f = r.fn("multiple_strings", "find_lcs")
    if f:
        for ps in ((), ("ab",), ("abc", "xbc"), ("ab", "ba", "xa")):
            r.call(f, [tokens(r, p, kind) for p in ps])


def adopt(st):
    """Everything made so far belongs to the caller."""
    for k, o in list(st.heap.items()):
        if o.owner == "local":
            st.heap[k] = Obj(o.kind, o.cls, o.f, "input", o.labels, o.site)


def s_automaton(r, kind):
    r.it.unroll, r.it.max_rec = 400, 30
    build = r.fn("suffix_automaton", "build", True)
    for p in PATTERNS:
        outs = r.call(build, [tokens(r, p, kind)], drain=False)
        if len(outs) != 1 or isinstance(outs[0][1], Raise):
            r.ctx.undecided("effects", "build " + kind, f"{len(outs)} outcomes for {p!r}")
            continue
        s, root = outs[0]
        adopt(s)
        for k in ("find_substring", "find_substring_all", "find_lcs", "all_suffixes"):
            f = r.fn("suffix_automaton", k)
            if f:
                for q in ("", "b", "bcb", "xab") if k != "all_suffixes" else ("",):
                    a = tokens(r, q, "tuple" if kind == "list" else kind)
                    s.facts.update(r.st0.facts)
                    r.call(f, [root] + ([a] if k != "all_suffixes" else []), st=s)


def s_diff(r, kind):
    for mod, k in (("changesets", "find_changeset"), ("changesets", "diff_token_sequences"), ("tokenizers", "diff"), ("common", "common_prefix_length")):
        f = r.fn(mod, k)
        if f:
            r.call(f, [r.seq("original", kind), r.seq("modified", kind)])


def s_changeset(r, kind):
    """The methods of a changeset that the caller holds, and the functions
    on what they give."""
    find = r.fn("changesets", "find_changeset", True)
    ab = [r.seq("original", kind), r.seq("modified", kind)]
    outs = [(s, v) for s, v in r.it.call(r.st0.copy(), find, ab, {}, r.fr, None) if not isinstance(v, Raise)]
    for s, v in outs:
        adopt(s)
        if not (isinstance(v, Ref) and s.obj(v).kind == "inst"):
            continue
        cls = s.obj(v).cls
        for c in r.it.mro(cls):
            if not isinstance(c, Cls):
                continue
            for n, m in sorted(r.it.init.obj(Ref(c.env.id) if isinstance(c.env, Ref) else c.env).f.items(), key=lambda x: str(x[0])):
                if not isinstance(m, Fn) or n.startswith("__") and n not in ("__iter__", "__len__", "__str__", "__repr__", "__eq__"):
                    continue
                na = len(m.node.args.args) - 1
                args = [[], ab[:1], ab]
                if na < 3:
                    r.method(v, n, args[na], st=s)


def patch(r, kind):
    sl = [SL(I(Lin.of(Atom("i", 0))), I(Lin.of(Atom("j", 0))), NONE), r_lit("p", kind), SL(I(Lin.of(Atom("k", 0))), I(Lin.of(Atom("l", 0))), NONE), r_lit("q", kind)]
    return sl


def r_lit(name, kind):
    return base(name, "tuple" if kind == "list" else kind).seq()


def s_patch(r, kind):
    it = r.it
    change, common = r.fn("types", "Change", True), r.fn("types", "CommonSlice", True)
    (s, c1), = it.call(r.st0, change, [r_lit("u", kind), r_lit("v", kind)], {}, r.fr, None)
    p = patch(r, kind)
    (s, c2), = it.call(s, common, [p[0], p[2]], {}, r.fr, None)
    r.st0 = s
    stream = r.given([c2, c1, c2], "stream")
    for k in ("strip_forward", "strip_reverse"):
        f = r.fn("changesets", k)
        if f:
            r.call(f, [stream])
    f = r.fn("changesets", "apply")
    if f:
        r.call(f, [r.given(p, "patch"), r.seq("original", kind)])
    for k in ("apply_forward", "apply_reverse"):
        f = r.fn("changesets", k)
        if f:
            r.call(f, [stream, r.seq("original", kind)])
    if kind == "bytes":
        f = r.fn("serialize", "serialize_changeset")
        if f:
            cs = lambda a, b: SL(I(Lin.of(a)), I(Lin.of(b)), NONE)
            for p in ([], [cs(0, 3)], [lit(b"ab"), cs(3, 300), lit(b"c"), lit(b"d"), cs(4, 4)], [lit(b""), lit(b"x" * 70), cs(0, 100000)]):
                r.call(f, [r.given(p, "changeset")])
        r.it.unroll = 400
        for data in (b"", b"\x00", b"\x03abc\x81\x02\x01z", b"\xf8\x01\xf9\x01\x02", b"\x84\x00\x05\x02xy\x83\x01\x01", b"\xf0\xff\x01\x80"):
            for k in ("deserialize_changeset", "deserialize_int"):
                f = r.fn("serialize", k)
                if f:
                    r.call(f, [lit(data)])
        f = r.fn("serialize", "serialize_int")
        if f:
            for n in (0, 1, 127, 128, 247, 255, 256, 70000, 2 ** 64 - 1, 2 ** 64, -1):
                r.call(f, [I(Lin.of(n))])


MERGES = [("", "", ""), ("", "a", "b"), ("", "ab", "ab"), ("abc", "abc", "abc"), ("abcxy", "acxy", "abxy"), ("abcxy", "xabcxy", "abcxya"), ("abcxy", "abXcxy".lower(), "abYcxy".lower()),
          ("abcxy", "", "abcxy"), ("abcxy", "", "abay"), ("abcxy", "aacxy", "abcyx"), ("abcabc", "abcxabc", "abc"), ("abcabc", "abc", "abcabcabc"), ("axbyc", "abc", "ab"),
          ("abcxyabc", "abcxxyabc", "abcyyabc"), ("aabb", "bbaa", "abab"), ("abcxy", "xxxx", "yyyy"), ("abcxy", "abaacxy", "abbbcaxy")]


def s_merge(r, kind):
    r.it.unroll, r.it.max_rec = 400, 30
    f = r.fn("merge", "merge_token_sequence", True)
    for ms in MERGES:
        r.call(f, [tokens(r, p, kind) for p in ms])


def s_lines(r, kind):
    it = r.it
    it.unroll, it.max_rec = 400, 30
    change = r.fn("types", "Change", True)
    cs = []
    for a, b in (("u\n", "v"), ("u", "v"), ("", "v\n"), ("u\nw", "")):
        (s, c), = it.call(r.st0, change, [lit(a), lit(b)], {}, r.fr, None)
        r.st0 = s
        cs.append(c)
    t = [lit(x) for x in ("a", "a\n", " ", "a\nb\nc", "\n", "")]
    for n in ("to_line_diff", "consolidated_line_diff", "consolidate"):
        f = r.fn("diff_to_lines", n, n == "to_line_diff")
        if f is None:
            continue
        if n == "consolidate":
            k = r.inner(change, cs[0])
            r.call(f, [r.given([t[0], k, k, t[1], k], "stream")])
            continue
        for p in ([], t[:1], t[-1:], [t[0], cs[1], t[3]], [cs[0], t[2], cs[1], t[4]], [t[3], cs[2], t[0], cs[3]], [cs[1], cs[1]], [t[0], cs[0], t[0], t[1], cs[2]]):
            r.call(f, [r.given(p, "stream")])


def s_markup(r, kind):
    it = r.it
    change = r.fn("types", "Change", True)
    (s, c1), = it.call(r.st0, change, [base("u", "str", lo=1).seq(), base("v", "str", lo=1).seq()], {}, r.fr, None)
    r.st0 = s
    c2 = r.inner(change, c1)
    stream = r.given([base("t", "str").seq(), c1, base("w", "str").seq(), c2], "stream")
    f = r.fn("markup", "markup_changes", True)
    esc = r.fn("markup", "rich_escape", True)
    out = Py("print", lambda it, s, a, k, fr, n: [(s, NONE)])
    env = it.init.obj(Ref(it.mods["gaspra.markup"])).f
    tables = [v for n, v in sorted(env.items(), key=lambda x: str(x[0])) if isinstance(v, Ref) and it.init.obj(v).kind == "dict" and not n.startswith("__")]
    for t in tables:
        if {"into", "from"} <= {k.v for k, _ in it.init.obj(t).f["ents"] if isinstance(k, C)}:
            for u in tables[-2:]:
                r.call(f, [out, stream, t, u, base("n1", "str").seq(), base("n2", "str").seq()], {"header": base("h", "str").seq(), "escape": esc})


def inner(self, change, c1):
    (s, c2), = self.it.call(self.st0, change, [S("tuple", (One(base("i", "str", lo=1).seq()), One(c1))), S("tuple", (One(base("j", "str", lo=1).seq()), One(c1)))], {}, self.fr, None)
    self.st0 = s
    return c2


Run.inner = inner


def s_tokenizers(r, kind):
    it = r.it
    it.unroll, it.max_rec = 400, 30
    mk = (lambda x: lit(x)) if kind == "str" else (lambda x: lit(x.encode()))
    for n, c in tokenizers(r.ctx, it):
        for s, t in it.call(r.st0.copy(), c, [], {}, r.fr, None):
            if isinstance(t, Raise):
                continue
            for s1, e1 in r.method(t, "encode", [mk("one two\nthree; one\r\n")], st=s)[:8]:
                if isinstance(e1, Raise):
                    continue
                r.method(t, "decode", [e1], st=s1)
                r.method(t, "decode", [r.st_list(s1, e1)], st=s1)
                r.method(t, "encode", [mk("four\none two")], st=s1)
                r.method(t, "encode", [lit(b"x") if kind == "str" else lit("x")], st=s1)
    f = r.fn("tokenizers", "line_encode_strings")
    if f is not None:
        r.call(f, [mk(x) for x in ("one\ntwo\n", "two\nthree")])
    for f in ("diff", "merge", "diffed", "merged"):
        g = r.fn("tokenizers", f)
        if g is not None:
            na = 2 if f.startswith("diff") else 3
            r.call(g, [mk(x) for x in ("one\ntwo\nthree\n", "one\n2\nthree\n", "zero\none\ntwo\n")[:na]])


def st_list(self, st, v):
    q = M.seqv(self.it, st, v)
    if q is None:
        return v
    ref = st.alloc(Obj("list", None, {"seq": S("list", q.parts)}, "input"))
    self.inputs[ref.id] = "tokens"
    return ref


Run.st_list = st_list


def s_versions(r, kind):
    it = r.it
    cls = r.fn("versions", "Versions", True)
    it.unroll, it.max_rec = 400, 30
    c1, c2, c3 = lit(b"abc"), lit(b"abxc"), lit(b"bxcc")
    tags = {}
    for n in ("v1", "v2", "v3", "v4", "v5"):
        tags[n] = U("tag:" + n, (), None)
    for a in tags.values():
        r.st0.facts[("none", a)] = False
        for b in tags.values():
            if a is not b:
                r.st0.facts[M.eqkey(a, b)] = False
    outs = it.call(r.st0.copy(), cls, [], {}, r.fr, None)
    for s, v in outs:
        if isinstance(v, Raise):
            continue
        for s1, e in r.method(v, "add", [tags["v1"], c1], st=s)[:2]:
            for s2, e in r.method(v, "add", [tags["v2"], c2, tags["v1"]], st=s1)[:3]:
                for s3, e in r.method(v, "add", [tags["v3"], c3, tags["v2"]], st=s2)[:3]:
                    for s4, e in r.method(v, "add", [tags["v4"], c2, tags["v3"]], st=s3)[:3]:
                        for n in ("get", "version_info", "__contains__"):
                            for t in ("v1", "v4", "v5"):
                                r.method(v, n, [tags[t]], st=s4)


SCENARIOS = [("search", s_search, KINDS4, False), ("automaton", s_automaton, KINDS4, False), ("diff", s_diff, KINDS4, True),
             ("changeset", s_changeset, KINDS4, True), ("patch", s_patch, KINDS4, True), ("merge", s_merge, KINDS4, False),
             ("lines", s_lines, ("str",), False), ("markup", s_markup, ("str",), True),
             ("tokenizers", s_tokenizers, ("str", "bytes"), False), ("versions", s_versions, ("bytes",), False)]


def scenario(ctx, k, kind, judge):
    name, f, kinds, contracts = SCENARIOS[k]
    r = Run(ctx, f"{name} ({kind})", contracts)
    with r:
        f(r, kind)
    judge(ctx, r)


def run(ctx, judge, rule):
    it = ctx.interp()
    ctx.fn(it, "suffix_automaton", "build")
    ctx.parallel([(rule, scenario, k, kind, judge) for k, s in enumerate(SCENARIOS) for kind in s[2]])
