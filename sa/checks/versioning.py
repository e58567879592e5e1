"""The version store on a model of its parts: an explicit tree, explicit
collections, opaque contents, and terms for what the tokenizer, the diff and
the serialization do."""
import ast

from .util import *
from ..report import Anchor

MODEL = '''
class ModelTree:
    def __contains__(self, tag): pass
    def base_version(self, tag): pass
    def add(self, tag, existing_head=None): pass
    def path_to(self, tag): pass
    def change_parent(self, tag, new_parent): pass
    def get_split(self, tag): pass

class ModelTokenizer:
    def encode(self, contents): pass
    def decode(self, contents): pass
    def from_str(self, contents): pass
    def from_bytes(self, contents): pass

def make_tokenizer(): pass

def make_connection(): pass
'''

NITEMS = 4  # literal, copy, literal, copy


def argv(f, args, kw):
    names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
    r = dict(zip(names, args))
    r.update(kw)
    return r


class Store:
    """An interpreter with the parts of the version store replaced."""

    def __init__(self, ctx, fail=False, falsy=False):
        self.ctx = ctx
        self.fail = fail
        it = self.it = ctx.interp(load=False)
        it.trees["gaspra.model_"] = ast.parse(MODEL)
        it.load_all(("gaspra.dot_dump",))
        it.owner = "local"
        it.unroll = 24
        it.max_states = 4000
        self.cls = ctx.fn(it, "versions", "Versions")
        self.fr = top_frame(it)
        tree = it.attr_of("gaspra.model_", "ModelTree")
        tok = it.attr_of("gaspra.model_", "ModelTokenizer")
        self.tree_cls, self.tok_cls = tree, tok
        self.factory = it.attr_of("gaspra.model_", "make_tokenizer")
        for c, names in ((tree, ("__contains__", "base_version", "add", "path_to", "change_parent", "get_split")),
                         (tok, ("encode", "decode"))):
            for n in names:
                m = it.lookup(it.init, c, n)
                it.overrides[id(m.node)] = getattr(self, "t_" + n.strip("_"))
        it.overrides[id(self.factory.node)] = self.new_tokenizer
        for mod, n in (("changesets", "find_changeset"), ("changesets", "strip_forward"), ("changesets", "strip_reverse"),
                       ("changesets", "apply"), ("serialize", "serialize_changeset"), ("serialize", "deserialize_changeset")):
            it.override("gaspra." + mod, n, getattr(self, "x_" + n))
        it.unknown_hook = self.unknown
        self.ntok = 0

    # -- terms

    def content(self, tag):
        return base_of("content", tag).seq()

    def delta(self, a, b):
        return derived("delta", (a, b), "bytes").seq()

    def raising(self, st, what, node, fr):
        """The same state with the operation failing."""
        if not self.fail:
            return []
        x = st.copy()
        return [(x, self.it.exc(x, "ValueError", node, fr, what))]

    # -- tokenizers

    def new_tokenizer(self, it, st, f, args, kw, fr, node):
        self.ntok += 1
        return [(st, st.alloc(Obj("inst", self.tok_cls, {"%id": I(Lin(self.ntok))}, it.owner)))]

    def t_encode(self, it, st, f, args, kw, fr, node):
        v = argv(f, args, kw)
        q = M.seqv(it, st, v.get("contents"))
        if q is None:
            return None
        if q.kind not in ("bytes", "str"):
            return [(st, it.exc(st, "TypeError", node, fr, f"encode({q.kind})"))]
        out = self.raising(st, "encode", node, fr)
        return out + [(st, derived("enc", (st.obj(v["self"]).f["%id"], seq.normalize(st.num, q)), "tuple").seq())]

    def t_decode(self, it, st, f, args, kw, fr, node):
        v = argv(f, args, kw)
        q = M.seqv(it, st, v.get("contents"))
        if q is None:
            return None
        tid = st.obj(v["self"]).f["%id"]
        out = self.raising(st, "decode", node, fr)
        b = whole_base(st, q)
        if b is not None and b.op == "enc" and b.args[0] == tid:
            return out + [(st, b.args[1])]
        return out + [(st, derived("dec", (tid, S("tuple", seq.normalize(st.num, q).parts)), "bytes").seq())]

    # -- diff and serialization

    def x_find_changeset(self, it, st, f, args, kw, fr, node):
        v = argv(f, args, kw)
        a, b = M.seqv(it, st, v.get("original")), M.seqv(it, st, v.get("modified"))
        if a is None or b is None or len(v) != 2:
            return None
        out = self.raising(st, "find_changeset", node, fr)
        return out + [(st, U("changeset", (seq.normalize(st.num, a), seq.normalize(st.num, b))))]

    def unknown(self, it, st, f, args, kw, fr, node):
        o, name = (f.obj, f.name) if isinstance(f, Meth) else (f.args[0], f.args[1].v) if isinstance(f, U) and f.op == "attr" else (None, None)
        if isinstance(o, U) and o.op == "changeset" and name == "as_change_stream" and not args:
            return [(st, U("stream", o.args))]
        return None

    def items(self, op, a, b, kind):
        r = []
        for k in range(NITEMS):
            if k % 2 == 0:
                r.append(One(derived(op + ".lit", (a, b, k), kind).seq()))
            else:
                r.append(One(U(op + ".copy", (a, b, k), "slice")))
        return r

    def strip(self, st, v, rev, node, fr):
        if not (isinstance(v, U) and v.op == "stream"):
            return None
        a, b = v.args
        if rev:
            a, b = b, a
        out = self.raising(st, "compare", node, fr)
        return out + [(st, st.alloc(Obj("iter", None, {"seq": S("list", self.items("patch", a, b, "tuple"))}, "local")))]

    def x_strip_forward(self, it, st, f, args, kw, fr, node):
        return self.strip(st, next(iter(argv(f, args, kw).values()), None), False, node, fr)

    def x_strip_reverse(self, it, st, f, args, kw, fr, node):
        return self.strip(st, next(iter(argv(f, args, kw).values()), None), True, node, fr)

    def x_serialize_changeset(self, it, st, f, args, kw, fr, node):
        out = self.raising(st, "serialize", node, fr)
        a0 = next(iter(argv(f, args, kw).values()), None)
        for s, q in it.to_seq(st, a0, fr, node):
            if isinstance(q, Raise):
                out.append((s, q))
                continue
            vals = M.explicit(q)
            r = self.as_delta(s, vals) if vals is not None else None
            if r is None:
                s.event("odd", "serialize_changeset is given something else than a patch with decoded literals", it.where(node, fr))
                r = fresh_named("notadelta", "bytes").seq()
            out.append((s, r))
        return out

    def as_delta(self, st, vals):
        """The stored form of a complete patch whose literals were decoded
        with the tokenizer that encoded both sides."""
        if len(vals) != NITEMS:
            return None
        ab = None
        for k, v in enumerate(vals):
            if k % 2:
                if not (isinstance(v, U) and v.op == "patch.copy"):
                    return None
                x = v.args
            else:
                q = as_seq(v)
                b = whole_base(st, q) if q is not None else None
                if b is None or b.op != "dec" or q.kind != "bytes":
                    return None
                c = whole_base(st, b.args[1])
                if c is None or c.op != "patch.lit":
                    return None
                x = c.args
                tid = b.args[0]
                for side in x[:2]:
                    e = whole_base(st, side)
                    if e is None or e.op != "enc" or e.args[0] != tid:
                        return None
            if x[2] != k or ab is not None and ab != x[:2]:
                return None
            ab = x[:2]
        a, b = (whole_base(st, z) for z in ab)
        return self.delta(a.args[1], b.args[1])

    def x_deserialize_changeset(self, it, st, f, args, kw, fr, node):
        q = M.seqv(it, st, next(iter(argv(f, args, kw).values()), None))
        if q is None:
            return None
        b = whole_base(st, q)
        if b is None or b.op != "delta":
            st.event("odd", f"{describe(q)} is read as a stored delta", it.where(node, fr))
            return [(st, it.exc(st, "RuntimeError", node, fr))]
        out = self.raising(st, "deserialize", node, fr)
        return out + [(st, st.alloc(Obj("iter", None, {"seq": S("list", self.items("stored", b.args[0], b.args[1], "bytes"))}, "local")))]

    def x_apply(self, it, st, f, args, kw, fr, node):
        a = list(argv(f, args, kw).values())
        if len(a) != 2:
            return None
        v = M.seqv(it, st, a[1])
        if v is None:
            return None
        out = self.raising(st, "apply", node, fr)
        for s, q in it.to_seq(st, a[0], fr, node):
            if isinstance(q, Raise):
                out.append((s, q))
                continue
            vals = M.explicit(q)
            r = self.patched(s, vals, seq.normalize(s.num, v)) if vals is not None else None
            if r is None:
                s.event("odd", f"a patch is applied to something else than it was made for ({describe(v)})", it.where(node, fr))
                r = fresh_named("mispatched", v.kind).seq()
            out.append((s, r))
        return out

    def patched(self, st, vals, v):
        e = whole_base(st, v)
        if e is None or e.op != "enc" or len(vals) != NITEMS:
            return None
        tid, cur = e.args
        ab = None
        for k, x in enumerate(vals):
            if k % 2:
                if not (isinstance(x, U) and x.op == "stored.copy"):
                    return None
                y = x.args
            else:
                q = as_seq(x)
                b = whole_base(st, q) if q is not None else None
                if b is None or b.op != "enc" or b.args[0] != tid:
                    return None
                c = whole_base(st, b.args[1])
                if c is None or c.op != "stored.lit":
                    return None
                y = c.args
            if y[2] != k or ab is not None and ab != y[:2]:
                return None
            ab = y[:2]
        if not seq.same(st.num, ab[0], cur):
            return None
        return derived("enc", (tid, ab[1]), "tuple").seq()

    # -- the tree

    def t_contains(self, it, st, f, args, kw, fr, node):
        t = argv(f, args, kw)["tag"]
        return self.known(st, t, fr, node, lambda s, b, _: [(s, TRUE if b else FALSE)])

    def known(self, st, t, fr, node, k):
        """k(state, is the tag known, the known tag)"""
        out, pend = [], [st]
        for n in st.facts[("T", "nodes")]:
            nxt = []
            for s in pend:
                for x, r in M.eq(self.it, s, n, t, fr, node):
                    (out.extend(k(x, True, n)) if r is True else nxt.append(x))
            pend = nxt
        for s in pend:
            out += k(s, False, t)
        return out

    def t_base_version(self, it, st, f, args, kw, fr, node):
        return self.known(st, argv(f, args, kw)["tag"], fr, node, lambda s, b, n: [
            (s, s.facts[("T", "base", n)] if b else it.exc(s, "KeyError", node, fr))])

    def t_add(self, it, st, f, args, kw, fr, node):
        v = argv(f, args, kw)

        def k(s, b, n):
            if b:
                s.event("odd", "a tag is added to the tree twice", it.where(node, fr))
            else:
                s.facts[("T", "nodes")] += (n,)
            s.facts[("T", "parent", n)] = NONE
            s.facts[("T", "base", n)] = v.get("existing_head", NONE)
            s.event("tree.add", n, v.get("existing_head", NONE), it.where(node, fr))
            return [(s, NONE)]

        return self.known(st, v["tag"], fr, node, k)

    def chain(self, st, n):
        r = []
        while n != NONE and len(r) < 20:
            r.append(n)
            n = st.facts[("T", "parent", n)]
        return r[::-1]

    def t_path_to(self, it, st, f, args, kw, fr, node):
        return self.known(st, argv(f, args, kw)["tag"], fr, node, lambda s, b, n: [
            (s, S("tuple", [One(x) for x in self.chain(s, n)]) if b else NONE)])

    def t_change_parent(self, it, st, f, args, kw, fr, node):
        v = argv(f, args, kw)

        def one(s, b, n):
            if not b:
                return [(s, it.exc(s, "KeyError", node, fr))]

            def two(x, c, p):
                if not c:
                    return [(x, it.exc(x, "KeyError", node, fr))]
                x.facts[("T", "parent", n)] = p
                x.event("link", n, p, it.where(node, fr))
                return [(x, NONE)]

            return self.known(s, v["new_parent"], fr, node, two)

        return self.known(st, v["tag"], fr, node, one)

    def t_get_split(self, it, st, f, args, kw, fr, node):
        def k(s, b, n):
            if not b:
                return [(s, it.exc(s, "KeyError", node, fr))]
            path = s.facts[("T", "split", n)]
            l = s.alloc(Obj("list", None, {"seq": S("list", [One(x) for x in path])}, "local"))
            return [(s, S("tuple", (One(path[-1]), One(l))))]

        return self.known(st, argv(f, args, kw)["tag"], fr, node, k)

    # -- situations

    def situation(self, roots, truthy=None):
        """A store with the given trees: each a list of tags from the root
        down.  -> (state, Versions object, tags)"""
        it = self.it
        st = it.start()
        tags = {}

        def tag(n):
            if n not in tags:
                tags[n] = U("tag:" + n, (), None)
            return tags[n]

        head, diffs, nodes = [], [], []
        for path in roots:
            ts = [tag(n) for n in path]
            nodes += ts
            head.append((ts[0], self.content(ts[0])))
            for k, t in enumerate(ts):
                p = ts[k - 1] if k else NONE
                st.facts[("T", "parent", t)] = p
                st.facts[("T", "base", t)] = ts[k + 1] if k + 1 < len(ts) else NONE
                if k:
                    diffs.append((t, self.delta(self.content(p), self.content(t))))
            st.facts[("T", "split", ts[0])] = tuple(ts)
        st.facts[("T", "nodes")] = tuple(nodes)
        tag("new")
        tag("stranger")
        for a in tags.values():
            st.facts[("none", a)] = False
            for b in tags.values():
                if a is not b:
                    st.facts[M.eqkey(a, b)] = False
        self.tags = tags
        mk = lambda ents: st.alloc(Obj("dict", None, {"ents": tuple(ents), "rest": NONE}, "param"))
        self.head, self.diffs = mk(head), mk(diffs)
        tree = st.alloc(Obj("inst", self.tree_cls, {}, "param"))
        fields = {"head_version": self.head, "diffs": self.diffs, "tree": tree, "tokenizer_factory": self.factory}
        for s, v in it.call(st, self.cls, [], fields, self.fr, None):
            return s, v, tags
        return None

    def table(self, st, ref):
        return {k: v for k, v in st.obj(ref).f["ents"] if v is not None}

    def consistent(self, st, tag):
        """None, or what is wrong with the stored form of a version."""
        head, diffs = self.table(st, self.head), self.table(st, self.diffs)
        p = st.facts[("T", "parent", tag)]
        want = self.content(tag)
        if p == NONE:
            if tag not in head:
                return "has no parent and no full copy"
            if not same_seq(st, head[tag], want):
                return "has a full copy with other contents"
            if tag in diffs:
                return "has a stored delta but no parent"
            return None
        if tag not in diffs:
            return "has a parent but no stored delta"
        if not same_seq(st, diffs[tag], self.delta(self.content(p), want)):
            return f"has a stored delta that does not lead from the contents of its recorded parent to its own ({describe(diffs[tag])})"
        return None


def same_seq(st, v, q):
    w = as_seq(v)
    return w is not None and w.kind == q.kind and seq.same(st.num, w, q)


def whole_base(st, q):
    """The base a sequence is the whole of."""
    if len(q.parts) == 1 and isinstance(q.parts[0], Sl):
        p = q.parts[0]
        if st.num.is0(p.lo) is True and st.num.is0(p.hi - p.base.len) is True:
            return p.base
    return None


def base_of(op, tag, kind="bytes"):
    return derived(op, (tag,), kind, name=f"{op}({tag!r})")


_n = [0]


def fresh_named(name, kind):
    _n[0] += 1
    return Base(f"{name}{_n[0]}", kind)


def odd(st):
    return [e for e in st.events() if e[0] == "odd"]
