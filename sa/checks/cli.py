"""Abstract runs of the command line tools, used by C27 to C30."""
import itertools
import os
import time
import tomllib

from .util import *
from .contracts import collect, is_rec, field
from .tokenizing import tokenizers
from ..report import Anchor, Budget
from ..values import Raise

IN = frozenset({"input"})


def entries(it):
    """{tool: function} from the project file."""
    root = os.environ.get("VERIF_REPO", "/repo")
    try:
        with open(os.path.join(root, "pyproject.toml"), "rb") as f:
            t = tomllib.load(f)
        scripts = t.get("tool", {}).get("poetry", {}).get("scripts") or t.get("project", {}).get("scripts") or {}
    except OSError:
        scripts = {"gaspra-merge": "gaspra.merge_tool:merge_cli", "gaspra-diff": "gaspra.merge_tool:diff_cli", "gaspra-torture": "gaspra.merge_tool:torture_cli"}
    r = {}
    for n, s in sorted(scripts.items()):
        mod, _, f = s.partition(":")
        v = it.attr_of(mod, f)
        if not isinstance(v, Fn):
            raise Anchor(f"{s}, the entry point of {n}, does not exist")
        r[n] = v
    if not r:
        raise Anchor("there are no command line tools")
    return r


# which sides of the changes of a model stream are not empty
VARIANTS = tuple(enumerate([(1, 1), (1, 0), (0, 1)]))


class Cli:
    """The tools with the tokenizers, the diff, the merge and the line view
    replaced by models."""

    def __init__(self, ctx, limit_s=150, real=()):
        self.ctx = ctx
        it = self.it = ctx.interp(limit_s=limit_s, max_steps=10 ** 9)
        it.unroll = 24
        it.max_states = 4000
        it.read_labels = IN
        # the names of files that could be read
        it.nonempty = ("os.path.basename", "os.path.join", "os.path.abspath")
        self.fr = top_frame(it)
        self.entries = entries(it)
        self.change = ctx.fn(it, "types", "Change")
        self.variants = VARIANTS
        self.reduced = False
        self.toks = tokenizers(ctx, it)
        if "tokenizers" not in real:
            for n, c in self.toks:
                it.overrides[id(it.lookup(it.init, c, "encode").node)] = self.encode
                it.overrides[id(it.lookup(it.init, c, "decode").node)] = self.decode
        it.override("gaspra.changesets", "diff_token_sequences", self.x_diff)
        it.override("gaspra.merge", "merge_token_sequence", self.x_merge)
        it.override("gaspra.diff_to_lines", "to_line_diff", self.x_lines)

    # -- models

    def encode(self, it, st, f, args, kw, fr, node):
        me, text = args[0], args[1] if len(args) > 1 else kw.get("contents")
        st.event("tok.encode", me, text, it.where(node, fr))
        q = M.seqv(it, st, text)
        if q is None:
            return [(st, it.exc(st, "TypeError", node, fr, "encode"))]
        b = derived("tokens", (q,), "tuple", labels_of(q))
        return [(st, b.seq())]

    def decode(self, it, st, f, args, kw, fr, node):
        me, toks = args[0], args[1] if len(args) > 1 else kw.get("contents")
        st.event("tok.decode", me, toks, it.where(node, fr))
        q = M.seqv(it, st, toks)
        if q is None:
            return [(st, it.exc(st, "TypeError", node, fr, "decode"))]
        if not q.parts:
            return [(st, simp(S("str", ())))]
        b = derived("text", (q,), "str", labels_of(q) | IN)
        st.assume_ge0(b.len - 1)
        return [(st, b.seq())]

    def piece(self, st, what, *key):
        b = derived("piece of " + what, key, "tuple", IN)
        st.assume_ge0(b.len - 1)
        return b.seq()

    def make_change(self, st, a, b):
        outs = self.it.call(st, self.change, [a, b], {}, self.fr, None)
        if len(outs) != 1 or isinstance(outs[0][1], Raise):
            raise Anchor("Change(a, b) cannot be made")
        return outs[0]

    def stream(self, st, what, key):
        """An iterator of items and changes; a side may be empty."""
        E = S("tuple", ())
        xs = []
        for k, (a, b) in self.variants:
            xs.append(self.piece(st, what, *key, I(k), C("same")))
            st, c = self.make_change(st, self.piece(st, what, *key, I(k), C("a")) if a else E, self.piece(st, what, *key, I(k), C("b")) if b else E)
            xs.append(c)
        xs.append(self.piece(st, what, *key, C("end")))
        return [(st, st.alloc(Obj("iter", None, {"seq": S("list", [One(x) for x in xs])}, "local")))]

    def x_diff(self, it, st, f, args, kw, fr, node):
        names = [a.arg for a in f.node.args.args]
        v = dict(zip(names, args)) | kw
        key = tuple(v[n] for n in names[:2])
        st.event("diffed", key)
        return self.stream(st, "diff", key)

    def x_merge(self, it, st, f, args, kw, fr, node):
        names = [a.arg for a in f.node.args.args]
        v = dict(zip(names, args)) | kw
        key = tuple(v[n] for n in names[:3])
        st.event("merged", key)
        return self.stream(st, "merge", key)

    def x_lines(self, it, st, f, args, kw, fr, node):
        out = []
        for s, xs in collect(it, st, args[0] if args else list(kw.values())[0], fr, "lined"):
            if isinstance(xs, Raise):
                out.append((s, xs))
                continue
            r = []
            for k, x in enumerate(xs):
                if not is_rec(it, s, x, "Change"):
                    r.append(x)
                    continue
                a, b = field(s, x, "a"), field(s, x, "b")
                pre, post = (derived(w, (a, b), "str", IN) for w in ("line start", "line end"))
                for z in (pre, post):
                    s.assume_ge0(z.len - 1)
                empty = S("str", ())
                s, ca = self.make_change(s, a, empty)
                s, cb = self.make_change(s, empty, b)
                s, c = self.make_change(s, S("tuple", [One(pre.seq()), One(ca), One(post.seq())]), S("tuple", [One(pre.seq()), One(cb), One(post.seq())]))
                r.append(c)
            out.append((s, s.alloc(Obj("iter", None, {"seq": S("list", [One(x) for x in r])}, "local"))))
        return out

    # -- what should be displayed

    def expected(self, st, what, key, lines):
        """The pieces of text in the order they are displayed."""
        r = []

        def text(q):
            return derived("text", (q,), "str", labels_of(q) | IN).seq()

        for k, (a, b) in self.variants:
            r.append(text(self.piece(st, what, *key, I(k), C("same"))))
            ta = text(self.piece(st, what, *key, I(k), C("a"))) if a else None
            tb = text(self.piece(st, what, *key, I(k), C("b"))) if b else None
            if lines:
                e = simp(S("str", ()))
                pre, post = (derived(w, (simp(ta) if a else e, simp(tb) if b else e), "str", IN).seq() for w in ("line start", "line end"))
                r += [pre] + ([ta] if a else []) + [post, pre] + ([tb] if b else []) + [post]
            else:
                r += [x for x in (ta, tb) if x is not None]
        r.append(text(self.piece(st, what, *key, C("end"))))
        return [as_seq(x).parts[0] for x in r]

    # -- options

    def options(self, tool):
        """The declared options [(dest, names, keywords, group)]."""
        it = self.it
        got = []

        def stop(interp, st, o, args, kw, fr, node):
            got.append(st.obj(o).f["opts"])
            e = st.alloc(Obj("exc", None, {"type": Bi("SystemExit"), "args": S("tuple"), "msg": NONE}, "local"))
            return [(st, Raise(e, node, fn=fr.fn))]

        it.ext_models[("argparse.ArgumentParser", "parse_args")] = stop
        try:
            it.call(it.start(), self.entries[tool], [], {}, self.fr, None)
        finally:
            del it.ext_models[("argparse.ArgumentParser", "parse_args")]
        if not got:
            raise Anchor(f"{tool} does not parse its arguments with argparse")
        return got[0]

    def combinations(self, tool):
        """[{option name (longest): True/False}] of all valid command lines."""
        opts = self.options(tool)
        groups, free = {}, []
        for d, names, kw, g in opts:
            if not any(n.startswith("-") for n in names):
                continue
            (groups.setdefault(g, []) if g != NONE else free).append(self.long(names))
        choices = [[{m: m == n for m in ms} for n in ms] + [{m: False for m in ms}] for ms in groups.values()]
        choices += [[{n: False}, {n: True}] for n in free]
        return [dict(x for c in cs for x in c.items()) for cs in itertools.product(*choices)]

    def inputs(self, tool):
        return [d for d, names, kw, g in self.options(tool) if not any(n.startswith("-") for n in names)]

    def some_combinations(self, tool, j, k):
        """Those of part j of k; of the torture test, which is a merge with
        other file names, only up to two options at once."""
        cs = [x for x in self.combinations(tool) if tool != "gaspra-torture" or sum(x.values()) <= 2]
        return cs[j::k]

    @staticmethod
    def long(names):
        ls = [n for n in names if n.startswith("--")]
        return (ls or list(names))[0]

    def assume(self, st, tool, combo):
        for d, names, kw, g in self.options(tool):
            n = self.long(names)
            if n not in combo:
                if not n.startswith("-"):
                    for ty in ("str", None):
                        u = U("arg", (C(d),), ty, {"arg"})
                        st.facts[("none", u)] = False
                        st.facts[("isa", u, "str")] = True
                        st.facts[("truth", u)] = True
                continue
            kw = dict(kw)
            action = kw["action"].v if isinstance(kw.get("action"), C) else "store"
            v = combo[n]
            if action in ("store_true", "store_false"):
                u = U("arg", (C(d),), "bool", {"arg"})
                st.facts[("truth", u)] = v == (action == "store_true")
            else:
                u = U("arg", (C(d),), None, {"arg"})
                st.facts[("none", u)] = not v
                if v:
                    st.facts[("isa", u, "str")] = True
                    st.facts[("truth", u)] = True

    def run(self, tool, combo=None, st=None):
        it = self.it
        st = st or it.start()
        if combo:
            self.assume(st, tool, combo)
        whole = it.deadline
        if self.reduced:
            self.variants = self.variants[:1]
        try:
            if not self.reduced:
                it.deadline = min(whole, time.time() + 40)
            return [(s, r) for s, r in it.call(st.copy(), self.entries[tool], [], {}, self.fr, None) if feasible(s)]
        except Budget:
            # too many cases: from now on, streams with a single change
            if self.reduced or len(self.variants) < 2 or time.time() >= whole:
                raise
            self.reduced = True
            self.ctx.undecided("streams", tool, "only streams with a single change are analysed")
            it.deadline = whole
            self.variants = self.variants[:1]
            return [(s, r) for s, r in it.call(st.copy(), self.entries[tool], [], {}, self.fr, None) if feasible(s)]
        finally:
            it.deadline = whole


def show(combo):
    on = [n for n, v in combo.items() if v]
    return " ".join(on) or "no options"


def is_text_buffer(st, ref):
    return isinstance(ref, Ref) and st.obj(ref).kind == "ext" and st.obj(ref).f["path"].v == "io.StringIO"


def outputs(st):
    """[(kind, writer, text, keywords, where)] of what was displayed."""
    r = []
    for e in st.events():
        if e[0] == "write" and not is_text_buffer(st, e[1]):
            r.append(("file", e[1], e[2], {}, e[3]))
        elif e[0].startswith("console.") and e[0] != "console.x":
            r.append((e[0], e[1], e[2], e[3], e[4]))
    return r


TEXTS = ("text", "line start", "line end")


def flatten(it, st, v, depth=0):
    """[(what, value, times escaped)] of a displayed text; what is "lit",
    "text" (from the inputs), "name" or "other"."""
    q = M.seqv(it, st, v)
    if q is None:
        return [("other", v, depth)]
    r = []
    for p in q.parts:
        if isinstance(p, Lit):
            r.append(("lit", p.v, depth))
        elif isinstance(p, Sl) and seq._whole(st.num, p):
            b = p.base
            if b.op == "rich.escape":
                r += flatten(it, st, b.args[0], depth + 1)
            elif b.op in TEXTS:
                r.append(("text", p, depth))
            elif b.op == "val" and isinstance(b.args[0], U) and b.args[0].op == "arg" or b.op == "os.path.basename":
                r.append(("name", p, depth))
            else:
                r.append(("other", p, depth))
        else:
            r.append(("other", p, depth))
    return r


def merged_lits(xs):
    r = []
    for x in xs:
        if r and x[0] == r[-1][0] == "lit" and x[2] == r[-1][2]:
            r[-1] = ("lit", r[-1][1] + x[1], x[2])
        else:
            r.append(x)
    return r


def origin(p):
    """(what, key) of the piece of model text, e.g. ("diff", (parent, into))."""
    todo, seen = [p], set()
    while todo:
        x = todo.pop()
        if isinstance(x, (Sl, JL, Cat)):
            x = x.base
        if isinstance(x, S):
            todo += list(x.parts)
        if isinstance(x, Base):
            if x.op and x.op.startswith("piece of "):
                k = tuple(a for a in x.args if isinstance(a, S) and not (len(a.parts) == 1 and isinstance(a.parts[0], Lit)))
                return x.op[9:], k
            if id(x) not in seen:
                seen.add(id(x))
                todo += list(x.args or ())
    return None


def contents_of(it, st, q):
    """The file name of which a text or token sequence is the whole contents."""
    q = M.seqv(it, st, q)
    while q is not None and len(q.parts) == 1 and isinstance(q.parts[0], Sl) and seq._whole(st.num, q.parts[0]):
        b = q.parts[0].base
        if b.op == "contents":
            return b.args[0]
        if b.op not in ("tokens", "decode") or not isinstance(b.args[0], S):
            return None
        q = b.args[0]
    return None


def arg_name(v):
    """The option or argument a file name comes from."""
    if isinstance(v, S) and len(v.parts) == 1 and isinstance(v.parts[0], Sl):
        b = v.parts[0].base
        if b.op in ("val", "os.path.basename"):
            return arg_name(b.args[0])
    if isinstance(v, U) and v.op == "arg":
        return v.args[0].v
    return None


def wants_lines(combo):
    return bool(combo.get("--show-lines") or combo.get("--git-compatible"))
