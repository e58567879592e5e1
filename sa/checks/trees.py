"""Histories of the database tree."""
from .db import *

# version n is added with what the version store does for it: a split version
# is moved below it first, then the former head
HISTORIES = [
    ("one version", [("add", "v1", None)]),
    ("a chain", [("add", "v1", None), ("add", "v2", "v1"), ("change_parent", "v1", "v2"), ("add", "v3", "v2"), ("change_parent", "v2", "v3")]),
    ("two heads", [("add", "v1", None), ("add", "w1", None), ("add", "v2", "v1"), ("change_parent", "v1", "v2"), ("add", "w2", "w1"), ("change_parent", "w1", "w2")]),
    ("a split", [("add", "v1", None), ("add", "v2", "v1"), ("change_parent", "v1", "v2"), ("add", "v3", "v2"), ("change_parent", "v1", "v3"), ("change_parent", "v2", "v3")]),
    ("splits in a longer chain", [
        ("add", "v1", None), ("add", "v2", "v1"), ("change_parent", "v1", "v2"), ("add", "v3", "v2"), ("change_parent", "v1", "v3"), ("change_parent", "v2", "v3"),
        ("add", "v4", "v3"), ("change_parent", "v2", "v4"), ("change_parent", "v3", "v4"), ("add", "v5", "v4"), ("change_parent", "v1", "v5"), ("change_parent", "v4", "v5")]),
]


class Tree:
    def __init__(self, ctx, fresh=True, names=(), explicit=False, mod="db_tree", cls="DBTree"):
        self.ctx, self.mod, self.cls = ctx, mod, cls
        self.d = Database(ctx, fresh)
        self.st = self.d.it.start()
        names = sorted({op[1] for _, h in HISTORIES for op in h} | {"stranger", "other0", "other1", "other2"} | set(names))
        self.tags = distinct(self.st, names)
        if isinstance(explicit, dict):
            self.tags = {n: explicit.get(n, C(n)) for n in self.tags}
        elif explicit:
            # values that look alike or count as false come first
            odd = [C(""), I(0), C("0"), C(b""), C("00"), C(b"0"), I(10), C("x"), C("X"), I(-1)]
            self.tags = {n: C(n) for n in self.tags}
            for i, n in enumerate(sorted(set(names) - {"stranger"}, key=lambda n: (len(n), n))):
                self.tags[n] = odd[i] if i < len(odd) else C(n)

    def tag(self, n):
        return self.tags[n] if n is not None else NONE

    def new(self):
        s, self.obj = self.d.one(self.make(), self.cls + "()")
        return s

    def make(self):
        if self.mod == "db_tree":
            return self.d.make(self.st, self.mod, self.cls)
        return self.d.it.call(self.st, self.ctx.fn(self.d.it, self.mod, self.cls), [], {}, self.d.fr, None)

    def apply(self, s, op):
        return self.d.op(s, self.obj, op[0], self.tag(op[1]), self.tag(op[2]))

    def where(self, name):
        return self.d.where(self.mod, self.cls, name)


class Reference:
    """The tree a history describes."""

    def __init__(self):
        self.parent, self.base = {}, {}

    def apply(self, op):
        what, n, x = op
        if what == "add":
            self.parent[n] = None
            self.base[n] = x
        else:
            self.parent[n] = x

    def path(self, n):
        r = []
        while n is not None:
            r.append(n)
            n = self.parent[n]
        return r[::-1]

    def height(self, n):
        return 1 + max([self.height(c) for c, p in self.parent.items() if p == n], default=0)

    def split(self, n):
        """The version in the middle of the way down to a leaf by the highest
        child, the one added last among several, and the way to it."""
        path = [n]
        order = list(self.parent)
        while len(path) < self.height(n):
            kids = [c for c, p in self.parent.items() if p == n]
            n = max(kids, key=lambda c: (self.height(c), order.index(c)))
            path.append(n)
        return n, path


def version_store(heads):
    """The operations of the version store that adds v0, v1, ... each to the
    head that is given (None for a new root)."""
    ref, ops = Reference(), []

    def do(*op):
        ops.append(op)
        ref.apply(op)

    for k, h in enumerate(heads):
        n = f"v{k}"
        h = None if h is None else f"v{h}"
        do("add", n, h)
        if h is None:
            continue
        split, _ = ref.split(h)
        if split != h:
            do("change_parent", split, n)
        do("change_parent", h, n)
    return ops


def chain(n):
    ops = [("add", "v0", None)]
    for k in range(1, n):
        ops += [("add", f"v{k}", f"v{k - 1}"), ("change_parent", f"v{k - 1}", f"v{k}")]
    return ops


# a version below which the higher branch is the older, or the newer, one
OLDER = [("add", n, None) for n in "abcder"] + [("change_parent", x, y) for x, y in ("ab", "bc", "cr", "de", "dr")]
NEWER = [("add", n, None) for n in "eabcdr"] + [("change_parent", x, y) for x, y in ("ab", "bc", "er", "cd", "cr")]


def more_histories(n):
    return [
        (f"a chain of {2 * n} versions", chain(2 * n)), ("an older, higher branch", OLDER), ("a newer, higher branch", NEWER),
        (f"a branch of {n} versions", version_store([None] + list(range(n - 1)))),
        ("two interleaved branches", version_store([None, None] + list(range(n)))),
        ("a long and a short branch", version_store([None, 0, 1, None, 2, 3, 4][: n + 1])),
    ]


def history(ctx, what, ops, fresh, explicit=False, mod="db_tree", cls="DBTree"):
    t = Tree(ctx, fresh, {o[1] for o in ops}, explicit, mod, cls)
    if explicit:
        what += ", tags that look alike" if explicit is True else ", " + ", ".join(f"{n} being {describe(v)}" for n, v in explicit.items())
    d, it = t.d, t.d.it
    s = t.new()
    ref = Reference()
    for op in ops:
        outs = t.apply(s, op)
        for x, r in outs:
            if isinstance(r, Raise):
                w, n, _ = raise_where(it, x, r)
                if exact(x):
                    ctx.violation("history", f"{op[0]}: {n}", f"{op[0]}({op[1]}, {op[2]}) in {what} fails with {n}", w, path_of(x))
                else:
                    ctx.undecided("history", op[0], n)
        outs = [x for x, r in outs if not isinstance(r, Raise)]
        if len(outs) != 1:
            if outs:
                ctx.undecided("history", op[0], f"{len(outs)} outcomes")
            return
        s = outs[0]
        ref.apply(op)
        observe(ctx, t, s, ref, what)
    ctx.absorb(it)


def observe(ctx, t, s, ref, what):
    d, it = t.d, t.d.it

    def bad(x, rule, name, msg, *vals):
        if exact(x, *vals):
            ctx.violation(rule, f"{name}", f"in {what}: {msg}", t.where(name), path_of(x))
        else:
            ctx.undecided(rule, name, msg)

    back = {v: n for n, v in t.tags.items()}
    for n in list(ref.parent) + ["stranger"]:
        known = n in ref.parent
        for name in ("path_to", "reverse_path_to"):
            if it.lookup(s, ctx.fn(it, t.mod, t.cls), name) is None:
                continue
            want = ref.path(n) if known else None
            if want and name == "reverse_path_to":
                want = want[::-1]
            for x, r in d.op(s.copy(), t.obj, name, t.tag(n)):
                if isinstance(r, Raise):
                    bad(x, "path", name, f"{name}({n}) fails with {d.name(x, r)}")
                    continue
                l = None if r == NONE else items(it, x, r)
                got = None if r == NONE else [back.get(v, describe(v)) for v in l] if l is not None else "?"
                if got == want:
                    ctx.good("path", f"{name} of {'a version' if known else 'an unknown version'} in {what}")
                else:
                    bad(x, "path", name, f"{name}({n}) is {got} instead of {want}", r)
        for x, r in d.op(s.copy(), t.obj, "__contains__", t.tag(n)):
            for y, b in ([(x, r)] if isinstance(r, Raise) else it.truth(x, r, d.fr, None)):
                if b is known:
                    ctx.good("in", f"membership in {what}")
                else:
                    bad(y, "in", "__contains__", f"{n} in the tree is {b if not isinstance(b, Raise) else d.name(y, b)}")
        if not known:
            continue
        for x, r in d.op(s.copy(), t.obj, "base_version", t.tag(n)):
            if not isinstance(r, Raise) and r == t.tag(ref.base[n]):
                ctx.good("base", f"base version in {what}")
            else:
                bad(x, "base", "base_version", f"base_version({n}) is {d.name(x, r) if isinstance(r, Raise) else describe(r)} instead of {ref.base[n]}")
        tag, path = ref.split(n)
        for x, r in d.op(s.copy(), t.obj, "get_split", t.tag(n)):
            if isinstance(r, Raise):
                bad(x, "split", "get_split", f"get_split({n}) fails with {d.name(x, r)}")
                continue
            l = items(it, x, r)
            p = items(it, x, l[1]) if l is not None and len(l) == 2 else None
            if p is not None and l[0] == t.tag(tag) and [back.get(v) for v in p] == path:
                ctx.good("split", f"path to a split in {what}")
            else:
                bad(x, "split", "get_split", f"get_split({n}) is {describe(l[0]) if l else '?'} by {', '.join(map(describe, p or ()))} instead of {tag} by {', '.join(path)}", r)
