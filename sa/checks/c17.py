"""C17: re-parenting keeps the in-memory tree consistent."""
from .util import *
from .trees import HISTORIES, history, more_histories
from ..report import Anchor

EXPLAIN = (
    "Shape analysis of the tree update. The part of the tree around the moved version is explicit (up to three ancestors above the former and the new "
    "parent, shared or not, each with a further child); tags are opaque, the heights and sizes of the outermost versions are abstract integers, so "
    "that each stands for a subtree of any size, and those of the others satisfy the invariant (each choice of the highest child is a case). After every path of the update, parent and child fields are compared with the change "
    "asked for, and height and size of both parents and all their ancestors must be linear forms equal to 1 plus the maximum and 1 plus the sum over their children. "
    "The path of a version is checked on explicit chains of opaque tags. Histories of additions and re-parentings, with opaque tags and with explicit ones that look alike, "
    "must show the paths, membership, base versions and split points of the history."
)

# (parents of the situation, moved version, new parent)
SHAPES = [
    ("a version without parent", {"n1": None, "t": None}, "n1"),
    ("a version without parent, new parent with ancestors", {"n3": None, "n2": "n3", "n1": "n2", "s1": "n1", "s2": "n2", "s3": "n3", "t": None}, "n1"),
    ("between separate trees", {"o2": None, "o1": "o2", "so1": "o1", "so2": "o2", "n2": None, "n1": "n2", "sn1": "n1", "sn2": "n2", "t": "o1"}, "n1"),
    ("away from a parent with no other child", {"o3": None, "o2": "o3", "o1": "o2", "n1": None, "t": "o1"}, "n1"),
    ("up to the parent's parent", {"o3": None, "o2": "o3", "o1": "o2", "so1": "o1", "so2": "o2", "so3": "o3", "t": "o1"}, "o2"),
    ("up to the root", {"o3": None, "o2": "o3", "o1": "o2", "so1": "o1", "so2": "o2", "t": "o1"}, "o3"),
    ("down to a former sibling", {"r": None, "o1": "r", "n1": "o1", "sn1": "n1", "so1": "o1", "t": "o1"}, "n1"),
    ("to a cousin", {"r": None, "o1": "r", "n1": "r", "so1": "o1", "sn1": "n1", "t": "o1"}, "n1"),
    ("to its own parent", {"r": None, "o1": "r", "so1": "o1", "t": "o1"}, "o1"),
    ("first child of several", {"o1": None, "n1": None, "t": "o1", "x": "o1", "y": "o1"}, "n1"),
    ("middle child of several, with children of its own", {"o1": None, "n1": None, "x": "o1", "t": "o1", "y": "o1", "c": "t", "d": "t"}, "n1"),
    ("to no parent", {"o2": None, "o1": "o2", "so1": "o1", "so2": "o2", "t": "o1"}, None),
]


def fields(it, st, tree):
    """{tag: (reference, node object)} of the tree object."""
    nodes = st.obj(tree).f.get("nodes")
    if not isinstance(nodes, Ref) or st.obj(nodes).kind != "dict":
        raise Anchor("MemoryTree.nodes is not a dictionary")
    r = {}
    for k, v in st.obj(nodes).f["ents"]:
        if v is not None:
            if not (isinstance(v, Ref) and st.obj(v).kind == "inst"):
                raise Anchor("the nodes of MemoryTree are not objects")
            for n in ("parent", "children", "height", "size"):
                if n not in st.obj(v).f:
                    raise Anchor(f"nodes of MemoryTree have no {n}")
            r[k] = v
    return r


def tags_of(names, st, extra=()):
    tags = {n: U("tag:" + n, (), None) for n in list(names) + list(extra)}
    for a in tags.values():
        st.facts[("none", a)] = False
        for b in tags.values():
            if a is not b:
                st.facts[M.eqkey(a, b)] = False
    return tags


def build(ctx, parents):
    it = ctx.interp()
    it.unroll = 24
    it.max_states = 4000
    cls = ctx.fn(it, "memory_tree", "MemoryTree")
    fr = top_frame(it)
    st = it.start()
    tags = tags_of(parents, st, ["stranger"])
    (st, tree), = it.call(st, cls, [], {}, fr, None)
    for n in parents:
        (st, add), = it.getattr(st, tree, "add", fr, None)
        outs = it.call(st, add, [tags[n]], {}, fr, None)
        if len(outs) != 1 or isinstance(outs[0][1], Raise):
            raise Anchor("MemoryTree.add cannot be evaluated")
        st = outs[0][0]
    nodes = fields(it, st, tree)
    ht, sz = {}, {}
    for n, p in parents.items():
        ref = nodes[tags[n]]
        kids = [One(tags[c]) for c, q in parents.items() if q == n]
        o = st.obj(ref)
        l = o.f["children"]
        if not isinstance(l, Ref) or st.obj(l).kind not in ("list", "set"):
            raise Anchor("the children of a node of MemoryTree are not a list")
        st.put(l, st.obj(l).set(seq=S("list", kids)))
        st.put(ref, o.put("parent", tags[p] if p else NONE))
    # metrics, from the outermost versions up
    cases = [(st, {}, {})]
    for n in sorted(parents, key=lambda n: len(ancestors(parents, n)), reverse=True):
        cs = [c for c, q in parents.items() if q == n]
        nxt = []
        for s, ht, sz in cases:
            if not cs:
                nxt.append((s, dict(ht, **{n: Lin.of(Atom(f"height({n})", 1))}), dict(sz, **{n: Lin.of(Atom(f"size({n})", 1))})))
                continue
            for k, c in enumerate(cs):
                x = s.copy()
                if all(x.assume_ge0(ht[c] - ht[d] - (1 if m < k else 0)) for m, d in enumerate(cs) if d != c):
                    nxt.append((x, dict(ht, **{n: ht[c] + 1}), dict(sz, **{n: sum((sz[d] for d in cs), ONE)})))
        cases = nxt
    out = []
    for s, ht, sz in cases:
        for n in parents:
            ref = nodes[tags[n]]
            s.put(ref, s.obj(ref).put("height", I(s.num.norm(ht[n]))).put("size", I(sz[n])))
        out.append(s)
    return it, out, tree, tags, fr


def children(st, ref):
    l = st.obj(ref).f["children"]
    q = st.obj(l).f["seq"] if isinstance(l, Ref) and st.obj(l).kind in ("list", "set") else as_seq(l)
    return M.explicit(q) if q is not None else None


def ancestors(par, n):
    r = []
    while n is not None and n not in r:
        r.append(n)
        n = par[n]
    return r


def move(ctx, k):
    what, parents, new = SHAPES[k]
    it, sts, tree, tags, fr = build(ctx, parents)
    for st in sts:
        move_in(ctx, it, st, tree, tags, fr, what, parents, new)
    ctx.absorb(it)


def move_in(ctx, it, st, tree, tags, fr, what, parents, new):
    back = {v: k for k, v in tags.items()}
    old = parents["t"]
    want = dict(parents, t=new)
    base = {n: st.obj(r).f.get("base_version") for n, r in ((back[k], r) for k, r in fields(it, st, tree).items())}
    (st, f), = it.getattr(st, tree, "change_parent", fr, None)
    if isinstance(f, Raise):
        raise Anchor("MemoryTree.change_parent does not exist")
    fn = where_fn(it.lookup(st, ctx.fn(it, "memory_tree", "MemoryTree"), "change_parent"))
    redo = set(ancestors(want, new)) | set(ancestors(want, old))
    for s, r in it.call(st, f, [tags["t"], tags[new] if new else NONE], {}, fr, None):
        if not feasible(s):
            continue
        if isinstance(r, Raise):
            w, x, _ = raise_where(it, s, r)
            if exact(s):
                ctx.violation("move", f"{what}:{x}", f"moving a version {what} fails with {x}", w, path_of(s))
            else:
                ctx.undecided("move", what, f"may fail with {x}")
            continue
        nodes = fields(it, s, tree)

        def bad(rule, n, msg):
            if exact(s):
                ctx.violation(rule, f"{what}:{n}", f"after moving a version {what}: {msg}", fn, path_of(s))
            else:
                ctx.undecided(rule, f"{what}:{n}", msg)

        if {back.get(t) for t in nodes} != set(parents):
            bad("links", "nodes", "the versions of the tree are " + ", ".join(map(repr, nodes)))
            continue
        par = {back[t]: (back.get(s.obj(r).f["parent"]) if s.obj(r).f["parent"] != NONE else None) for t, r in nodes.items()}
        kids = {back[t]: children(s, r) for t, r in nodes.items()}
        for n in parents:
            if par[n] != want[n]:
                bad("links", n, f"the parent of {n} is {par[n]} instead of {want[n]}")
            exp = sorted(c for c, q in want.items() if q == n)
            got = sorted(back.get(c, "?") for c in kids[n]) if kids[n] is not None else None
            if got != exp:
                bad("links", n + " children", f"the children of {n} are {got} instead of {exp}")
            if s.obj(nodes[tags[n]]).f.get("base_version") != base[n]:
                bad("links", n + " base", f"the base version of {n} is lost")
            if par[n] == want[n] and got == exp:
                ctx.good("links", f"{what}: {n}")
        for n in sorted(redo):
            o = s.obj(nodes[tags[n]])
            h, z = M.int_lin(it, s, o.f["height"]), M.int_lin(it, s, o.f["size"])
            cs = [c for c, q in want.items() if q == n]
            ch = [M.int_lin(it, s, s.obj(nodes[tags[c]]).f["height"]) for c in cs]
            cz = [M.int_lin(it, s, s.obj(nodes[tags[c]]).f["size"]) for c in cs]
            if None in ch or None in cz or h is None or z is None:
                ctx.undecided("metrics", f"{what}:{n}", "metrics not numeric")
                continue
            d = z - ONE - sum(cz, ZERO)
            if s.num.is0(d) is True:
                ctx.good("metrics", f"{what}: size of {n}")
            else:
                bad("metrics", n + " size", f"the size of {n} is {s.num.norm(z)!r} instead of 1 plus the sizes of its children {cs}")
            top = h - ONE
            if not ch:
                ok = s.num.is0(top) is True
                no = not ok
            else:
                ge = all(s.num.ge0(top - c) is True for c in ch)
                eq = any(s.num.is0(top - c) is True for c in ch)
                ok = ge and eq
                # not the maximum: above all of them, or below one
                no = any(s.num.ge0(c - top - 1) is True for c in ch) or all(s.num.ge0(top - c - 1) is True for c in ch)
                if not ok and not no:
                    no = any(_possible(s, c - top - 1) for c in ch)
            if ok:
                ctx.good("metrics", f"{what}: height of {n}")
            elif no:
                bad("metrics", n + " height", f"the height of {n} is {s.num.norm(h)!r}, not 1 plus the largest height of its children {cs}")
            else:
                ctx.undecided("metrics", f"{what}:{n} height", f"{h!r} against {ch!r}")


def _possible(s, lin):
    x = s.copy()
    return x.assume_ge0(lin) and feasible(x)


def paths(ctx):
    names = ["v1", "v2", "v3", "v4", "v5"]
    for n in range(1, 6):
        parents = {x: (names[k - 1] if k else None) for k, x in enumerate(names[:n])}
        it, (st,), tree, tags, fr = build(ctx, parents)
        (st, f), = it.getattr(st, tree, "path_to", fr, None)
        if isinstance(f, Raise):
            raise Anchor("MemoryTree.path_to does not exist")
        fn = where_fn(it.lookup(st, ctx.fn(it, "memory_tree", "MemoryTree"), "path_to"))
        for x in names[:n] + ["stranger"]:
            for s, r in it.call(st.copy(), f, [tags[x]], {}, fr, None):
                if not feasible(s):
                    continue
                want = None if x == "stranger" else [tags[y] for y in names[: names.index(x) + 1]]
                got = None if r == NONE else "raise" if isinstance(r, Raise) else items(it, s, r) or []
                what = "an unknown version" if x == "stranger" else f"version {names.index(x) + 1} of a chain"
                if got == want:
                    ctx.good("path", what)
                elif exact(s):
                    ctx.violation("path", what, f"the path to {what} is {'an exception' if got == 'raise' else describe(r)}", fn, path_of(s))
                else:
                    ctx.undecided("path", what, describe(r) if isinstance(r, V) else "may fail")
        ctx.absorb(it)


def check(ctx):
    hs = HISTORIES + more_histories(6 if ctx.tier == "quick" else 9)
    ctx.parallel([("path", paths)] + [("links", move, k) for k in range(len(SHAPES))]
                 + [("history", history, w, ops, True, e, "memory_tree", "MemoryTree") for w, ops in hs for e in (False, True)])
