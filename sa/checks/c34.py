"""C34: re-parenting in the database tree updates the right rows."""
from .db import *
from .trees import Tree, HISTORIES, history, more_histories
from .c17 import ancestors, _possible
from .. import lib_sql

EXPLAIN = (
    "The statements of the tree are interpreted on an abstract table. (1) Shape analysis of re-parenting: the rows around the moved version are explicit (ancestors of the former "
    "and the new parent, shared or not, with further children in either place), tags are opaque, height and size of the outermost rows are abstract integers that stand for "
    "subtrees of any size; after every path the links of all rows must be those asked for and height and size of both parents and all their ancestors linear forms equal to 1 plus "
    "the maximum and 1 plus the sum over their children. (2) Histories of additions and re-parentings as the version store makes them, with opaque tags: paths, membership, "
    "base versions and the path searched for a split are those of the history."
)

# (situation, {version: (parent, place)}, moved, new parent)
SHAPES = [
    ("a version without parent, to a new version", {"n1": None, "t": None}, "n1"),
    ("a version without parent, to a version that has a split", {"n1": None, "x": ("n1", 1), "t": None}, "n1"),
    ("a version with children, to a new version", {"n1": None, "t": None, "a": ("t", 0), "b": ("t", 1)}, "n1"),
    ("a version without parent, to a version with ancestors", {"n3": None, "n2": ("n3", 0), "n1": ("n2", 1), "s2": ("n2", 0), "s3": ("n3", 1), "s1": ("n1", 1), "t": None}, "n1"),
    ("a head's child, to a new version", {"o1": None, "t": ("o1", 0), "n1": None}, "n1"),
    ("a head's split, to a new version", {"o1": None, "x": ("o1", 0), "t": ("o1", 1), "n1": None}, "n1"),
    ("a deep version, to a new version", {"o3": None, "o2": ("o3", 0), "o1": ("o2", 0), "t": ("o1", 0), "n1": None}, "n1"),
    ("a deep version with siblings, to a new version", {"o3": None, "o2": ("o3", 1), "s3": ("o3", 0), "o1": ("o2", 0), "s2": ("o2", 1), "t": ("o1", 0), "s1": ("o1", 1), "n1": None}, "n1"),
    ("a deep split with siblings, to a new version", {"o3": None, "o2": ("o3", 0), "s3": ("o3", 1), "o1": ("o2", 1), "s2": ("o2", 0), "t": ("o1", 1), "s1": ("o1", 0), "c": ("t", 0), "n1": None}, "n1"),
    ("between separate trees", {"o2": None, "o1": ("o2", 0), "so": ("o2", 1), "t": ("o1", 0), "n2": None, "n1": ("n2", 0), "sn": ("n2", 1), "x": ("n1", 0)}, "n1"),
    ("up to the parent's parent", {"o3": None, "o2": ("o3", 0), "so": ("o3", 1), "o1": ("o2", 0), "t": ("o1", 0), "s1": ("o1", 1)}, "o2"),
    ("up to the root", {"o3": None, "o2": ("o3", 0), "o1": ("o2", 0), "so": ("o2", 1), "t": ("o1", 1)}, "o3"),
    ("down to a former sibling", {"r": None, "o1": ("r", 0), "sr": ("r", 1), "n1": ("o1", 0), "sn": ("n1", 0), "t": ("o1", 1)}, "n1"),
    ("to a cousin", {"r": None, "o1": ("r", 1), "n1": ("r", 0), "so": ("o1", 0), "sn": ("n1", 0), "t": ("o1", 1)}, "n1"),
]
COLUMNS = ("tag", "parent", "parent_rid", "child0_rid", "child1_rid", "height", "size", "base_version")


def table_of(st):
    for t in lib_sql.saved(st):
        if all(n in t.names() for n in COLUMNS):
            return t
    return None


def cells(st):
    """{tag: (row number, {column: value})}"""
    t = table_of(st)
    return {v[t.index("tag")]: (rid, {n: v[t.index(n)] for n in t.names()}) for rid, v in t.rows}


def store(st, rows):
    t = table_of(st)
    new = t.with_rows([(rid, tuple(rows[v[t.index("tag")]].get(n, v[i]) for i, n in enumerate(t.names()))) for rid, v in t.rows])
    st.facts[lib_sql.SAVED] = tuple(new if x is t else x for x in lib_sql.saved(st))


def slots(ctx):
    """The columns for a child that had no parent, and for one that had."""
    t = Tree(ctx)
    s = t.new()
    for op in [("add", n, None) for n in ("other0", "other1", "other2")] + [("change_parent", "other0", "other1"), ("change_parent", "other0", "other2"),
                                                                              ("change_parent", "other1", "other2")]:
        outs = [(x, r) for x, r in t.apply(s, op) if not isinstance(r, Raise)]
        if len(outs) != 1:
            return ["child0_rid", "child1_rid"]
        s = outs[0][0]
    rows = cells(s)
    r = rows[t.tag("other2")][1]
    cols = [[c for c in ("child0_rid", "child1_rid") if r[c] == I(rows[t.tag(n)][0])] for n in ("other1", "other0")]
    return [c[0] for c in cols] if all(len(c) == 1 for c in cols) and cols[0] != cols[1] else ["child0_rid", "child1_rid"]


def build(ctx, shape, backwards):
    """-> (Tree, tags, states) with the shape in the table; None if rows are kept differently"""
    t = Tree(ctx)
    it = t.d.it
    it.max_states = 8000
    names = list(shape)
    if backwards:
        names.reverse()
    t.tags = tags = distinct(t.st, names + ["stranger"] + ["base:" + n for n in names])
    st = t.new()
    if table_of(st) is None:
        return None
    for n in names:
        st, _ = t.d.one(t.apply(st, ("add", n, "base:" + n)), "DBTree.add")
    places = slots(ctx)
    rid = {n: cells(st)[tags[n]][0] for n in names}
    par = {n: (p[0] if p else None) for n, p in shape.items()}
    rows = {tags[n]: {} for n in names}
    for n, p in shape.items():
        rows[tags[n]].update(parent=tags[p[0]] if p else NONE, parent_rid=I(rid[p[0]]) if p else NONE)
        if p:
            rows[tags[p[0]]][places[p[1]]] = I(rid[n])
    cases = [(st, {}, {})]
    for n in sorted(names, key=lambda n: len(ancestors(par, n)), reverse=True):
        cs = [c for c, q in par.items() if q == n]
        nxt = []
        for s, ht, sz in cases:
            if not cs:
                nxt.append((s, dict(ht, **{n: Lin.of(Atom(f"height({n})", 1))}), dict(sz, **{n: Lin.of(Atom(f"size({n})", 1))})))
                continue
            for k, c in enumerate(cs):
                x = s.copy()
                if all(x.assume_ge0(ht[c] - ht[d] - (1 if m < k else 0)) for m, d in enumerate(cs) if d != c):
                    nxt.append((x, dict(ht, **{n: ht[c] + 1}), dict(sz, **{n: sum((sz[d] for d in cs), ONE)})))
        cases = nxt
    out = []
    for s, ht, sz in cases:
        store(s, {tags[n]: dict(rows[tags[n]], height=I(s.num.norm(ht[n])), size=I(sz[n])) for n in names})
        out.append(s)
    return t, par, rid, out


def move(ctx, k, backwards):
    what, shape, new = SHAPES[k]
    b = build(ctx, shape, backwards)
    if b is None:
        ctx.undecided("links", "table", "the rows of the tree are kept in another form")
        return
    t, par, rid, sts = b
    for st in sts:
        moved(ctx, t, st, what, par, rid, new)
    ctx.absorb(t.d.it)


def moved(ctx, t, st, what, par, rid, new):
    d, tags = t.d, t.tags
    it = d.it
    back = {v: n for n, v in tags.items()}
    old = par["t"]
    want = dict(par, t=new)
    before = cells(st)
    redo = set(ancestors(want, new)) | set(ancestors(want, old))
    fn = t.where("change_parent")
    for s, r in d.op(st, t.obj, "change_parent", tags["t"], tags[new]):
        if isinstance(r, Raise):
            w, x, _ = raise_where(it, s, r)
            if exact(s):
                ctx.violation("move", f"{what}:{x}", f"moving {what} fails with {x}", w, path_of(s))
            else:
                ctx.undecided("move", what, f"may fail with {x}")
            continue

        def bad(rule, n, msg):
            if exact(s):
                ctx.violation(rule, f"{what}: {n}", f"moving {what}: {msg}", fn, path_of(s))
            else:
                ctx.undecided(rule, f"{what}: {n}", msg)

        if s.imp:
            ctx.undecided("links", what, ", ".join(sorted(map(str, s.imp))))
            continue
        if table_of(s) is None:
            bad("links", "table", "the table is gone")
            continue
        rows = cells(s)
        if {back.get(x) for x in rows} != set(par):
            bad("links", "rows", "the rows are those of " + ", ".join(map(describe, rows)))
            continue
        num = lambda v: M.int_lin(it, s, v)
        for n in par:
            r_, c = rows[tags[n]]
            p = want[n]
            exp = (tags[p], I(rid[p])) if p else (NONE, NONE)
            ok = True
            if r_ != rid[n] or c["base_version"] != before[tags[n]][1]["base_version"]:
                bad("links", n + " row", f"the row of {n} is replaced")
                ok = False
            if (c["parent"], c["parent_rid"]) != exp:
                bad("links", n, f"the parent of {n} is {describe(c['parent'])}, row {describe(c['parent_rid'])} instead of {p}")
                ok = False
            kids = sorted(repr(c[x]) for x in ("child0_rid", "child1_rid") if c[x] != NONE)
            wk = sorted(repr(I(rid[m])) for m, q in want.items() if q == n)
            if kids != wk:
                bad("links", n + " children", f"the links of {n} to its children are {', '.join(kids) or 'none'} instead of {', '.join(wk) or 'none'}")
                ok = False
            if ok:
                ctx.good("links", f"{what}: {n}")
            if n not in redo and (c["height"], c["size"]) != tuple(before[tags[n]][1][x] for x in ("height", "size")):
                h0, z0 = (num(before[tags[n]][1][x]) for x in ("height", "size"))
                h1, z1 = num(c["height"]), num(c["size"])
                if None in (h0, z0, h1, z1) or not (s.num.is0(h0 - h1) is True and s.num.is0(z0 - z1) is True):
                    bad("metrics", n + " unrelated", f"height and size of {n} change although nothing below it does")
        for n in sorted(redo):
            c = rows[tags[n]][1]
            h, z = num(c["height"]), num(c["size"])
            cs = [m for m, q in want.items() if q == n]
            ch = [num(rows[tags[m]][1]["height"]) for m in cs]
            cz = [num(rows[tags[m]][1]["size"]) for m in cs]
            if None in ch or None in cz or h is None or z is None:
                bad("metrics", n, f"height and size of {n} are {describe(c['height'])} and {describe(c['size'])}")
                continue
            if s.num.is0(z - ONE - sum(cz, ZERO)) is True:
                ctx.good("metrics", f"{what}: size of {n}")
            else:
                bad("metrics", n + " size", f"the size of {n} is {s.num.norm(z)!r} instead of 1 plus the sizes of its children {cs}")
            top = h - ONE
            if not ch:
                ok = s.num.is0(top) is True
                no = not ok
            else:
                ok = all(s.num.ge0(top - x) is True for x in ch) and any(s.num.is0(top - x) is True for x in ch)
                no = any(s.num.ge0(x - top - 1) is True for x in ch) or all(s.num.ge0(top - x - 1) is True for x in ch)
                if not ok and not no:
                    no = any(_possible(s, x - top - 1) for x in ch)
            if ok:
                ctx.good("metrics", f"{what}: height of {n}")
            elif no:
                bad("metrics", n + " height", f"the height of {n} is {s.num.norm(h)!r}, not 1 plus the largest height of its children {cs}")
            else:
                ctx.undecided("metrics", f"{what}: {n} height", f"{h!r} against {ch!r}")


def check(ctx):
    hs = HISTORIES + more_histories(6 if ctx.tier == "quick" else 9)
    ctx.parallel([("links", move, k, b) for k in range(len(SHAPES)) for b in (False, True)]
                 + [("history", history, w, ops, f) for w, ops in hs for f in (True, False)]
                 + [("history", history, w, ops, True, True) for w, ops in hs])
