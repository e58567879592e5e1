"""C15: each stored delta leads from its recorded parent to its version."""
from .versioning import *

EXPLAIN = (
    "Provenance analysis of the stored deltas. The store is evaluated on explicit trees (no head, an unrelated head, and a head whose path to the "
    "split has 1 to 4 versions), with opaque tags and contents; tokenizer, diff, serialization and tree are replaced by terms that keep what they "
    "were computed from. After every path of add, the delta stored for every version must be the term made from the contents of the version recorded "
    "as its parent and its own contents, literals decoded by the tokenizer that encoded both sides; on the way a full copy may only be removed after the delta was stored."
)

SITUATIONS = [((), None), ((("o", "q"),), None)] + [
    ((("h", "p1", "p2", "p3")[:n], ("o", "q")), "h") for n in (1, 2, 3, 4)
]


def order(ctx, S, s, what):
    stored = {k for k, v in S.initial_diffs}
    for e in s.events():
        if e[0] == "setitem" and e[1] == S.diffs:
            stored.add(e[2])
        elif e[0] == "delitem" and e[1] == S.head:
            if e[2] not in stored and e[2] in S.old:
                if exact(s) and feasible(s):
                    ctx.violation("order", f"{what}:{e[2]!r}", f"{what}: the full copy of {e[2]!r} is removed before a delta is stored for it", "src/" + e[3], path_of(s))
            else:
                ctx.good("order", "a full copy is removed after its delta was stored")


def setup(ctx, n, fail=False):
    roots, head = SITUATIONS[n]
    S = Store(ctx, fail)
    got = S.situation(roots)
    if got is None or isinstance(got[1], Raise):
        ctx.undecided("situation", n, "the store cannot be set up")
        return None
    s0, v, tags = got
    S.initial_diffs = s0.obj(S.diffs).f["ents"]
    S.old = set(s0.facts[("T", "nodes")])
    name = "add on " + (f"a head with a split {len(roots[0])} versions down" if head else "no version" if roots else "an empty store")
    add = S.it.getattr(s0, v, "add", S.fr, None)
    if len(add) != 1 or isinstance(add[0][1], Raise):
        raise Anchor("Versions.add does not exist")
    args = [tags["new"], S.content(tags["new"])] + ([tags[head]] if head else [])
    outs = S.it.call(s0, add[0][1], args, {}, S.fr, None)
    return S, tags, name, outs


def situation(ctx, n):
    r = setup(ctx, n)
    if r is None:
        return
    S, tags, name, outs = r
    for s, r in outs:
        if not feasible(s):
            continue
        if isinstance(r, Raise):
            if exact(s):
                w, x, _ = raise_where(S.it, s, r)
                ctx.violation("add", f"{name}:{x}", f"{name} fails with {x}", w, path_of(s))
            else:
                ctx.undecided("add", name, "may fail")
            continue
        order(ctx, S, s, name)
        for e in odd(s):
            if exact(s):
                ctx.violation("provenance", f"{name}:{e[1]}", f"{name}: {e[1]}", "src/" + e[2], path_of(s))
        nodes = s.facts[("T", "nodes")]
        if tags["new"] not in nodes:
            if exact(s):
                ctx.violation("add", f"{name}:missing", f"{name} does not put the new version into the tree", where_fn(S.it.lookup(s, S.cls, "add")), path_of(s))
            continue
        for t in nodes:
            w = S.consistent(s, t)
            if w is None:
                ctx.good("provenance", f"{name}: {t!r}")
            elif exact(s):
                ctx.violation("provenance", f"{name}:{t!r}", f"after {name}, {t!r} {w}", where_fn(S.it.lookup(s, S.cls, "add")), path_of(s))
            else:
                ctx.undecided("provenance", f"{name}:{t!r}", w)
    ctx.absorb(S.it)


def check(ctx):
    ctx.parallel([("provenance", situation, n) for n in range(len(SITUATIONS))])
