"""C16: a failed addition leaves earlier versions intact."""
from .versioning import *
from .c15 import SITUATIONS, setup

EXPLAIN = (
    "The evaluation of C15 with every call of the tokenizer, the diff, the patching and the serialization allowed to raise. For every path on which "
    "add ends with an exception, every version that was there before must have either its full copy and no parent, or a recorded parent and the delta "
    "from exactly that parent's contents to its own. One obligation per failure path and earlier version."
)


def situation(ctx, n):
    r = setup(ctx, n, True)
    if r is None:
        return
    S, tags, name, outs = r
    add = S.it.lookup(S.it.init, S.cls, "add")
    for s, r in outs:
        if not isinstance(r, Raise) or not feasible(s):
            continue
        w, x, _ = raise_where(S.it, s, r)
        op = next((e[3] for e in reversed(s.events()) if e[0] == "raise"), "?")
        for t in sorted(S.old, key=repr):
            bad = S.consistent(s, t)
            if bad is None:
                ctx.good("intact", f"{name}, failure at {w}: {t!r}")
            elif exact(s):
                ctx.violation("intact", f"{name}:{t!r}:{op}", f"when {name} fails, {t!r} {bad}", w or where_fn(add), path_of(s))
            else:
                ctx.undecided("intact", f"{name}:{t!r}", bad)
    ctx.absorb(S.it)


def check(ctx):
    ctx.parallel([("intact", situation, n) for n in range(len(SITUATIONS))])
