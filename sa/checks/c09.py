"""C09: inputs are never modified."""
from . import effects
from .effects import *

EXPLAIN = (
    "Ownership and effect analysis: every public search, diff, patch, merge, line view, rendering, tokenizer and serialization operation is evaluated by abstract interpretation with "
    "objects that belong to the caller (lists of tokens, streams, patches, changesets, built automata, markup tables); every store, deletion and mutating method call on the way is "
    "attributed to the owner of the object it changes, through any aliases. A change to an object of the caller is a violation. Diffs, changesets and patches are taken over sequences "
    "of any length with any match, the rest over explicit inputs that take the different paths."
)


def names(r, x):
    return r.inputs.get(x.id, "an object of the caller") if isinstance(x, Ref) else repr(x)


def judge(ctx, r):
    ctx.good("unmodified", r.name, len(r.results))
    for e, st, path in r.events.values():
        if e[0] == "mut" and e[2] == "input":
            if e[3] in ("next", "consume"):
                continue
            w = "src/" + e[4]
            ctx.violation("unmodified", f"{e[3]} {e[4].split(' in ')[-1]}", f"{r.name}: {names(r, e[1])} is changed ({e[3]})", w, path)
        elif e[0] == "mut" and e[2] == "opaque" or e[0] == "opaquecall" and isinstance(e[1], Meth) and e[1].name in MUTATORS:
            ctx.undecided("unmodified", f"{r.name}: {e[-1] if isinstance(e[-1], str) else e[4]}", "changes an object that is not known")
        elif e[0] == "mut" and e[2] == "module" and r.name.startswith("markup"):
            # the tables handed in
            ctx.violation("unmodified", f"{e[3]} {e[4].split(' in ')[-1]}", f"{r.name}: a markup table handed in is changed ({e[3]})", "src/" + e[4], path)


def check(ctx):
    effects.run(ctx, judge, "unmodified")
