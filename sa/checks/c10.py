"""C10: calls are independent of earlier calls."""
from . import effects
from .effects import *

EXPLAIN = (
    "Ownership and effect analysis: all objects that exist after the import of the package (default arguments, module and class level tables, function attributes, instances made at "
    "import) are owned by the module; every public operation of search, diff, merge, line view, rendering, tokenizers, serialization and version storage is evaluated by abstract "
    "interpretation, and every store, deletion, mutating call, assignment to a global name and memoized function on the way is attributed to the owner of what it changes, through any "
    "aliases. A change to something owned by the module is a violation: a later call could see it."
)


def remembered_mutable(r, f):
    """Does a function that remembers its results give objects that can be
    changed, or take arguments that are equal without being the same
    (numbers, sequences of opaque tokens)?"""
    for e in r.returned.get(id(f.node), ()):
        if isinstance(e, Ref):
            return True
    return any(isinstance(a, I) or isinstance(a, S) and a.kind == "tuple" and a.parts for a in r.passed.get(id(f.node), ()))


def judge(ctx, r):
    ctx.good("independent", r.name, len(r.results))
    for e, st, path in r.events.values():
        if e[0] == "mut" and e[2] == "module":
            w = e[4]
            if e[3] == "cache" and isinstance(e[1], Fn) and not remembered_mutable(r, e[1]):
                ctx.undecided("independent", f"cache of {e[1].qual}", "remembers results; whether equal arguments always are interchangeable is not decided")
                continue
            what = f"the memory of {e[1].qual}" if e[3] == "cache" and isinstance(e[1], Fn) else "state shared by all calls"
            ctx.violation("independent", f"{e[3]} {w.split(' in ')[-1]}", f"{r.name}: {what} is changed ({e[3]})", "src/" + w, path)
        elif e[0] == "globalwrite":
            ctx.violation("independent", f"global {e[2]}", f"{r.name}: the global name {e[2]} is assigned", "src/" + e[3], path)


def check(ctx):
    effects.run(ctx, judge, "independent")
