"""C33: retrieval applies the deltas along the path in order."""
from .versioning import *

EXPLAIN = (
    "Retrieval is evaluated on explicit paths of 1 to 5 versions with opaque tags and contents; deltas, encodings and patched contents are terms. The "
    "result has to be the term of the contents of the version asked for, which arises only if the full copy of the first version on the path is "
    "encoded, the deltas of the others are applied to it in path order, each with its literals encoded by the same tokenizer, and the result is decoded. "
    "An unknown tag has to give None."
)


def retrieval(ctx, n):
    S = Store(ctx)
    path = ("v1", "v2", "v3", "v4", "v5")[:n]
    got = S.situation((path, ("o", "q")) if n else ())
    s0, v, tags = got
    get = S.it.getattr(s0, v, "get", S.fr, None)
    if len(get) != 1 or isinstance(get[0][1], Raise):
        raise Anchor("Versions.get does not exist")
    f = S.it.lookup(s0, S.cls, "get")
    for name in path + ("stranger",):
        what = f"version {path.index(name) + 1} of a path of {n}" if name in path else f"an unknown version ({'empty store' if not n else 'other versions present'})"
        for s, r in S.it.call(s0.copy(), get[0][1], [tags[name]], {}, S.fr, None):
            if not feasible(s):
                continue
            if isinstance(r, Raise):
                w, x, _ = raise_where(S.it, s, r)
                if exact(s):
                    ctx.violation("retrieve", f"{what}:{x}", f"retrieving {what} fails with {x}", w, path_of(s))
                else:
                    ctx.undecided("retrieve", what, f"may fail with {x}")
                continue
            good = r == NONE if name == "stranger" else isinstance(r, V) and same_seq(s, r, S.content(tags[name]))
            if good:
                ctx.good("retrieve", what)
            elif exact(s, r):
                why = "; ".join(e[1] for e in odd(s))
                ctx.violation("retrieve", what, f"retrieving {what} gives {describe(r)}" + (f" ({why})" if why else ""), where_fn(f), path_of(s))
            else:
                ctx.undecided("retrieve", what, describe(r))
        for m, want in (("__contains__", name in path),):
            fm = S.it.getattr(s0, v, m, S.fr, None)
            if len(fm) == 1 and not isinstance(fm[0][1], Raise):
                for s, r in S.it.call(s0.copy(), fm[0][1], [tags[name]], {}, S.fr, None):
                    if r == (TRUE if want else FALSE):
                        ctx.good("known", what)
                    elif exact(s) and isinstance(r, C) and feasible(s):
                        ctx.violation("known", what, f"membership of {what} is {r!r}", where_fn(S.it.lookup(s0, S.cls, m)), path_of(s))
    ctx.absorb(S.it)


def check(ctx):
    ctx.parallel([("retrieve", retrieval, n) for n in range(6)])
