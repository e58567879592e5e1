"""C05: applying a patch rebuilds its target in both directions."""
from .contracts import *

EXPLAIN = (
    "The changeset of two opaque sequences is computed symbolically (search replaced by its contract, recursion by structural induction), turned into "
    "the forward and reverse patch and applied. The result must be, part by part, the other sequence, where copied parts are rewritten through the "
    "match they come from. Decided for str, bytes and tuples and every emptiness of the parts; the patch as it is kept by the version store "
    "(list of the stripped stream) included."
)


def one(ctx, kind, way):
    it = ctx.interp()
    it.max_states, it.unroll = 3000, 14
    lcs_contract(it, 2)
    fr = top_frame(it)
    find = ctx.fn(it, "changesets", "find_changeset")
    strip = ctx.fn(it, "changesets", "strip_" + way)
    app = ctx.fn(it, "changesets", "apply")
    conv = ctx.fn(it, "changesets", "apply_" + way, False)
    O, Mb = base("original", kind), base("modified", kind)
    src, dst = (O, Mb) if way == "forward" else (Mb, O)

    def verdict(x, r, name):
        if isinstance(r, Raise):
            if exact(x) and feasible(x):
                w, n, _ = raise_where(it, x, r)
                ctx.violation("apply", f"{name}:raises {n}", f"{name} raises {n} for {kind}", w, path_of(x))
            else:
                ctx.undecided("apply", f"{name} {kind}", "may raise: " + ", ".join(x.imp))
            return
        q = M.seqv(it, x, r)
        if q is not None:
            q = translate(x, q, src, dst)
        if q is not None and q.kind == kind and seq.same(x.num, q, dst.seq()):
            ctx.good("apply", f"{name} {kind}")
        elif not exact(x, r) or not feasible(x) or q is None and not isinstance(r, C):
            ctx.undecided("apply", f"{name} {kind}", f"gives {describe(r)}; " + ", ".join(x.imp))
        else:
            ctx.violation("apply", f"{name}", f"{name} ({kind}) gives {describe(q or r)} instead of the {'second' if way == 'forward' else 'first'} sequence", where_fn(app), path_of(x))

    for s, cs in it.call(it.start(), find, [O.seq(), Mb.seq()], {}, fr, None):
        if isinstance(cs, Raise):
            ctx.undecided("apply", "find_changeset", "may raise")
            continue
        for t, stream in it.getattr(s, cs, "as_change_stream", fr, None):
            for u, changes in it.call(t, stream, [], {}, fr, None):
                v = u.copy()
                for w, patch in it.call(u, strip, [changes], {}, fr, None):
                    for x, r in it.call(w, app, [patch, src.seq()], {}, fr, None):
                        verdict(x, r, f"apply(strip_{way})")
                if conv is not None and kind == "tuple":
                    for x, r in it.call(v, conv, [changes, src.seq()], {}, fr, None):
                        verdict(x, r, f"apply_{way}")
    ctx.absorb(it)


def check(ctx):
    for kind in KINDS:
        for way in ("forward", "reverse"):
            ctx.part("apply", one, ctx, kind, way)
