"""C06: conflict alternatives belong to the right branch."""
from .merging import *

EXPLAIN = (
    "Provenance analysis of the whole merge. The parent and both branches are opaque sequences of any length; the search for common parts is replaced by "
    "its contract. For every combination of a common part (or none) of the parent with each branch, with every emptiness of the parts around it, and a "
    "further common part of the sides of a conflict, all interleavings of the fragments are followed symbolically and every slice in the first alternative "
    "of a reported conflict must come from the parent or the first branch (slices of the other branch only where they are the same text), the second likewise."
)


def one(ctx, kind, case, composite=False):
    m = Merge(ctx, kind, case, composite)
    for x, got in m.outcomes():
        if isinstance(got, Raise):
            continue  # C08
        flat = m.flat(x, got)
        if flat is None:
            ctx.undecided("provenance", "merge_token_sequence", f"output {describe(got)}")
            continue
        for w, _, parts in flat:
            if w == "out":
                continue
            other = m.B[1] if w == "a" else m.B[0]
            mine = m.B[0] if w == "a" else m.B[1]
            q = S(kind, [p for p in parts])
            q = translate(x, q, other, m.P)
            q = translate(x, q, other, mine)
            bad = [p for p in q.parts if other.labels <= labels_of(p, x)]
            if not bad:
                ctx.good("provenance", f"alternative {w} of conflicts")
            elif not exact(x, S(kind, bad)) or not feasible(x) or m.compared_singly(x) or any("unk" in labels_of(p, x) for p in parts):
                ctx.undecided("provenance", f"alternative {w}", f"{describe(bad)}; " + ", ".join(x.imp))
            else:
                n = "first" if w == "a" else "second"
                ctx.violation("provenance", f"merge:{n} alternative", f"the {n} alternative of a conflict contains {describe(bad)} from the other branch; output {describe(got)}", "src/gaspra/merge.py", path_of(x, 60))


def check(ctx):
    jobs = [("provenance", one, "str", c) for c in cases(ctx.tier == "thorough")]
    jobs += [("provenance", one, "str", (t, u, 1), True) for t, u in (((REP, REP), None), (None, (REP, REP)))]
    if ctx.tier == "thorough":
        jobs += [("provenance", one, "tuple", c) for c in cases()]
    run(ctx, jobs)
