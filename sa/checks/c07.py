"""C07: a merge drops and duplicates nothing."""
from .merging import *

EXPLAIN = (
    "Ledger of the whole merge, kept symbolically. For every combination of common parts of the parent with the branches (see C06) and every interleaving "
    "of the fragments, the slices of each branch in its alternative of conflicts and outside conflicts must together be exactly what that branch inserted, "
    "in order and once (text inserted alike counts for both), and the slices of the parent outside conflicts must be exactly what both kept."
)


def one(ctx, kind, case):
    m = Merge(ctx, kind, case)
    for x, got in m.outcomes():
        if isinstance(got, Raise):
            continue  # C08
        flat = m.flat(x, got)
        if flat is None:
            ctx.undecided("ledger", "merge_token_sequence", f"output {describe(got)}")
            continue
        # where the kept parts of both begin and end decides what is expected
        for y in split(m, x):
            ledger(ctx, m, y, flat, got)


def kept(m, st, k):
    return [(a, a + n) for a, b, n in m.common(st, k)]


def split(m, x):
    """Decide the order of the ends of what was kept."""
    cur = [x]
    pts = [[z for p in kept(m, x, k) for z in p] for k in (0, 1)]
    for u in pts[0]:
        for v in pts[1]:
            cur = [y for c in cur for y, _ in m.it.decide(c, u - v)]
    return cur


def both_kept(m, st):
    r = []
    for a, b in kept(m, st, 0):
        for c, d in kept(m, st, 1):
            lo = a if st.num.ge0(a - c) else c
            hi = b if st.num.ge0(d - b) else d
            if not st.num.ge0(lo - hi):
                r.append((lo, hi))
    return r


def inserted(m, st, k):
    r, at = [], ZERO
    for a, b, n in m.common(st, k):
        r.append(Sl(m.B[k], at, b))
        at = b + n
    r.append(Sl(m.B[k], at, m.B[k].len))
    return S(m.kind, r)


def at_home(m, st, p):
    """A slice of a branch that was found in the parent, as slices of it."""
    for k in (0, 1):
        if p.base is m.B[k]:
            for a, b, n in m.common(st, k):
                if st.num.ge0(p.lo - b) and st.num.ge0(b + n - p.hi):
                    return Sl(m.P, p.lo - b + a, p.hi - b + a)
    return p


def other_way(m, x, p, k):
    """The slices of branch k that a slice of something else is the same
    text as."""
    q = translate(x, S(m.kind, (p,)), p.base, m.B[k])
    return q


def ledger(ctx, m, x, flat, got):
    num = x.num
    both = both_kept(m, x)
    inside = [S(m.kind), S(m.kind)]
    plain = S(m.kind)
    vague = not exact(x, *got) or not feasible(x) or m.compared_singly(x)
    for w, kind, parts in flat:
        for p in parts:
            if not isinstance(p, Sl) or p.base not in (m.P, m.B[0], m.B[1]):
                if not vague and isinstance(p, (Lit, One)) and not any("unk" in labels_of(p, x) for _ in (0,)):
                    ctx.violation("ledger", f"merge:foreign text", f"the result of a merge contains {p!r}, which is in none of the inputs", "src/gaspra/merge.py", path_of(x, 60))
                else:
                    ctx.undecided("ledger", "merge_token_sequence", f"part {p!r}")
                return
            p = at_home(m, x, p)
            if w == "out":
                if p.base is m.P:
                    # kept by both, or the same as what a branch inserted
                    if any(num.ge0(p.lo - lo) and num.ge0(hi - p.hi) for lo, hi in both):
                        plain = concat(num, plain, S(m.kind, (p,)))
                        continue
                    if any(num.ge0(lo - p.lo) and num.ge0(p.hi - hi) for lo, hi in both) and num.ge0(p.hi - p.lo):
                        plain = concat(num, plain, S(m.kind, (p,)))
                        continue
                for k in (0, 1):
                    if p.base is m.B[k]:
                        inside[k] = concat(num, inside[k], S(m.kind, (p,)))
                        continue
                    for z in seq.norm_parts(num, other_way(m, x, p, k).parts):
                        if isinstance(z, Sl) and z.base is m.B[k] and at_home(m, x, z).base is not m.P:
                            inside[k] = concat(num, inside[k], S(m.kind, (z,)))
                        elif p.base is m.P and not same_as_inserted(m, x, p):
                            plain = concat(num, plain, S(m.kind, (p,)))
                            break
            else:
                k = 0 if w == "a" else 1
                if p.base is m.P:
                    continue
                if p.base is not m.B[k]:
                    q = other_way(m, x, p, k)
                    if not all(isinstance(z, Sl) and z.base is m.B[k] for z in q.parts):
                        continue  # C06
                    inside[k] = concat(num, inside[k], q)
                else:
                    inside[k] = concat(num, inside[k], S(m.kind, (p,)))
    checks = [("what branch %d inserted" % (k + 1), inside[k], inserted(m, x, k)) for k in (0, 1)]
    checks.append(("what both branches kept", plain, S(m.kind, [Sl(m.P, *b) for b in both])))
    for name, have, want in checks:
        if seq.same(num, have, want):
            ctx.good("ledger", name)
        elif vague:
            ctx.undecided("ledger", name, f"{describe(have)} instead of {describe(want)}; " + ", ".join(x.imp))
        else:
            ctx.violation("ledger", f"merge:{name}", f"{name} is {describe(want)}, but the result of the merge has {describe(have)} of it; output {describe(got)}", "src/gaspra/merge.py", path_of(x, 60))


def same_as_inserted(m, x, p):
    for k in (0, 1):
        q = other_way(m, x, p, k)
        if q.parts and all(isinstance(z, Sl) and z.base is m.B[k] and at_home(m, x, z).base is not m.P for z in seq.norm_parts(x.num, q.parts)):
            return True
    return False


def check(ctx):
    jobs = [("ledger", one, "str", c) for c in cases(ctx.tier == "thorough")]
    run(ctx, jobs)
