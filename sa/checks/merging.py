"""Enumeration of merges: every combination of a common part (or none) of the
parent with either branch, of unbounded length, with a common part of a
conflict's sides."""
from .contracts import *


def side_of(q):
    """Name of the one base all parts of a sequence come from."""
    r = {p.base.name for p in q.parts if isinstance(p, Sl)}
    if len(r) == 1 and all(isinstance(p, Sl) for p in q.parts):
        return r.pop()
    return None


def bases_in(q):
    return {p.base.name for p in q.parts if isinstance(p, Sl)}


NIL, DEL, INS, REP = (0, 0), (1, 0), (0, 1), (1, 1)


def cases(deep=False):
    """(branch 0, branch 1, second pass).  A branch is None (all different) or
    the gaps around its common parts: is there something in the parent, and
    in the branch.  The second pass is the number of common parts of the
    sides of conflicts."""
    any_ = (NIL, DEL, INS, REP)
    one = [(g, h) for g in any_ for h in any_]
    r = [(None, None, 0), (None, None, 2)]
    for t in one:
        r += [(t, None, 0), (None, t, 0)]
    r += [(t, u, 0) for t in one for u in one]
    for t in ((REP, REP),):
        r += [(t, None, 1), (None, t, 1)]
    # one branch with two common parts
    if deep:
        two = [(g, h, i) for g in any_ for h in (DEL, INS, REP) for i in any_]
        few = one
    else:
        two = [(g, h, NIL) for g in (NIL, REP) for h in (DEL, INS, REP)]
        few = [(g, h) for g in (NIL, REP) for h in (NIL, REP)]
    for t in two:
        for u in few:
            if not deep and t[0] == REP and u == (REP, REP):
                continue  # most of the cost; left to the thorough tier
            r += [(t, u, 0), (u, t, 0)]
    r.sort(key=lambda c: -sum(sum(map(sum, x)) + 2 * len(x) for x in c[:2] if x))
    return r


TEMPLATE = []  # an interpreter loaded before the processes are started


def run(ctx, jobs):
    TEMPLATE.append(ctx.interp(limit_s=800, max_steps=10 ** 9))
    ctx.parallel(jobs)


class Merge:
    def __init__(self, ctx, kind, case, composite=False):
        self.ctx, self.kind, self.case = ctx, kind, case
        self.it = it = TEMPLATE.pop() if TEMPLATE else ctx.interp(limit_s=400, max_steps=10 ** 9)
        it.max_states, it.unroll = 6000, 30
        self.P, self.B = base("p", kind, {"p"}), [base("b0", kind, {"0"}), base("b1", kind, {"1"})]
        self.composite = composite
        lcs_contract(it, self.limit, self.refine)
        prefix_contract(it)
        self.fr = top_frame(it)

    def segment(self, st, q1, q2):
        """(branch, index of the gap it starts with) if this is the search
        of a part of the parent and the corresponding one of a branch."""
        if side_of(q1) != "p" or side_of(q2) not in ("b0", "b1"):
            return None
        k = int(side_of(q2)[1])
        P, B = self.P, self.B[k]
        com = self.common(st, k)
        starts = [(ZERO, ZERO)] + [(a + n, b + n) for a, b, n in com]
        ends = [(a, b) for a, b, n in com] + [(P.len, B.len)]
        for j, (u, v) in enumerate(starts):
            if seq.same(st.num, q1, S(self.kind, (Sl(P, u, P.len),))) and seq.same(st.num, q2, S(self.kind, (Sl(B, v, B.len),))):
                return k, j, True
            for u2, v2 in ends[j:]:
                if seq.same(st.num, q1, S(self.kind, (Sl(P, u, u2),))) and seq.same(st.num, q2, S(self.kind, (Sl(B, v, v2),))):
                    return k, j, False
        return None

    def common(self, st, k):
        """[(parent offset, branch offset, length)] of the common parts."""
        return [tuple(st.num.norm(x) for x in e[2:5]) for e in st.events() if e[0] == "first" and e[1] == k]

    def limit(self, st, q1, q2):
        s = self.segment(st, q1, q2)
        if s is not None:
            k, j, open_end = s
            if open_end and self.case[k] and j == len(self.common(st, k)) and j < len(self.case[k]) - 1:
                return "must"
            return False
        if not self.case[2]:
            return False
        if sum(1 for e in st.events() if e[0] == "match") - sum(1 for e in st.events() if e[0] == "first") >= self.case[2]:
            return False
        if side_of(q1) and side_of(q2):
            return side_of(q1) != side_of(q2)
        return self.composite and bool(bases_in(q1)) and bool(bases_in(q2))

    def refine(self, x, q1, a, q2, b, n):
        s = self.segment(x, q1, q2)
        if s is None:
            return True
        k, j, _ = s
        pairs = [(self.case[k][j][0], a), (self.case[k][j][1], b)]
        if j == len(self.case[k]) - 2:
            pairs += [(self.case[k][j + 1][0], slen(q1) - a - n), (self.case[k][j + 1][1], slen(q2) - b - n)]
        for some, lin in pairs:
            if not (x.assume_ge0(lin - 1) if some else x.assume_eq0(lin)):
                return False
        p, q = q1.parts[0].lo, q2.parts[0].lo
        x.event("first", k, p + a, q + b, n)
        return True

    def outcomes(self):
        """(state, list of output items | Raise)"""
        it = self.it
        f = self.ctx.fn(it, "merge", "merge_token_sequence")
        for s, g in it.call(it.start(), f, [self.P.seq(), self.B[0].seq(), self.B[1].seq()], {}, self.fr, None):
            if isinstance(g, Raise):
                yield s, g
            else:
                for x, got in collect(it, s, g, self.fr):
                    yield x, got
        self.ctx.absorb(it)

    def flat(self, x, got):
        """[(where, kind, parts)] with where in 'out', 'a', 'b'; None if
        something is not understood."""
        r = []
        for e in got:
            if is_rec(self.it, x, e, "Change"):
                todo = [("a", field(x, e, "a")), ("b", field(x, e, "b"))]
            else:
                todo = [("out", e)]
            for w, v in todo:
                q = M.seqv(self.it, x, v)
                if q is None:
                    return None
                r.append((w, q.kind, seq.norm_parts(x.num, q.parts)))
        return r

    def compared_singly(self, x):
        """Tokens were compared one by one, so that more may be known to be
        equal than the state says."""
        for k, v in x.facts.items():
            if k[0] == "eq" and v is True:
                for z in k[1]:
                    q = as_seq(z)
                    if q is None or x.num.is0(slen(q) - 1) is True:
                        return True
        return False
