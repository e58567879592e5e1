"""What the checks assume about functions that other checks cover, and
helpers for sequences that are known to be equal in parts."""
from .util import *


def lcs_contract(it, limit=2, refine=None):
    """find_lcs(build(x), y): either nothing in common, or a match inside both
    sequences.  At most `limit` matches on a path; after that nothing is in
    common any more (the sub-problem of a recursive search is represented by
    a part that is completely different, i.e. in one change)."""

    def build(it, st, f, args, kw, fr, node):
        if len(args) != 1:
            return None
        q = M.seqv(it, st, args[0])
        if q is None:
            return None
        return [(st, U("automaton", (seq.normalize(st.num, q),)))]

    def find(it, st, f, args, kw, fr, node):
        if len(args) != 2 or not (isinstance(args[0], U) and args[0].op == "automaton"):
            return None
        q1, q2 = args[0].args[0], M.seqv(it, st, args[1])
        if q2 is None:
            return None
        q2 = seq.normalize(st.num, q2)
        out = []
        may = limit(st, q1, q2) if callable(limit) else sum(1 for e in st.events() if e[0] == "match") < limit
        if may:
            x = st.copy()
            a, b, n = Lin.of(Atom("a", 0)), Lin.of(Atom("b", 0)), Lin.of(Atom("n", 1))
            if x.assume_ge0(slen(q1) - a - n) and x.assume_ge0(slen(q2) - b - n) and (refine is None or refine(x, q1, a, q2, b, n)):
                x.event("match", q1, a, q2, b, n)
                out.append((x, S("tuple", (One(I(a)), One(I(b)), One(I(n))))))
        if may == "must":
            return out
        st.event("nomatch", q1, q2)
        out.append((st, S("tuple", (One(I(0)), One(I(0)), One(I(0))))))
        return out

    it.override("gaspra.suffix_automaton", "build", build)
    it.override("gaspra.suffix_automaton", "find_lcs", find)


def _abs(num, q, off):
    """(base, absolute offset) of an offset into a one-slice sequence."""
    if len(q.parts) == 1 and isinstance(q.parts[0], Sl):
        return q.parts[0].base, num.norm(q.parts[0].lo + off)
    return None


def matches(st):
    r, more = [], []
    for e in st.events():
        if e[0] == "match":
            x, y = _abs(st.num, e[1], e[2]), _abs(st.num, e[3], e[4])
            if x and y:
                r.append((x, y, st.num.norm(e[5])))
        elif e[0] == "prefix" and e[3] != ZERO:
            x, y = _abs(st.num, e[1], ZERO), _abs(st.num, e[2], ZERO)
            if x and y:
                more.append((x, y, st.num.norm(e[3])))
    r += more
    # sequences that were found to be equal
    for k, v in st.facts.items():
        if k[0] == "eq" and v is True and len(k[1]) == 2:
            q1, q2 = (as_seq(z) for z in k[1])
            if q1 is not None and q2 is not None:
                x, y = _abs(st.num, q1, ZERO), _abs(st.num, q2, ZERO)
                if x and y:
                    r.append((x, y, st.num.norm(slen(q1))))
    return r


def translate(st, q, src, dst):
    """Rewrite the parts of q that lie in src by what they match in dst."""
    ms = []
    for (b1, a1), (b2, a2), n in matches(st):
        if b1 is src and b2 is dst:
            ms.append((a1, a2, n))
        if b2 is src and b1 is dst:
            ms.append((a2, a1, n))
    out = []
    num = st.num
    todo = list(seq.norm_parts(num, q.parts))
    while todo:
        p = todo.pop(0)
        if isinstance(p, Sl) and p.base is src:
            for a1, a2, n in ms:
                if num.ge0(p.lo - a1):
                    if num.ge0(a1 + n - p.hi):
                        out.append(Sl(dst, p.lo - a1 + a2, p.hi - a1 + a2))
                    elif num.ge0(p.hi - a1 - n) and num.ge0(a1 + n - p.lo - 1):
                        out.append(Sl(dst, p.lo - a1 + a2, a2 + n))
                        todo.insert(0, Sl(src, a1 + n, p.hi))
                    else:
                        continue
                    break
            else:
                out.append(p)
        else:
            out.append(p)
    return S(q.kind, seq.norm_parts(num, out))


def snap(it, st, v, depth=0):
    """A value without references, as it is now."""
    if isinstance(v, Ref) and depth < 6:
        o = st.obj(v)
        if o.kind == "inst" and (o.cls.nt or o.cls.fields):
            return Rec(o.cls, [(k, snap(it, st, w, depth + 1)) for k, w in o.f.items() if isinstance(w, V) and k[:1] != "%"])
        q = M.seqv(it, st, v)
        if q is not None:
            return snap(it, st, q, depth)
    if isinstance(v, S) and v.kind in ("tuple", "list"):
        return S(v.kind, [One(snap(it, st, p.v, depth + 1)) if isinstance(p, One) else p for p in v.parts])
    return v


def collect(it, st, iterable, fr, tag="got"):
    """[(state, list of elements or None if it raises)]"""
    mark = st.trace

    def body(x, e):
        x.event(tag, snap(it, x, e))
        return [(x, None)]

    out = []
    for x, sig in it.iterate(st, iterable, body, fr, None):
        if sig is not None:
            out.append((x, sig[1] if isinstance(sig[1], Raise) else None))
        else:
            ev = x.events(mark)
            if any(e[0] == "join" for e in ev):
                x.vague("elements of several paths")
            out.append((x, [e[1] for e in ev if e[0] == tag]))
    return out


def is_rec(it, st, v, name):
    """An instance of the named record class of the package."""
    if isinstance(v, Ref) and st.obj(v).kind == "inst":
        return st.obj(v).cls.name == name
    return isinstance(v, Rec) and v.cls.name == name


def field(st, v, name):
    return st.obj(v).f[name] if isinstance(v, Ref) else dict(v.fields)[name]


KINDS = ("str", "bytes", "tuple")


def prefix_contract(it):
    """common_prefix_length(x, y): some number of tokens that both have in
    front."""

    def prefix(it, st, f, args, kw, fr, node):
        if len(args) != 2 or kw:
            return None
        q1, q2 = M.seqv(it, st, args[0]), M.seqv(it, st, args[1])
        if q1 is None or q2 is None:
            return None
        out = []
        q1, q2 = seq.normalize(st.num, q1), seq.normalize(st.num, q2)
        if seq.same(st.num, q1, q2):
            return [(st, I(slen(q1)))]
        for x, b in it.decide(st, slen(q2) - slen(q1)):
            short = slen(q1) if b else slen(q2)
            # all of the shorter one
            y = x.copy()
            y.event("prefix", q1, q2, short)
            out.append((y, I(short)))
            # less than that
            n = Lin.of(Atom("k", 0))
            if x.assume_ge0(short - n - 1):
                x.event("prefix", q1, q2, n)
                out.append((x, I(n)))
        return out

    it.override("gaspra.common", "common_prefix_length", prefix)

