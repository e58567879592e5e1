"""Helpers of the checks."""
from ..interp import Interp, NONE, TRUE, FALSE, Fr
from ..values import *
from ..values import V, Raise
from ..num import Atom, Lin, ZERO, ONE
from .. import seq, models as M
from ..seq import as_seq, slen, simp, lit, concat


def top_frame(it, mod="gaspra"):
    return Fr(None, it.mods.get(mod, it.init.alloc(Obj("env", None, {})).id), mod, (frozenset(), frozenset(), frozenset()), None, (), ())


def base(name, kind, labels=(), lo=0, **kw):
    return Base(name, kind, frozenset(labels), Lin.of(Atom(f"len({name})", lo)), **kw)


def items(it, st, v, fr=None):
    """Values of a tuple of known length, or None."""
    q = M.seqv(it, st, v)
    if q is None and isinstance(v, Ref) and st.obj(v).kind == "inst" and st.obj(v).cls.nt:
        return [st.obj(v).f[n] for n, _, _ in st.obj(v).cls.fields]
    return M.explicit(q) if q is not None else None


# "unk": a value the analysis knows nothing about; "grown": a sequence that a
# summarised loop built, of which only the length and sorts of elements are known.
VAGUE = frozenset(("unk", "grown"))


def exact(st, *vs):
    """No imprecision that could explain a mismatch."""
    return not st.imp and not any(VAGUE & labels_of(v, st) for v in vs if isinstance(v, V))


def feasible(st):
    """Nothing is known to exclude the state."""
    from ..num import _infeasible

    try:
        return not _infeasible(list(st.num.ineqs) + [x for a, l in st.num.eqs.items() for x in (Lin.of(a) - l, l - Lin.of(a))])
    except Exception:
        return True


def path_of(st, n=30):
    r = []
    for e in st.events():
        if e[0] == "call":
            r.append(f"call {e[1].qual}")
        elif e[0] == "raise":
            r.append(f"raise {e[1]} at {e[2]}")
    return r[-n:]


def where_fn(f):
    return f"src/{f.mod.replace('.', '/')}.py:{f.node.lineno} in {f.qual}"


def describe(v):
    r = repr(v)
    return r if len(r) < 160 else r[:157] + "..."


def raise_where(it, st, r):
    for e in reversed(st.events()):
        if e[0] == "raise":
            return "src/" + e[2], e[1], e[3]
    return "", it.exc_name(st, r), None


def evaluate(it, lin, env):
    """Value of a linear form when the atoms of env are given; None if it
    depends on others.  Quotients follow from their definition."""
    r = lin.c
    for a, k in lin.t:
        if a not in env:
            d = it.defs.get(a)
            if d is None:
                return None
            x = evaluate(it, d[1], env)
            if x is None:
                return None
            env[a] = x // d[2] if d[0] == "//" else x % d[2]
        r += k * env[a]
    return r


def witness(it, st, atom, diff):
    """A value of the atom in the state for which the linear form is not 0;
    False if the form cannot be evaluated."""
    cons = list(st.num.ineqs)
    eqs = [Lin.of(a) - l for a, l in st.num.eqs.items()]
    cand = set()
    for k in range(65):
        cand |= {2 ** k - 1, 2 ** k, 2 ** k + 1}
    for c in cons + eqs:
        for a, v in c.t:
            if abs(v):
                cand |= {-c.c // v, -c.c // v + 1, -c.c // v - 1}
    if atom.lo is not None:
        cand.add(atom.lo)
    if atom.hi is not None:
        cand.add(atom.hi)
    cand = sorted(cand)
    cand += [(x + y) // 2 for x, y in zip(cand, cand[1:])] + [(2 * x + y) // 3 for x, y in zip(cand, cand[1:])]
    for x in cand:
        if atom.lo is not None and x < atom.lo or atom.hi is not None and x > atom.hi:
            continue
        env = {atom: x}
        vals = [evaluate(it, c, env) for c in cons]
        eqv = [evaluate(it, c, env) for c in eqs if all(a is atom or a in it.defs for a, _ in c.t)]
        if any(v is None for v in vals):
            return False
        if any(v < 0 for v in vals) or any(v for v in eqv if v is not None):
            continue
        d = evaluate(it, st.num.norm(diff), env)
        if d is None:
            return False
        if d != 0:
            return x
    return False
