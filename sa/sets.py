"""Sets whose elements are all known, and known to be equal or different."""
from .values import *  # noqa
from . import models as M


LIMIT = 24


def member(interp, st, xs, x, fr, node):
    """True, False, or None if the answer is not the same on every path."""
    for v in xs:
        s = st.copy()
        outs = M.eq(interp, s, v, x, fr, node)
        if len(outs) != 1 or isinstance(outs[0][1], Raise) or outs[0][0].imp != st.imp:
            return None
        if outs[0][1]:
            return True
    return False


def dedupe(interp, st, xs, fr, node):
    """The distinct values among xs, or None."""
    if xs is None or len(xs) > LIMIT:
        return None
    if all(isinstance(x, I) and x.lin.const for x in xs):
        return list({x.lin.c: x for x in xs}.values())
    out = []
    for x in xs:
        r = member(interp, st, out, x, fr, node)
        if r is None:
            return None
        if not r:
            out.append(x)
    return out


def known(interp, st, q, fr, node):
    return dedupe(interp, st, M.explicit(q), fr, node) if isinstance(q, S) else None


def algebra(interp, st, what, a, b, fr, node):
    """Elements of the result of a set operation on two sequences, or None."""
    xs, ys = known(interp, st, a, fr, node), known(interp, st, b, fr, node)
    if xs is None or ys is None:
        return None
    if what == "union":
        return dedupe(interp, st, xs + ys, fr, node)
    in_b = [member(interp, st, ys, x, fr, node) for x in xs]
    if None in in_b:
        return None
    if what == "intersection":
        return [x for x, m in zip(xs, in_b) if m]
    if what == "difference":
        return [x for x, m in zip(xs, in_b) if not m]
    if what == "symmetric_difference":
        in_a = [member(interp, st, xs, y, fr, node) for y in ys]
        if None in in_a:
            return None
        return [x for x, m in zip(xs, in_b) if not m] + [y for y, m in zip(ys, in_a) if not m]
    return None


def relation(interp, st, what, a, b, fr, node):
    """issubset, issuperset, isdisjoint, equal, or None."""
    xs, ys = known(interp, st, a, fr, node), known(interp, st, b, fr, node)
    if xs is None or ys is None:
        return None
    if what == "issuperset":
        xs, ys = ys, xs
    ms = [member(interp, st, ys, x, fr, node) for x in xs]
    if None in ms:
        return None
    if what == "isdisjoint":
        return not any(ms)
    if what == "equal":
        return all(ms) and len(xs) == len(ys)
    return all(ms)
