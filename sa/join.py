"""Joins of abstract states at loop heads: anti-unification of the heaps,
affine hull of the numbers, element templates for grown containers."""
from fractions import Fraction
from math import gcd

from .num import Atom, Lin, Num, ZERO, ONE
from .values import *
from .values import V, Part, Base
from .seq import as_seq, norm_parts, simp, slen, cval, as_slice

NONE = C(None)


class Own:
    """The symbols introduced by the joins of one loop."""

    def __init__(self):
        self.atoms, self.bases, self.vars = set(), set(), set()


class Tm(V):
    """Element template: a value over local symbols with constraints."""

    __slots__ = ("v", "cons", "leaves", "shape")

    def __init__(self, v, cons, leaves, shape):
        self.v, self.cons, self.leaves, self.shape = v, tuple(cons), tuple(leaves), shape
        self._init(v, self.cons)

    def __repr__(self):
        return f"T({self.v!r})"


_cnt = [0]


def fresh_var(ty=None, labels=NOLAB, op="any"):
    _cnt[0] += 1
    return U(op, (_cnt[0],), ty, labels)


def fresh_base(kind, labels, tmpl=None, name="some", length=None):
    _cnt[0] += 1
    return Base(f"{name}{_cnt[0]}", kind, labels, length, "tmpl" if tmpl is not None else None, tmpl or ())


# ------------------------------------------------------------ substitution


def subst_value(v, m, bm=None, um=None):
    """Replace atoms (m: Atom -> Lin), bases (bm) and variables (um)."""
    bm, um = bm or {}, um or {}

    def val(x):
        if isinstance(x, I):
            return I(x.lin.subst(m))
        if isinstance(x, U):
            r = um.get(x)
            if r is not None:
                return r
            args = tuple(anyv(a) for a in x.args)
            return x if args == x.args else U(x.op, args, x.ty, x.labels)
        if isinstance(x, S):
            return S(x.kind, [part(p) for p in x.parts])
        if isinstance(x, Rec):
            return Rec(x.cls, [(k, val(y)) for k, y in x.fields])
        if isinstance(x, SL):
            return SL(val(x.lo), val(x.hi), val(x.step))
        if isinstance(x, Bound):
            return Bound(val(x.fn), val(x.self))
        return x

    def anyv(a):
        if isinstance(a, Part):
            return part(a)
        if isinstance(a, V):
            return val(a)
        if isinstance(a, Base):
            return base(a)
        if isinstance(a, Lin):
            return a.subst(m)
        if isinstance(a, tuple):
            return tuple(anyv(x) for x in a)
        return a

    def base(b):
        r = bm.get(b)
        if r is not None:
            return r
        if b.op is None or not b.args:
            return b
        args = tuple(anyv(a) for a in b.args)
        if args == b.args:
            return b
        nb = derived(b.op, args, b.kind, b.labels, b.len.subst(m) if b.len.subst(m) != b.len else None, b.elem, b.tmpl)
        if nb.meta is None:
            nb.meta = b.meta
        return nb

    def part(p):
        if isinstance(p, One):
            return One(val(p.v))
        if isinstance(p, (Sl, JL, Cat)):
            nb = base(p.base)
            hi = nb.len if nb is not p.base and p.hi == p.base.len else p.hi.subst(m)
            return type(p)(nb, p.lo.subst(m), hi)
        if isinstance(p, IB):
            return IB(p.lin.subst(m), p.n)
        return p

    return anyv(v)


_canon = {}


def rename_index(v, atom):
    """v with atom replaced by a canonical index symbol (for interning)."""
    k = _canon.setdefault("i", Atom("i"))
    return subst_value(v, {atom: Lin.of(k)})


def atoms_in(x, acc=None, seen=None):
    acc = set() if acc is None else acc
    if isinstance(x, I):
        acc.update(x.lin.atoms())
    elif isinstance(x, Lin):
        acc.update(x.atoms())
    elif isinstance(x, U):
        for a in x.args:
            atoms_in(a, acc)
    elif isinstance(x, S):
        for p in x.parts:
            atoms_in(p, acc)
    elif isinstance(x, One):
        atoms_in(x.v, acc)
    elif isinstance(x, (Sl, JL, Cat)):
        acc.update(x.lo.atoms())
        acc.update(x.hi.atoms())
        atoms_in(x.base, acc)
    elif isinstance(x, Base):
        if x.op is not None:
            for a in x.args:
                atoms_in(a, acc)
    elif isinstance(x, IB):
        acc.update(x.lin.atoms())
    elif isinstance(x, Rec):
        for _, y in x.fields:
            atoms_in(y, acc)
    elif isinstance(x, SL):
        for y in (x.lo, x.hi, x.step):
            atoms_in(y, acc)
    elif isinstance(x, tuple):
        for y in x:
            atoms_in(y, acc)
    return acc


# ------------------------------------------------------------ templates


def generalise(interp, st, v):
    """Template of a value that becomes an element of a container."""
    leaves = []
    pairs = []  # (local atom, lin)
    umap = {}

    def num(lin, tag):
        lin = st.num.norm(lin)
        if lin.const and abs(lin.c) <= 1:
            return lin, ("k", lin.c)
        for a, l in pairs:
            if l == lin:
                return Lin.of(a), ("n",)
        a = Atom("e")
        pairs.append((a, lin))
        leaves.append(a)
        return Lin.of(a), ("n",)

    def go(x, depth):
        if depth > 8:
            u = fresh_var(None, labels_of(x, st) | {"unk"}, "el")
            leaves.append(u)
            return u, ("?",)
        if isinstance(x, I):
            l, s = num(x.lin, "i")
            return I(l), s
        if isinstance(x, C):
            if isinstance(x.v, (str, bytes)) and x.v:
                pass
            return x, ("c", repr(x.v))
        if isinstance(x, S):
            if x.kind in ("tuple",) and all(isinstance(p, One) for p in x.parts) and len(x.parts) <= 4:
                r = [go(p.v, depth + 1) for p in x.parts]
                return S("tuple", [One(a) for a, _ in r]), ("tup", tuple(s for _, s in r))
            l, s = num(slen(x), "len")
            tm = None
            if x.kind in ("tuple", "list"):
                tm = elem_templates(interp, st, x.parts)
            b = fresh_base(x.kind, labels_of(x, st), tm, "el", l)
            if tm is None and x.kind in ("tuple", "list"):
                b.elem = "tok"
            leaves.append(b)
            return S(x.kind, (Sl(b, ZERO, l),)), ("S", x.kind, s)
        if isinstance(x, Ref):
            o = st.obj(x)
            if o.kind == "inst":
                fs, ss = [], []
                for k in sorted(o.f, key=str):
                    a, s = go(o.f[k], depth + 1)
                    fs.append((k, a))
                    ss.append((k, s))
                return Rec(o.cls, fs), ("R", o.cls.name, tuple(ss))
            if o.kind in ("list", "set"):
                a, s = go(S("list", o.f["seq"].parts), depth + 1)
                return U("%" + o.kind, (a,)), (o.kind, s)
        if isinstance(x, Rec):
            fs, ss = [], []
            for k, y in x.fields:
                a, s = go(y, depth + 1)
                fs.append((k, a))
                ss.append((k, s))
            return Rec(x.cls, fs), ("R", x.cls.name, tuple(ss))
        if isinstance(x, (Fn, Bound, Cls, Bi, Ext, Py, Mod)):
            return x, ("f", x)
        if isinstance(x, U) and x.op == "%list":
            a, s = go(x.args[0], depth + 1)
            return U(x.op, (a,)), ("list", s)
        r = umap.get(x)
        if r is None:
            u = fresh_var(x.ty if isinstance(x, U) else None, labels_of(x, st), "el")
            umap[x] = r = (u, ("u", x.ty if isinstance(x, U) and isinstance(x.ty, (str, tuple)) else None))
            leaves.append(u)
        return r

    nest = getattr(interp, "_nest", 0)
    interp._nest = nest + 1
    try:
        val, shape = go(v, 3 * nest)
    finally:
        interp._nest = nest
    cons = []
    for k, (a, l) in enumerate(pairs):
        la = Lin.of(a)
        for c in (1, 0):
            if st.num.ge0(l - c):
                cons.append(la - c)
                break
        for a2, l2 in pairs[:k]:
            d = st.num.norm(l - l2)
            if d.const:
                cons += [la - Lin.of(a2) - d.c, Lin.of(a2) - la + d.c]
            elif st.num.ge0(l - l2):
                cons.append(la - Lin.of(a2))
            elif st.num.ge0(l2 - l):
                cons.append(Lin.of(a2) - la)
    return Tm(val, cons, leaves, shape)


def join_tm(a, b):
    """Least upper bound of two templates of the same shape; a itself if it
    already covers b."""
    m, bm, um, ok = {}, {}, {}, True
    labels = []
    if len(a.leaves) != len(b.leaves):
        return None
    for x, y in zip(a.leaves, b.leaves):
        if isinstance(x, Atom) and isinstance(y, Atom):
            m[x] = Lin.of(y)
        elif isinstance(x, Base) and isinstance(y, Base):
            t = None
            if x.elem == "tmpl" or y.elem == "tmpl":
                t = merge_tmpls(x.tmpl, y.tmpl)
            more = not (y.labels <= x.labels) or (t is not None and t != x.tmpl)
            labels.append((x, y, more, t))
        elif isinstance(x, U) and isinstance(y, U):
            labels.append((x, y, not (y.labels <= x.labels) or x.ty != y.ty, None))
        else:
            return None
    n = Num()
    for c in b.cons:
        n = n.add_ge0(c) or n
    keep = [c for c in a.cons if n.ge0(c.subst(m))]
    if len(keep) == len(a.cons) and not any(x[2] for x in labels):
        return a
    for x, y, more, t in labels:
        if more:
            if isinstance(x, Base):
                bm[x] = fresh_base(x.kind, x.labels | y.labels, t, "el", x.len)
                bm[x].elem = x.elem if t is None else "tmpl"
            else:
                um[x] = fresh_var(x.ty if x.ty == y.ty else None, x.labels | y.labels, "el")
    leaves = [bm.get(x, x) if isinstance(x, Base) else um.get(x, x) if isinstance(x, U) else x for x in a.leaves]
    return Tm(subst_value(a.v, {}, bm, um), keep, leaves, a.shape)


def merge_tmpls(ts, us):
    out = list(ts)
    for u in us:
        for k, t in enumerate(out):
            if t.shape == u.shape:
                j = join_tm(t, u)
                if j is not None:
                    out[k] = j
                    break
        else:
            out.append(u)
    return tuple(out)


def elem_templates(interp, st, parts):
    """Templates of everything in these parts, or None if the elements are
    opaque tokens."""
    ts = ()
    for p in parts:
        if isinstance(p, One):
            ts = merge_tmpls(ts, (generalise(interp, st, p.v),))
        elif isinstance(p, Sl) and p.base.elem == "tmpl":
            ts = merge_tmpls(ts, p.base.tmpl)
        elif isinstance(p, Sl):
            x = st.copy()
            i = Lin.of(Atom("i", 0))
            es = interp.elem(x, p.base, i)
            for y, v in es:
                ts = merge_tmpls(ts, (generalise(interp, y, v),))
        else:
            ts = merge_tmpls(ts, (generalise(interp, st, U("text", (p,), None, labels_of(p))),))
    return ts


def instantiate(interp, st, t, base):
    """A fresh element described by a template; None if impossible."""
    m, bm, um = {}, {}, {}
    for x in t.leaves:
        if isinstance(x, Atom):
            m[x] = Lin.of(Atom(x.name, x.lo, x.hi))
    for x in t.leaves:
        if isinstance(x, Base):
            nb = fresh_base(x.kind, x.labels, None, "el", x.len.subst(m))
            nb.elem, nb.tmpl = x.elem, x.tmpl
            bm[x] = nb
        elif isinstance(x, U):
            um[x] = fresh_var(x.ty, x.labels, "el")
    for c in t.cons:
        if not st.assume_ge0(c.subst(m)):
            return None
    v = subst_value(t.v, m, bm, um)
    return materialise(interp, st, v, base)


def materialise(interp, st, v, base=None):
    if isinstance(v, Rec):
        f = {k: materialise(interp, st, x, base) for k, x in v.fields}
        return st.alloc(Obj("inst", v.cls, f, getattr(base, "meta", None) or "local"))
    if isinstance(v, U) and v.op in ("%list", "%set"):
        return st.alloc(Obj(v.op[1:], None, {"seq": v.args[0]}, getattr(base, "meta", None) or "local"))
    if isinstance(v, S) and any(isinstance(p, One) and isinstance(p.v, (Rec, U)) for p in v.parts):
        return S(v.kind, [One(materialise(interp, st, p.v, base)) if isinstance(p, One) else p for p in v.parts])
    return v


# ------------------------------------------------------------ the joiner


class Fail(Exception):
    pass


class Joiner:
    def __init__(self, interp, h, b, own=None):
        self.it, self.h, self.b = interp, h, b
        self.own = own if own is not None else Own()

    # ---------------- subsumption

    def subsumes(self):
        h, b = self.h, self.b
        if not (b.imp <= h.imp):
            return False
        for k, v in h.facts.items():
            if b.facts.get(k) != v:
                return False
        self.th, self.tb, self.tu = {}, {}, {}
        self.rm = {}
        self.pend = []
        self.todo = []
        try:
            for i, ho in h.heap.items():
                bo = b.heap.get(i)
                if bo is None:
                    continue
                self.ref(i, i)
            while self.todo:
                x, y = self.todo.pop()
                self.m_obj(self.h.obj(x), self.b.obj(y))
            for _ in range(len(self.pend) + 1):
                todo, self.pend = self.pend, []
                if not todo:
                    break
                n = len(todo)
                for lh, lb in todo:
                    self.m_lin(lh, lb)
                if len(self.pend) == n:
                    a = next(x for x in self.pend[0][0].atoms() if x in self.own.atoms and x not in self.th)
                    self.th[a] = Lin.of(a)
            for lh, lb in self.pend:
                self.m_lin(lh, lb)
            for c in h.num.ineqs:
                if not b.num.ge0(c.subst(self.th)):
                    raise Fail
            for a, e in h.num.eqs.items():
                if a in self.own.atoms and a not in self.th:
                    continue  # defines a symbol that occurs nowhere else
                if b.num.is0((Lin.of(a) - e).subst(self.th)) is not True:
                    raise Fail
        except Fail:
            return False
        return True

    def ref(self, x, y):
        o = self.rm.get(x)
        if o is not None:
            if o != y:
                raise Fail
            return
        self.rm[x] = y
        ho, bo = self.h.obj(x), self.b.obj(y)
        if ho is bo and x == y and not self.own.atoms and not self.own.bases and not self.own.vars:
            return
        self.todo.append((x, y))

    def m_obj(self, ho, bo):
        if ho.kind != bo.kind or ho.cls is not bo.cls or ho.owner != bo.owner or not (bo.labels <= ho.labels):
            raise Fail
        if set(ho.f) != set(bo.f):
            raise Fail
        for k, x in ho.f.items():
            self.m_any(x, bo.f[k])

    def m_any(self, x, y):
        if isinstance(x, Part) or isinstance(y, Part):
            if not self.m_parts((x,), (y,)):
                raise Fail
        elif isinstance(x, V):
            self.m_val(x, y)
        elif isinstance(x, Lin) and isinstance(y, Lin):
            self.m_lin(x, y)
        elif isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                raise Fail
            for p, q in zip(x, y):
                self.m_any(p, q)
        elif isinstance(x, Base) and isinstance(y, Base):
            self.m_base(x, y)
        elif x is not y and x != y:
            raise Fail

    def m_base(self, x, y):
        if x is y:
            if not x.op:
                if x in self.own.bases:
                    if self.tb.setdefault(x, (y.whole(),)) != (y.whole(),):
                        raise Fail
                    self.m_lin(x.len, y.len)
                return
        if x.op is None or x.op != getattr(y, "op", None) or x.kind != y.kind:
            raise Fail
        self.m_any(x.args, y.args)

    def m_lin(self, lh, lb):
        lh = self.h.num.norm(lh)
        un = [a for a in lh.atoms() if a in self.own.atoms and a not in self.th]
        if len(un) > 1:
            self.pend.append((lh, lb))
            return
        if un:
            a = un[0]
            k = dict(lh.t)[a]
            if abs(k) != 1:
                self.pend.append((lh, lb)) if len(self.pend) < 100 else None
                self.th[a] = Lin.of(a)
                return
            rest = (lh - Lin(0, ((a, k),))).subst(self.th)
            self.th[a] = (lb - rest) * k
            return
        if self.b.num.is0(lh.subst(self.th) - lb) is not True:
            raise Fail

    def m_val(self, x, y):
        if isinstance(x, I) and isinstance(y, I):
            return self.m_lin(x.lin, y.lin)
        if isinstance(x, Ref):
            if not isinstance(y, Ref):
                raise Fail
            return self.ref(x.id, y.id)
        if isinstance(x, U):
            if x in self.own.vars:
                o = self.tu.get(x)
                if o is not None:
                    if o != y:
                        raise Fail
                    return
                if x.ty is not None and (not isinstance(y, U) or y.ty != x.ty):
                    ty = self.it.type_of(self.b, y)
                    if not (isinstance(ty, Bi) and ty.name == x.ty):
                        raise Fail
                if not (labels_of(y, self.b) <= x.labels):
                    raise Fail
                if "unk" not in x.labels and isinstance(y, C) and y.v is None:
                    raise Fail
                self.tu[x] = y
                return
            if not isinstance(y, U) or x.op != y.op or x.ty != y.ty or len(x.args) != len(y.args) or x.labels != y.labels:
                raise Fail
            for a, c in zip(x.args, y.args):
                self.m_any(a, c)
            return
        sx, sy = as_seq(x), as_seq(y)
        if sx is not None and sy is not None:
            if sx.kind != sy.kind or not self.m_parts(sx.parts, sy.parts):
                raise Fail
            return
        if isinstance(x, Rec) and isinstance(y, Rec):
            if x.cls is not y.cls or len(x.fields) != len(y.fields):
                raise Fail
            for (k, a), (k2, c) in zip(x.fields, y.fields):
                if k != k2:
                    raise Fail
                self.m_any(a, c)
            return
        if isinstance(x, SL) and isinstance(y, SL):
            for a, c in ((x.lo, y.lo), (x.hi, y.hi), (x.step, y.step)):
                self.m_any(a, c)
            return
        if isinstance(x, Bound) and isinstance(y, Bound):
            self.m_any(x.fn, y.fn)
            self.m_any(x.self, y.self)
            return
        if x != y:
            raise Fail

    def m_parts(self, hp, bp):
        hp, bp = norm_parts(self.h.num, hp), norm_parts(self.b.num, bp)
        mine = [k for k, p in enumerate(hp) if isinstance(p, Sl) and p.base in self.own.bases]
        if len(mine) == 1:
            k = mine[0]
            J = hp[k].base
            if hp[k].lo == ZERO and self.h.num.norm(hp[k].hi) == self.h.num.norm(J.len):
                n = len(hp) - k - 1
                if len(bp) < k + n:
                    return False
                mid = bp[k:len(bp) - n]
                for p in mid:
                    if not self.covers(J, p):
                        return False
                old = self.tb.get(J)
                if old is not None and old != mid:
                    return False
                self.tb[J] = mid
                self.m_lin(J.len, parts_len(mid))
                return all(self.m_part(p, q) for p, q in zip(hp[:k], bp[:k])) and all(
                    self.m_part(p, q) for p, q in zip(hp[k + 1:], bp[len(bp) - n:]))
        if len(hp) == len(bp):
            return all(self.m_part(p, q) for p, q in zip(hp, bp))
        if len(hp) == 1 and not bp and isinstance(hp[0], Sl):
            # an empty remainder
            p = hp[0]
            if p.base in self.own.bases:
                return False
            if p.lo == ZERO:
                self.m_lin(p.hi, ZERO)
            else:
                self.m_lin(p.lo, p.hi.subst(self.th))
            return True
        return False

    def m_part(self, p, q):
        if type(p) is not type(q):
            return False
        if isinstance(p, One):
            self.m_val(p.v, q.v)
            return True
        if isinstance(p, (Sl, JL, Cat)):
            if p.base is not q.base or p.base in self.own.bases:
                self.m_base(p.base, q.base)
            self.m_lin(p.lo, q.lo)
            self.m_lin(p.hi, q.hi)
            return True
        if isinstance(p, IB):
            if p.n != q.n:
                return False
            self.m_lin(p.lin, q.lin)
            return True
        return p == q

    def covers(self, J, p):
        if not (labels_of(p, self.b) <= labels_of(J)):
            return False
        if isinstance(p, Sl) and p.base is J:
            return True
        if J.elem == "tmpl":
            if isinstance(p, Sl) and p.base.elem != "tmpl" and callable(p.base.elem) is False and p.base.elem == "tok":
                pass
            ts = elem_templates(self.it, self.b, (p,))
            return merge_tmpls(J.tmpl, ts) == J.tmpl
        return True

    # ---------------- join

    def join(self, widen=False):
        h, b = self.h, self.b
        if self.it.join_hook is not None:
            self.it.join_hook(h)
            self.it.join_hook(b)
        j = State(h.base)
        j.trace = h.trace if h.trace is b.trace else (h.trace, ("join",))
        j.imp = h.imp | b.imp
        self.j = j
        self.memo = {}
        self.refs = {}
        self.used = set()
        self.slots = {}  # (lh, lb) -> Atom
        self.ordered = []  # lengths of slices which were joined
        self.kept = set()
        self.old = set(self.own.atoms)
        self.work = []
        common = [i for i in h.heap if i in b.heap]
        for i in common:
            self.refs[(i, i)] = i
            self.used.add(i)
        for i in common:
            ho, bo = h.heap[i], b.heap[i]
            if ho is bo:
                j.heap[i] = ho
                # its references are common as well
                continue
            self.work.append((i, i))
        while self.work:
            x, y = self.work.pop()
            r = self.refs[(x, y)]
            j.heap[r] = self.j_obj(h.obj(x), b.obj(y))
        # anything reachable only through identical objects
        for i, o in h.heap.items():
            if i not in j.heap and b.heap.get(i) is o:
                j.heap[i] = o
        j.facts = {k: v for k, v in h.facts.items() if b.facts.get(k) == v}
        self.j_num(widen)
        return j

    def j_obj(self, ho, bo):
        if ho is bo:
            return ho
        f = {}
        for k, x in ho.f.items():
            if k in bo.f:
                f[k] = self.j_any(x, bo.f[k])
            elif ho.kind in ("env", "inst", "clsenv"):
                f[k] = self.var(x, None, unk=True)
        for k, y in bo.f.items():
            if k not in ho.f and ho.kind in ("env", "inst", "clsenv"):
                f[k] = self.var(None, y, unk=True)
        if ho.kind == "dict":
            return self.j_dict(ho, bo)
        return Obj(ho.kind, ho.cls, f, ho.owner if ho.owner == bo.owner else "local", ho.labels | bo.labels, ho.site)

    def j_dict(self, ho, bo):
        he, be = ho.f.get("ents", ()), bo.f.get("ents", ())
        rest = ho.f.get("rest") if ho.f.get("rest") == bo.f.get("rest") else None
        ents = None
        if rest is not None and len(he) == len(be):
            try:
                ents = tuple((self.j_key(k, k2), self.j_any(v, v2)) for (k, v), (k2, v2) in zip(he, be))
            except Fail:
                ents = None
        if ents is None:
            # forget the order and the number of the entries
            ts = ()
            for o, st in ((ho, self.h), (bo, self.b)):
                r = o.f.get("rest")
                if isinstance(r, U) and r.op == "entries":
                    ts = merge_tmpls(ts, r.args[0].tmpl)
                for k, v in o.f.get("ents", ()):
                    if v is not None:
                        ts = merge_tmpls(ts, (generalise(self.it, st, S("tuple", (One(k), One(v)))),))
            lab = set()
            for o, st in ((ho, self.h), (bo, self.b)):
                r = o.f.get("rest")
                if isinstance(r, V):
                    lab |= labels_of(r, st)
            B = fresh_base("list", lab, ts, "ents")
            self.own.bases.add(B)
            ents, rest = (), U("entries", (B,), None, lab)
        f = dict(ho.f)
        f.update(ents=ents, rest=rest)
        return Obj(ho.kind, ho.cls, f, ho.owner, ho.labels | bo.labels, ho.site)

    def j_key(self, k, k2):
        if k == k2:
            return k
        raise Fail

    def j_any(self, x, y):
        if isinstance(x, V) and isinstance(y, V):
            return self.j_val(x, y)
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return tuple(self.j_any(a, c) for a, c in zip(x, y))
        if isinstance(x, Lin) and isinstance(y, Lin):
            return self.j_lin(x, y)
        if isinstance(x, Base) and x is y:
            return x
        if x == y:
            return x
        return self.var(x if isinstance(x, V) else None, y if isinstance(y, V) else None, unk=True)

    def var(self, x, y, unk=False, ty=None):
        key = ("var", x, y)
        r = self.memo.get(key)
        if r is None:
            lab = set()
            if x is not None:
                lab |= labels_of(x, self.h)
            if y is not None:
                lab |= labels_of(y, self.b)
            if unk:
                lab.add("unk")
            r = self.memo[key] = fresh_var(ty, lab)
            self.own.vars.add(r)
        return r

    def j_lin(self, lh, lb):
        r = self._same(lh, lb)
        if r is not None:
            self.kept.update(r.atoms())
            return r
        nh, nb = self.h.num.norm(lh), self.b.num.norm(lb)
        a = self.slots.get((nh, nb))
        if a is None:
            a = self.slots[(nh, nb)] = Atom("j")
            self.own.atoms.add(a)
        return Lin.of(a)

    def _same(self, lh, lb):
        if lh == lb:
            return lh
        nh, nb = self.h.num.norm(lh), self.b.num.norm(lb)
        if nh == nb:
            return nh
        if self.b.num.is0(lb - lh) is True:
            return lh
        if self.h.num.is0(lh - lb) is True:
            return lb
        return None

    def j_val(self, x, y):
        if isinstance(x, Ref) and isinstance(y, Ref):
            return self.j_ref(x.id, y.id)
        if x == y and not _has_ref(x):
            if self.old:
                self.kept |= atoms_in(x) & self.old
            return x
        if isinstance(x, I) and isinstance(y, I):
            return I(self.j_lin(x.lin, y.lin))
        sx, sy = as_seq(x), as_seq(y)
        if sx is not None and sy is not None and sx.kind == sy.kind:
            return simp(S(sx.kind, self.j_parts(sx.kind, sx.parts, sy.parts)))
        if isinstance(x, U) and isinstance(y, U):
            if x.op == y.op and x.ty == y.ty and len(x.args) == len(y.args) and x.labels == y.labels and x.op not in ("any", "el"):
                try:
                    args = []
                    for a, c in zip(x.args, y.args):
                        if isinstance(a, (V, Lin)) and type(a) is type(c):
                            args.append(self.j_any(a, c))
                        elif a is c or (not isinstance(a, (V, Base)) and a == c):
                            args.append(a)
                        else:
                            raise Fail
                    return U(x.op, args, x.ty, x.labels)
                except Fail:
                    pass
            return self.var(x, y, ty=x.ty if x.ty == y.ty else None)
        if isinstance(x, Rec) and isinstance(y, Rec) and x.cls is y.cls and [k for k, _ in x.fields] == [k for k, _ in y.fields]:
            return Rec(x.cls, [(k, self.j_any(a, c)) for (k, a), (_, c) in zip(x.fields, y.fields)])
        if isinstance(x, SL) and isinstance(y, SL):
            return SL(self.j_any(x.lo, y.lo), self.j_any(x.hi, y.hi), self.j_any(x.step, y.step))
        if isinstance(x, C) and isinstance(y, C) and isinstance(x.v, bool) and isinstance(y.v, bool):
            return self.var(x, y, ty="bool")
        return self.var(x, y, unk=True)

    def j_ref(self, x, y):
        r = self.refs.get((x, y))
        if r is None:
            ho, bo = self.h.obj(x), self.b.obj(y)
            if ho.kind != bo.kind or ho.cls is not bo.cls:
                return self.var(Ref(x), Ref(y), unk=True)
            if x not in self.used and x not in self.b.heap and x not in self.h.base:
                r = x
            elif y not in self.used and y not in self.h.heap and y not in self.h.base:
                r = y
            else:
                r = self.j.alloc(ho).id
            self.used.add(r)
            self.refs[(x, y)] = r
            self.j.heap[r] = ho
            self.work.append((x, y))
        return Ref(r)

    def j_parts(self, kind, hp, bp):
        hp, bp = norm_parts(self.h.num, hp), norm_parts(self.b.num, bp)
        if hp != bp and kind in ("list", "tuple"):
            hp, bp = (tuple((as_slice(p) or p) if isinstance(p, One) else p for p in q) for q in (hp, bp))
        own = any(isinstance(p, Sl) and p.base in self.own.bases for p in hp + bp)
        if len(hp) == len(bp):
            try:
                return tuple(self.j_part(p, q) for p, q in zip(hp, bp))
            except Fail:
                pass
        if not own:
            if len(hp) == 1 and not bp and isinstance(hp[0], Sl):
                p = hp[0]
                e = ZERO if p.lo == ZERO else p.hi
                return (Sl(p.base, self.j_lin(p.lo, e), self.j_lin(p.hi, e)),)
            if len(bp) == 1 and not hp and isinstance(bp[0], Sl):
                p = bp[0]
                e = ZERO if p.lo == ZERO else p.hi
                return (Sl(p.base, self.j_lin(e, p.lo), self.j_lin(e, p.hi)),)
        lo = 0
        while lo < len(hp) and lo < len(bp) and hp[lo] == bp[lo] and not self._own(hp[lo]) and not _has_ref(hp[lo]):
            lo += 1
        hi = 0
        while hi < len(hp) - lo and hi < len(bp) - lo and hp[-1 - hi] == bp[-1 - hi] and not self._own(hp[-1 - hi]) and not _has_ref(hp[-1 - hi]):
            hi += 1
        hm, bm = hp[lo:len(hp) - hi], bp[lo:len(bp) - hi]
        if 0 < lo + hi < 4 and not own:
            # something appended to what was there before
            for x, y in ((hm, bm), (bm, hm)):
                if not x and len(y) == 1 and isinstance(y[0], Sl) and y[0].base.elem == "tok":
                    p = y[0]
                    end = self.j_lin(p.lo, p.hi) if x is hm else self.j_lin(p.hi, p.lo)
                    return hp[:lo] + (Sl(p.base, p.lo, end),) + hp[len(hp) - hi:]
            if len(hm) == len(bm) == 1 and all(isinstance(p, Sl) and p.base.elem == "tok" for p in (hm[0], bm[0])):
                try:
                    return hp[:lo] + (self.j_part(hm[0], bm[0]),) + hp[len(hp) - hi:]
                except Fail:
                    pass
        lab = set()
        for p in hm:
            lab |= labels_of(p, self.h)
        for p in bm:
            lab |= labels_of(p, self.b)
        tm = None
        if kind in ("list", "tuple"):
            tm = merge_tmpls(elem_templates(self.it, self.h, hm) or (), elem_templates(self.it, self.b, bm) or ())
        n = self.j_lin(parts_len(hm), parts_len(bm))
        B = fresh_base(kind, lab | {"grown"}, tm, "grown", n)
        self.own.bases.add(B)
        return hp[:lo] + (Sl(B, ZERO, n),) + hp[len(hp) - hi:]

    def _own(self, p):
        return isinstance(p, Sl) and p.base in self.own.bases

    def j_part(self, p, q):
        if type(p) is not type(q):
            raise Fail
        if isinstance(p, One):
            if isinstance(p.v, Ref) and isinstance(q.v, Ref):
                a, c = self.h.obj(p.v), self.b.obj(q.v)
                if a.kind != c.kind or a.cls is not c.cls:
                    raise Fail
            return One(self.j_val(p.v, q.v))
        if isinstance(p, (Sl, JL, Cat)):
            if p.base is not q.base:
                raise Fail
            if self._own(p) and p != q:
                raise Fail
            lo, hi = self.j_lin(p.lo, q.lo), self.j_lin(p.hi, q.hi)
            if isinstance(p, Sl) and (lo != p.lo or hi != p.hi):
                self.ordered.append(hi - lo)
            return type(p)(p.base, lo, hi)
        if isinstance(p, IB) and p.n == q.n:
            return IB(self.j_lin(p.lin, q.lin), p.n)
        if p != q:
            raise Fail
        return p

    # ---------------- numbers

    def j_num(self, widen):
        h, b, j = self.h, self.b, self.j
        n = Num()
        # what is known about the unchanged symbols in both
        for a, e in h.num.eqs.items():
            l = Lin.of(a) - e
            if not self._gone(l) and b.num.is0(l) is True:
                n = n.add_eq0(l) or n
        for c in h.num.ineqs:
            if not self._gone(c) and b.num.ge0(c):
                n = n.add_ge0(c) or n
        slots = [(Lin.of(a), lh, lb) for (lh, lb), a in self.slots.items()]
        if slots:
            for eq in self.hull(slots):
                n = n.add_eq0(eq) or n
            cand = []
            for k, (A, lh, lb) in enumerate(slots):
                for c in (2, 1, 0, -1):
                    if h.num.ge0(lh - c) and b.num.ge0(lb - c):
                        cand.append(A - c)
                        break
                for c in (0, -1):
                    if h.num.ge0(-lh + c) and b.num.ge0(-lb + c):
                        cand.append(-A + c)
                        break
                for B, mh, mb in slots[:k]:
                    for f, fh, fb in ((A - B, lh - mh, lb - mb), (B - A, mh - lh, mb - lb)):
                        for c in (1, 0, -1):
                            if h.num.ge0(fh - c) and b.num.ge0(fb - c):
                                cand.append(f - c)
                                break
            # against the symbols that stay
            others = []
            seen = set()
            for st in (h, b):
                for c in st.num.ineqs:
                    for a in c.atoms():
                        if a not in seen and a not in self.slots.values() and not (a in self.old and a not in self.kept):
                            seen.add(a)
                            others.append(Lin.of(a))
            for B in list(self._lens()):
                if B not in others:
                    others.append(B)
            others = others[:24]
            for A, lh, lb in slots:
                for G in others:
                    for f, fh, fb in ((G - A, G - lh, G - lb), (A - G, lh - G, lb - G)):
                        for c in (1, 0):
                            if h.num.ge0(fh - c) and b.num.ge0(fb - c):
                                cand.append(f - c)
                                break
            # constraints of h in terms of the new symbols
            for c in cand:
                n = n.add_ge0(c) or n
            inv = {}
            for (lh, lb), a in self.slots.items():
                if len(lh.t) == 1 and lh.t[0][1] == 1 and lh.t[0][0] in self.own.atoms:
                    inv[lh.t[0][0]] = (Lin.of(a) - lh.c, lb - lh.c)
            if inv:
                mj = {k: v[0] for k, v in inv.items()}
                mb = {k: v[1] for k, v in inv.items()}
                for c in h.num.ineqs:
                    if any(a in inv for a in c.atoms()) and not self._gone(c, inv) and b.num.ge0(c.subst(mb)):
                        n = n.add_ge0(c.subst(mj)) or n
                for a, e in h.num.eqs.items():
                    l = Lin.of(a) - e
                    if any(x in inv for x in l.atoms()) and not self._gone(l, inv) and b.num.is0(l.subst(mb)) is True:
                        n = n.add_eq0(l.subst(mj)) or n
        for c in self.ordered:
            # a slice never ends before it starts
            if not n.ge0(c):
                n = n.add_ge0(c) or n
        j.num = n

    def _gone(self, l, but=()):
        return any(a in self.old and a not in self.kept and a not in but for a in l.atoms())

    def _lens(self):
        r = []
        seen = set()

        def go(x):
            if isinstance(x, S):
                for p in x.parts:
                    if isinstance(p, Sl) and not p.base.len.const and p.base not in seen and p.base not in self.own.bases:
                        seen.add(p.base)
                        r.append(self.h.num.norm(p.base.len))

        for o in self.j.heap.values():
            for v in o.f.values():
                go(v)
        return r[:10]

    def hull(self, slots):
        """Affine equalities between the slots and common symbols that hold
        in both states."""
        common = set()
        for _, lh, lb in slots:
            common |= set(lh.atoms()) | set(lb.atoms())
        # relations may also use other known lengths: these come in through
        # the values themselves
        common = sorted((a for a in common if a not in self.old or a in self.kept), key=lambda a: a.n)
        # unknowns: k_i per slot, g_a per common symbol, constant
        ns, nc = len(slots), len(common)
        rows = []
        for side in (1, 2):
            vals = [s[side] for s in slots]
            num = self.h.num if side == 1 else self.b.num
            gl = [num.norm(Lin.of(a)) for a in common]
            vals = [num.norm(v) for v in vals]
            ats = set()
            for v in vals + gl:
                ats |= set(v.atoms())
            for a in ats:
                rows.append([Fraction(dict(v.t).get(a, 0)) for v in vals] + [Fraction(dict(v.t).get(a, 0)) for v in gl] + [Fraction(0)])
            rows.append([Fraction(v.c) for v in vals] + [Fraction(v.c) for v in gl] + [Fraction(1)])
        out = []
        for vec in nullspace(rows, ns + nc + 1):
            if not any(vec[:ns]):
                continue
            den = 1
            for x in vec:
                den = den * x.denominator // gcd(den, x.denominator)
            vec = [int(x * den) for x in vec]
            l = Lin(vec[-1])
            for (A, _, _), k in zip(slots, vec):
                l = l + A * k
            for a, k in zip(common, vec[ns:ns + nc]):
                l = l + Lin.of(a) * k
            out.append(l)
        return out


def nullspace(rows, n):
    rows = [r[:] for r in rows]
    piv = []
    r = 0
    for c in range(n):
        p = next((k for k in range(r, len(rows)) if rows[k][c] != 0), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        x = rows[r][c]
        rows[r] = [v / x for v in rows[r]]
        for k in range(len(rows)):
            if k != r and rows[k][c] != 0:
                f = rows[k][c]
                rows[k] = [v - f * w for v, w in zip(rows[k], rows[r])]
        piv.append(c)
        r += 1
        if r == len(rows):
            break
    free = [c for c in range(n) if c not in piv]
    out = []
    for f in free:
        v = [Fraction(0)] * n
        v[f] = Fraction(1)
        for k, c in enumerate(piv):
            v[c] = -rows[k][f]
        out.append(v)
    return out


def _has_ref(x):
    if isinstance(x, Ref):
        return True
    if isinstance(x, U):
        return any(_has_ref(a) for a in x.args)
    if isinstance(x, S):
        return any(isinstance(p, One) and _has_ref(p.v) for p in x.parts)
    if isinstance(x, One):
        return _has_ref(x.v)
    if isinstance(x, Bound):
        return _has_ref(x.self)
    if isinstance(x, Rec):
        return any(_has_ref(v) for _, v in x.fields)
    if isinstance(x, SL):
        return False
    return False
