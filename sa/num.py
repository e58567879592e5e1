"""Numeric abstract domain: linear forms over integer atoms with a set of
linear constraints (closed under a bounded Fourier-Motzkin test)."""
from math import gcd

_n = [0]


class Atom:
    """An unknown integer, optionally with inherent bounds."""

    __slots__ = ("name", "lo", "hi", "n")

    def __init__(self, name="x", lo=None, hi=None):
        _n[0] += 1
        self.name, self.lo, self.hi, self.n = name, lo, hi, _n[0]

    def __repr__(self):
        return f"{self.name}#{self.n}"


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t  # tuple of (atom, coef), sorted by atom number
        self._h = hash((c, t))

    def __eq__(self, o):
        return self is o or (
            isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t
        )

    def __hash__(self):
        return self._h

    @staticmethod
    def of(x):
        if isinstance(x, Lin):
            return x
        if isinstance(x, Atom):
            return Lin(0, ((x, 1),))
        return Lin(int(x))

    @property
    def const(self):
        return not self.t

    def _comb(self, o, k):
        d = dict(self.t)
        for a, v in o.t:
            n = d.get(a, 0) + k * v
            if n:
                d[a] = n
            else:
                d.pop(a, None)
        return Lin(self.c + k * o.c, tuple(sorted(d.items(), key=lambda p: p[0].n)))

    def __add__(self, o):
        return self._comb(Lin.of(o), 1)

    def __sub__(self, o):
        return self._comb(Lin.of(o), -1)

    def __neg__(self):
        return self * -1

    def __mul__(self, k):
        if k == 0:
            return ZERO
        return Lin(self.c * k, tuple((a, v * k) for a, v in self.t))

    def subst(self, m):
        """m: atom -> Lin"""
        if not any(a in m for a, _ in self.t):
            return self
        r = Lin(self.c)
        for a, v in self.t:
            r = r + (m[a] * v if a in m else Lin(0, ((a, v),)))
        return r

    def atoms(self):
        return [a for a, _ in self.t]

    def __repr__(self):
        s = " + ".join((f"{v}*" if v != 1 else "") + repr(a) for a, v in self.t)
        if not s:
            return str(self.c)
        return s + (f" + {self.c}" if self.c else "")


ZERO = Lin(0)
ONE = Lin(1)


def _tight(lin):
    """Normalize lin >= 0 over the integers."""
    if not lin.t:
        return lin
    g = 0
    for _, v in lin.t:
        g = gcd(g, abs(v))
    if g > 1:
        return Lin(lin.c // g, tuple((a, v // g) for a, v in lin.t))
    return lin


def _bounds(atoms):
    r = []
    for a in atoms:
        if a.lo is not None:
            r.append(Lin(-a.lo, ((a, 1),)))
        if a.hi is not None:
            r.append(Lin(a.hi, ((a, -1),)))
    return r


LIMIT = 400


_memo = {}


def _infeasible(cons):
    key = frozenset(cons)
    r = _memo.get(key)
    if r is None:
        if len(_memo) > 400000:
            _memo.clear()
        r = _memo[key] = _infeasible1(cons)
    return r


def _infeasible1(cons):
    """Bounded Fourier-Motzkin.  True only if no integer point exists."""
    work = set()
    for c in cons:
        c = _tight(c)
        if c.const:
            if c.c < 0:
                return True
        else:
            work.add(c)
    while work:
        # strengthen: same linear part keeps the smallest constant
        best = {}
        for c in work:
            k = c.t
            if k not in best or c.c < best[k]:
                best[k] = c.c
        work = {Lin(v, k) for k, v in best.items()}
        cnt = {}
        for c in work:
            for a, v in c.t:
                p, n = cnt.get(a, (0, 0))
                cnt[a] = (p + (v > 0), n + (v < 0))
        if not cnt:
            return False
        a = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1], x.n))
        pos, neg, rest = [], [], set()
        for c in work:
            v = dict(c.t).get(a, 0)
            if v > 0:
                pos.append((v, c))
            elif v < 0:
                neg.append((-v, c))
            else:
                rest.add(c)
        if len(pos) * len(neg) + len(rest) > LIMIT:
            return False
        for pv, p in pos:
            for nv, n in neg:
                q = _tight(p * nv + n * pv)
                if q.const:
                    if q.c < 0:
                        return True
                else:
                    rest.add(q)
        work = rest
    return False


class Num:
    """Immutable set of constraints."""

    __slots__ = ("eqs", "ineqs", "_cache")

    def __init__(self, eqs=None, ineqs=()):
        self.eqs = eqs or {}
        self.ineqs = ineqs
        self._cache = {}

    def norm(self, lin):
        return lin.subst(self.eqs) if self.eqs else lin

    def _relevant(self, lin):
        atoms = set(lin.atoms())
        chosen = []
        pool = list(self.ineqs)
        changed = True
        while changed:
            changed = False
            rest = []
            for c in pool:
                if any(a in atoms for a, _ in c.t):
                    chosen.append(c)
                    atoms.update(c.atoms())
                    changed = True
                else:
                    rest.append(c)
            pool = rest
        return chosen + _bounds(atoms)

    def ge0(self, lin):
        """Is lin >= 0 entailed?"""
        lin = self.norm(lin)
        if lin.const:
            return lin.c >= 0
        r = self._cache.get(lin)
        if r is None:
            neg = Lin(-1) - lin
            r = _infeasible(self._relevant(lin) + [neg])
            self._cache[lin] = r
        return r

    def sign(self, lin):
        """Three-valued: True if lin >= 0 always, False if lin < 0 always."""
        if self.ge0(lin):
            return True
        if self.ge0(Lin(-1) - lin):
            return False
        return None

    def is0(self, lin):
        lin = self.norm(lin)
        if lin.const:
            return lin.c == 0
        if self.ge0(lin) and self.ge0(-lin):
            return True
        if self.ge0(lin - 1) or self.ge0(-lin - 1):
            return False
        return None

    def add_ge0(self, lin):
        """Returns the refined Num, or None if contradictory."""
        lin = _tight(self.norm(lin))
        if lin.const:
            return self if lin.c >= 0 else None
        if lin in self.ineqs:
            return self
        if _infeasible(self._relevant(lin) + [lin]):
            return None
        if self.ge0(lin):
            return self
        # promote to equality if the opposite is entailed
        if self.ge0(-lin):
            return self.add_eq0(lin)
        return Num(self.eqs, self.ineqs + (lin,))

    def add_eq0(self, lin):
        lin = self.norm(lin)
        if lin.const:
            return self if lin.c == 0 else None
        g = 0
        for _, v in lin.t:
            g = gcd(g, abs(v))
        if lin.c % g:
            return None
        for a, v in sorted(lin.t, key=lambda p: -p[0].n):
            if abs(v) == 1:
                rest = (lin - Lin(0, ((a, v),))) * (-v)
                eqs = {k: e.subst({a: rest}) for k, e in self.eqs.items()}
                eqs[a] = rest
                n = Num(eqs, ())
                for c in list(self.ineqs) + _bounds([a]):
                    c = c.subst({a: rest})
                    n = n.add_ge0(c)
                    if n is None:
                        return None
                return n
        # nothing to solve for: keep it as two inequalities
        both = [x for x in (_tight(lin), _tight(-lin)) if x not in self.ineqs]
        if _infeasible(self._relevant(lin) + both):
            return None
        return Num(self.eqs, self.ineqs + tuple(both))

    def add_ne0(self, lin):
        """Can only be represented when lin's sign is known on one side."""
        z = self.is0(lin)
        if z is True:
            return None
        if z is None:
            if self.ge0(lin):
                return self.add_ge0(lin - 1)
            if self.ge0(-lin):
                return self.add_ge0(-lin - 1)
        return self

    def lo(self, lin, cands):
        for c in cands:
            if self.ge0(lin - c):
                return c
        return None
