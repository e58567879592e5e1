"""What SQL statements do to tables whose cells are values of the analysis."""
import re

from .num import Lin
from .values import *
from .values import V
from .seq import as_seq, lit, simp
from . import models as M
from .sql_parse import SqlError, Unsupported, parse

NONE, TRUE, FALSE = C(None), C(True), C(False)
ROWID = ("rowid", "oid", "_rowid_")
AGG = ("count", "sum", "total", "max", "min", "avg", "group_concat")


class Fork(Exception):
    """The statement depends on something open: the states to go on with."""

    def __init__(self, states):
        self.states = states


class Integrity(SqlError):
    pass


class Table:
    def __init__(self, name, cols, keys, rows=()):
        self.name, self.cols, self.keys, self.rows = name, cols, keys, tuple(rows)

    def with_rows(self, rows):
        return Table(self.name, self.cols, self.keys, rows)

    def names(self):
        return [c["name"].lower() for c in self.cols]

    def index(self, n):
        try:
            return self.names().index(n.lower())
        except ValueError:
            return None

    def alias(self):
        """The column that is the rowid."""
        for k, c in enumerate(self.cols):
            if c["pk"] and c["type"].upper() == "INTEGER":
                return k
        return None

    def __eq__(self, o):
        return isinstance(o, Table) and (self.name, self.rows, self.keys) == (o.name, o.rows, o.keys) and self.names() == o.names()

    def __hash__(self):
        return hash((self.name, self.rows))


def affinity(ty):
    t = (ty or "").upper()
    if "INT" in t:
        return "INTEGER"
    if "CHAR" in t or "CLOB" in t or "TEXT" in t:
        return "TEXT"
    if not t or "BLOB" in t:
        return "BLOB"
    if "REAL" in t or "FLOA" in t or "DOUB" in t:
        return "REAL"
    return "NUMERIC"


def column(c):
    """Affinity, with the way of comparing if it is not the usual one."""
    return affinity(c["type"]) + ("" if c.get("coll", "binary") == "binary" else "/" + c["coll"])


def collated(v, coll):
    """A value that compares as v does under the collation."""
    if coll == "binary" or isinstance(v, I) or v == NONE:
        return v
    if isinstance(v, C):
        if not isinstance(v.v, str):
            return v
        if coll == "rtrim":
            return C(v.v.rstrip(" "))
        return C("".join(c.lower() if c.isascii() else c for c in v.v))
    q = as_seq(v)
    if q is not None and q.kind == "bytes":
        return v
    raise Unsupported("a collation")


def text_of(v):
    if isinstance(v, C) and isinstance(v.v, str):
        return v.v
    return None


def convert(v, aff):
    """The value stored in a column with the affinity."""
    if isinstance(v, C) and isinstance(v.v, bool):
        v = I(int(v.v))
    if aff == "TEXT":
        if isinstance(v, I):
            return C(str(v.lin.c)) if v.lin.const else U("astext", (v,))
        if isinstance(v, C) and isinstance(v.v, float):
            return C(str(v.v))
        if isinstance(v, U) and v.ty not in ("str", "bytes") and v.op != "astext":
            return U("astext", (v,), "str", v.labels)
    elif aff in ("INTEGER", "NUMERIC", "REAL"):
        t = text_of(v)
        if t is not None:
            try:
                return I(int(t))
            except ValueError:
                try:
                    return C(float(t))
                except ValueError:
                    return v
        if isinstance(v, U) and v.ty not in ("int", "bytes", "float") and v.op != "asnumber":
            return U("asnumber", (v,), None, v.labels)
        if isinstance(v, C) and isinstance(v.v, float) and v.v == int(v.v) and aff != "REAL":
            return I(int(v.v))
    return v


class Scope:
    """Names visible at a point: [(alias, column names, affinities, values)]"""

    def __init__(self, tabs, outer=None):
        self.tabs, self.outer = tabs, outer
        self.extra = {}

    def find(self, t, n):
        n = n.lower()
        hit = None
        for alias, names, affs, vals in self.tabs:
            if t is not None and (alias or "").lower() != t.lower():
                continue
            for k, m in enumerate(names):
                if m is not None and m.lower() == n:
                    if hit is not None:
                        raise SqlError(f"ambiguous column name: {n}")
                    hit = (vals[k] if vals is not None else NONE, affs[k])
                    break
        if hit is not None:
            return hit
        if t is None and n in self.extra:
            return self.extra[n], "BLOB"
        if self.outer is not None:
            return self.outer.find(t, n)
        return None


def walk(e):
    """The parts of an expression, without inner queries."""
    if isinstance(e, tuple):
        yield e
        for x in e[1:]:
            yield from walk(x)
    elif isinstance(e, list):
        for x in e:
            yield from walk(x)


class Eval:
    def __init__(self, it, st, tables, params, fr, node):
        self.it, self.st, self.tables, self.params, self.fr, self.node = it, st, dict(tables), params, fr, node
        self.ctes = {}
        self.group = None
        self.win = {}
        self.rowcount = -1
        self.lastrowid = NONE

    # -- comparing

    def equal(self, a, b):
        """True, False or None"""
        if a == NONE or b == NONE:
            return None
        if a == b:
            return True
        outs = [(s, r) for s, r in M.eq(self.it, self.st.copy(), a, b, self.fr, self.node)]
        if any(not isinstance(r, bool) for _, r in outs):
            raise Unsupported("comparison")
        if len({r for _, r in outs}) == 1:
            return outs[0][1]
        raise Fork([s for s, _ in outs])

    def rank(self, v):
        if v == NONE:
            return 0
        if M.int_lin(self.it, self.st, v) is not None or isinstance(v, C) and isinstance(v.v, float):
            return 1
        q = as_seq(v)
        if q is not None and q.kind in ("str", "bytes"):
            return 2 if q.kind == "str" else 3
        raise Unsupported("order of a value that is not known")

    def less(self, a, b):
        if a == b:
            return False
        ra, rb = self.rank(a), self.rank(b)
        if ra != rb:
            return ra < rb
        if ra == 1:
            la, lb = M.int_lin(self.it, self.st, a), M.int_lin(self.it, self.st, b)
            if la is None or lb is None:
                raise Unsupported("order of floats")
            n = self.st.num
            if n.ge0(lb - la - 1) is True:
                return True
            if n.ge0(la - lb) is True:
                return False
            x, y = self.st.copy(), self.st.copy()
            raise Fork([s for s, ok in ((x, x.assume_ge0(lb - la - 1)), (y, y.assume_ge0(la - lb))) if ok])
        if ra == 0:
            return False
        ta, tb = (v.v if isinstance(v, C) else None for v in (a, b))
        if ta is None or tb is None:
            raise Unsupported("order of texts that are not known")
        return (ta.encode() if isinstance(ta, str) else ta) < (tb.encode() if isinstance(tb, str) else tb)

    def sort(self, rows, key):
        """Stable insertion sort; key(row) -> [(value, descending, nulls)]"""
        ks = [key(r) for r in rows]
        out = []
        for i in range(len(rows)):
            j = len(out)
            while j > 0 and self.before(ks[i], ks[out[j - 1]]):
                j -= 1
            out.insert(j, i)
        return [rows[i] for i in out]

    def before(self, a, b):
        for (x, d, nulls), (y, _, _) in zip(a, b):
            if x == NONE or y == NONE:
                if x == y:
                    continue
                first = nulls == "first" if nulls else not d
                return (x == NONE) == first
            if self.less(x, y):
                return not d
            if self.less(y, x):
                return d
        return False

    def same(self, a, b):
        """Not distinct."""
        return a == NONE and b == NONE or self.equal(a, b) is True

    # -- expressions

    def truth(self, v):
        """True, False or None"""
        if v == NONE:
            return None
        if isinstance(v, C) and isinstance(v.v, bool):
            return v.v
        l = M.int_lin(self.it, self.st, v)
        if l is None and isinstance(v, C) and isinstance(v.v, (str, bytes)):
            t = v.v if isinstance(v.v, str) else v.v.decode("latin-1")
            m = re.match(r"\s*([+-]?[0-9]*\.?[0-9]*)", t).group(1)
            return any(c in "123456789" for c in m)
        if l is None:
            raise Unsupported("truth of a value that is not a number")
        r = self.equal(I(l), I(0))
        return not r

    def boolean(self, b):
        return NONE if b is None else I(int(b))

    def aff(self, e, sc):
        if e[0] == "col":
            h = sc.find(e[1], e[2])
            return h[1] if h else None
        if e[0] == "cast":
            return affinity(e[2])
        if e[0] == "collate":
            f = self.aff(e[1], sc)
            return f and f.split("/")[0] + "/" + e[2]
        return None

    def cmp_values(self, a, b, sc):
        x, y = self.ev(a, sc), self.ev(b, sc)
        fa, fb = self.aff(a, sc), self.aff(b, sc)
        ca, cb = (f.split("/")[1] if f and "/" in f else None for f in (fa, fb))
        fa, fb = (f and f.split("/")[0] for f in (fa, fb))
        num = ("INTEGER", "REAL", "NUMERIC")
        if fa in num and fb in (None, "TEXT", "BLOB"):
            y = convert(y, "NUMERIC") if not (isinstance(y, U)) else y
        elif fb in num and fa in (None, "TEXT", "BLOB"):
            x = convert(x, "NUMERIC") if not (isinstance(x, U)) else x
        elif fa == "TEXT" and fb is None:
            y = convert(y, "TEXT")
        elif fb == "TEXT" and fa is None:
            x = convert(x, "TEXT")
        explicit = [e[2] for e in (a, b) if e[0] == "collate"]
        coll = explicit[0] if explicit else (ca or "binary") if fa is not None else (cb or "binary")
        return collated(x, coll), collated(y, coll)

    def ev(self, e, sc):
        k = e[0]
        if k == "lit":
            v = e[1]
            return I(v) if isinstance(v, int) else C(v)
        if k == "param":
            return self.param(e)
        if k == "col":
            h = sc.find(e[1], e[2])
            if h is None:
                if e[1] is None and e[2].lower() in ("current_timestamp", "current_date", "current_time"):
                    raise Unsupported(e[2])
                raise SqlError(f"no such column: {e[2]}")
            return h[0]
        if k == "un":
            if e[1] == "not":
                t = self.truth(self.ev(e[2], sc))
                return self.boolean(None if t is None else not t)
            v = self.ev(e[2], sc)
            l = M.int_lin(self.it, self.st, v)
            if v == NONE or e[1] == "+":
                return v
            if l is None or e[1] == "~":
                raise Unsupported("unary operator")
            return I(ZERO_ - l)
        if k == "bin":
            return self.binary(e, sc)
        if k == "is":
            a, b = self.cmp_values(e[1], e[2], sc)
            return self.boolean(self.same(a, b) != e[3])
        if k == "in":
            res = False
            for x in e[2]:
                a, b = self.cmp_values(e[1], x, sc)
                r = self.equal(a, b)
                if r is True:
                    res = True
                    break
                if r is None:
                    res = None
            return self.boolean(res if res is None else res != e[3])
        if k == "inq":
            _, affs, rows = self.query(e[2], sc)
            x = self.ev(e[1], sc)
            res = False
            if affs[0] and "/" in affs[0]:
                raise Unsupported("a collation")
            for r in rows:
                q = self.equal(convert(x, "TEXT") if affs[0] == "TEXT" else x, r[0])
                if q is True:
                    res = True
                    break
                if q is None:
                    res = None
            return self.boolean(res if res is None else res != e[3])
        if k == "between":
            t = self.and_([self.compare("<=", e[2], e[1], sc), self.compare("<=", e[1], e[3], sc)])
            return self.boolean(t if t is None else t != e[4])
        if k == "case":
            for c, v in e[2]:
                if e[1] is None:
                    t = self.truth(self.ev(c, sc))
                else:
                    t = self.equal(*self.cmp_values(e[1], c, sc))
                if t is True:
                    return self.ev(v, sc)
            return self.ev(e[3], sc) if e[3] is not None else NONE
        if k == "cast":
            return convert(self.ev(e[1], sc), affinity(e[2]))
        if k == "collate":
            return self.ev(e[1], sc)
        if k == "like":
            a, b = (self.plain(self.ev(x, sc)) for x in e[1:3])
            if a is None or b is None:
                return NONE
            p = re.compile("".join(".*" if c == "%" else "." if c == "_" else re.escape(c) for c in b), re.S | re.I | re.A)
            return self.boolean((p.fullmatch(a) is not None) != e[3])
        if k == "scalar":
            names, _, rows = self.query(e[1], sc)
            if len(names) != 1:
                raise SqlError("sub-select returns several columns")
            return rows[0][0] if rows else NONE
        if k == "exists":
            return self.boolean(bool(self.query(e[1], sc)[2]) != e[2])
        if k == "call":
            return self.function(e, sc)
        raise Unsupported(k)

    def plain(self, v):
        """The text of a value, None for NULL."""
        if v == NONE:
            return None
        if isinstance(v, I) and v.lin.const:
            return str(v.lin.c)
        if isinstance(v, C) and isinstance(v.v, str):
            return v.v
        raise Unsupported("text of a value that is not known")

    def param(self, e):
        n, i = e[1], e[2]
        if isinstance(self.params, dict):
            if n == "?" or n[1:] not in self.params:
                raise SqlError("You did not supply a value for binding")
            return self.params[n[1:]]
        if n[0] == "?" and len(n) > 1:
            i = int(n[1:]) - 1
        if i >= len(self.params):
            raise SqlError("Incorrect number of bindings supplied")
        return self.params[i]

    def and_(self, ts):
        if False in ts:
            return False
        return None if None in ts else True

    def compare(self, op, a, b, sc):
        x, y = self.cmp_values(a, b, sc)
        if x == NONE or y == NONE:
            return None
        if op == "=":
            return self.equal(x, y)
        if op == "<>":
            return not self.equal(x, y)
        if op == "<":
            return self.less(x, y)
        if op == ">":
            return self.less(y, x)
        if op == "<=":
            return not self.less(y, x)
        return not self.less(x, y)

    def binary(self, e, sc):
        op = e[1]
        if op in ("and", "or"):
            a = self.truth(self.ev(e[2], sc))
            if a is (op == "or"):
                return self.boolean(a)
            b = self.truth(self.ev(e[3], sc))
            if op == "and":
                return self.boolean(self.and_([a, b]))
            return self.boolean(True if True in (a, b) else None if None in (a, b) else False)
        if op in ("=", "<>", "<", ">", "<=", ">="):
            if e[2][0] == "row" and e[3][0] == "row":
                t = self.and_([self.compare("=", a, b, sc) for a, b in zip(e[2][1], e[3][1])])
                if op not in ("=", "<>"):
                    raise Unsupported("order of rows")
                return self.boolean(t if t is None else t == (op == "="))
            return self.boolean(self.compare(op, e[2], e[3], sc))
        a, b = self.ev(e[2], sc), self.ev(e[3], sc)
        if a == NONE or b == NONE:
            return NONE
        la, lb = M.int_lin(self.it, self.st, a), M.int_lin(self.it, self.st, b)
        if op == "+" and la is not None and lb is not None:
            return I(la + lb)
        if op == "-" and la is not None and lb is not None:
            return I(la - lb)
        if la is not None and lb is not None and la.const and lb.const:
            x, y = la.c, lb.c
            if op == "*":
                return I(x * y)
            if op in ("/", "%"):
                if y == 0:
                    return NONE
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return I(q if op == "/" else x - q * y)
        if op == "*" and la is not None and lb is not None and (la.const or lb.const):
            return I(la * lb.c if lb.const else lb * la.c)
        raise Unsupported("operator " + op)

    def function(self, e, sc):
        _, n, args, distinct, star, over, flt = e
        if over is not None:
            if id(e) in self.win:
                return self.win[id(e)]
            raise SqlError("misuse of window function")
        if n in AGG and (star or len(args) == 1) and not (n in ("max", "min") and len(args) > 1):
            if self.group is None:
                raise SqlError(f"misuse of aggregate: {n}()")
            return self.aggregate(e, self.group)
        vs = None
        if n in ("coalesce", "ifnull"):
            for a in args:
                v = self.ev(a, sc)
                if v != NONE:
                    return v
            return NONE
        if n == "nullif":
            a, b = self.cmp_values(args[0], args[1], sc)
            return NONE if self.equal(a, b) is True else a
        if n == "iif":
            return self.ev(args[1] if self.truth(self.ev(args[0], sc)) else args[2], sc)
        if n in ("lower", "upper", "trim", "ltrim", "rtrim", "length") and len(args) == 1:
            v = self.ev(args[0], sc)
            q = as_seq(v)
            if n == "length" and q is not None:
                from .seq import slen

                return I(slen(q))
            if isinstance(v, C) and isinstance(v.v, bytes):
                raise Unsupported(n)
            t = self.plain(v)
            if t is None:
                return NONE
            if n == "length":
                return I(len(t))
            if n in ("lower", "upper"):
                return C("".join(getattr(c, n)() if c.isascii() else c for c in t))
            return C(t.strip(" ") if n == "trim" else t.lstrip(" ") if n == "ltrim" else t.rstrip(" "))
        if n in ("max", "min"):
            vs = [self.ev(a, sc) for a in args]
            if NONE in vs:
                return NONE
            r = vs[0]
            for v in vs[1:]:
                if self.less(r, v) if n == "max" else self.less(v, r):
                    r = v
            return r
        raise Unsupported(n + "()")

    def aggregate(self, e, scopes):
        _, n, args, distinct, star, over, flt = e
        save, self.group = self.group, None
        try:
            if flt is not None:
                scopes = [s for s in scopes if self.truth(self.ev(flt, s)) is True]
            if star:
                return I(len(scopes))
            vs = [v for v in (self.ev(args[0], s) for s in scopes) if v != NONE]
        finally:
            self.group = save
        if distinct:
            u = []
            for v in vs:
                if not any(self.equal(v, w) for w in u):
                    u.append(v)
            vs = u
        if n == "count":
            return I(len(vs))
        if n in ("max", "min"):
            if not vs:
                return NONE
            r = vs[0]
            for v in vs[1:]:
                if self.less(r, v) if n == "max" else self.less(v, r):
                    r = v
            return r
        if n in ("sum", "total"):
            if not vs:
                return NONE if n == "sum" else C(0.0)
            ls = [M.int_lin(self.it, self.st, v) for v in vs]
            if None in ls or n == "total":
                raise Unsupported(n)
            return I(sum(ls, ZERO_))
        raise Unsupported(n)


ZERO_ = Lin.of(0)


# ------------------------------------------------------------------ queries


class Queries(Eval):
    def relation(self, t, alias, sc):
        """-> (alias, names, affinities, rows); tables have their rowid last"""
        if isinstance(t, dict):
            n, f, rows = self.query(t, None)
            return alias, n, f, rows
        k = t.lower()
        if k in self.ctes:
            n, f, rows = self.ctes[k]
            return alias or t, n, f, rows
        tab = self.tables.get(k)
        if tab is None:
            raise SqlError(f"no such table: {t}")
        hidden = [r for r in ROWID if r not in tab.names()]
        return alias or t, tab.names() + [None] + hidden, [column(c) for c in tab.cols] + [None] + ["INTEGER"] * len(hidden), [
            v + (None,) + (I(rid),) * len(hidden) for rid, v in tab.rows]

    def joined(self, src, outer):
        """Scopes for all rows of a FROM clause."""
        scopes = [Scope([], outer)]
        if src is None:
            return scopes
        for kind, t, alias, on in src:
            alias, names, affs, rows = self.relation(t, alias, outer)
            out = []
            using = on[1] if on is not None and on[0] == "using" else None
            for s in scopes:
                hit = False
                for r in rows:
                    x = Scope(s.tabs + [(alias, names, affs, r)], outer)
                    if using:
                        ok = all(self.equal(s.find(None, c)[0], r[[m and m.lower() for m in names].index(c.lower())]) is True for c in using)
                        x = Scope(s.tabs + [(alias, [None if m is not None and m.lower() in [c.lower() for c in using] else m for m in names], affs, r)], outer)
                    else:
                        ok = on is None or self.truth(self.ev(on, x)) is True
                    if ok:
                        hit = True
                        out.append(x)
                if kind == "left" and not hit:
                    out.append(Scope(s.tabs + [(alias, names, affs, None)], outer))
            scopes = out
            if not rows and not scopes:
                # names are still checked
                self.shape = [(alias, names, affs, None)]
        return scopes

    def with_ctes(self, ctes, outer):
        for name, cols, q, rec in ctes:
            core = q["core"]
            if rec and core[0] in ("union", "union all") and self.mentions(core[2], name):
                names, affs, rows = self.core(core[1], outer)
                names = cols or names
                queue, all_ = list(rows), []
                if core[0] == "union":
                    queue = self.distinct(queue)
                seen = list(queue)
                n = 0
                top = None
                if q["limit"] is not None:
                    top = M.int_lin(self.it, self.st, self.ev(q["limit"], Scope([], outer)))
                    if top is None or not top.const:
                        raise Unsupported("limit")
                    top = top.c if top.c >= 0 else None
                while queue and (top is None or len(all_) < top):
                    n += 1
                    if n > 200:
                        raise Unsupported("recursion that does not end")
                    r = queue.pop(0)
                    all_.append(r)
                    saved = self.ctes.get(name)
                    self.ctes[name] = (names, affs, [r])
                    _, _, new = self.core(core[2], outer)
                    self.ctes.pop(name)
                    if saved is not None:
                        self.ctes[name] = saved
                    for x in new:
                        if core[0] == "union":
                            if any(all(self.same(a, b) for a, b in zip(x, y)) for y in seen):
                                continue
                            seen.append(x)
                        queue.append(x)
                if q["order"] or q["offset"] is not None:
                    raise Unsupported("order of a recursive query")
                self.ctes[name] = (names, affs, all_)
            else:
                n, f, rows = self.query(q, outer)
                if cols is not None and len(cols) != len(n):
                    raise SqlError(f"table {name} has {len(n)} values for {len(cols)} columns")
                self.ctes[name] = (cols or n, f, rows)

    def mentions(self, core, name):
        if isinstance(core, dict):
            return self.mentions(core["core"], name) or any(self.mentions(c[2], name) for c in core["ctes"])
        if isinstance(core, str):
            return core.lower() == name
        if isinstance(core, (tuple, list)):
            return any(self.mentions(x, name) for x in core)
        return False

    def query(self, q, outer):
        saved = dict(self.ctes)
        group, self.group = self.group, None
        win, self.win = self.win, {}
        self.with_ctes(q["ctes"], outer)
        names, affs, rows = self.core(q["core"], outer, q["order"])
        if q["order"] and q["core"][0] != "select":
            def key(r):
                s = Scope([("", names, affs, r)], outer)
                return [(r[e[1] - 1] if e[0] == "lit" and isinstance(e[1], int) else self.ev(e, s), d, nl) for e, d, nl in q["order"]]

            rows = self.sort(rows, key)
        for what in ("offset", "limit"):
            if q[what] is not None:
                v = self.ev(q[what], Scope([], outer))
                l = M.int_lin(self.it, self.st, v)
                if l is None or not l.const:
                    raise Unsupported(what)
                if what == "offset":
                    rows = rows[max(l.c, 0):]
                elif l.c >= 0:
                    rows = rows[: l.c]
        self.ctes = saved
        self.group, self.win = group, win
        return names, affs, rows

    def distinct(self, rows):
        out = []
        for r in rows:
            if not any(all(self.same(a, b) for a, b in zip(r, x)) for x in out):
                out.append(r)
        return out

    def core(self, c, outer, order=()):
        k = c[0]
        if k == "sub":
            return self.query(c[1], outer)
        if k == "values":
            rows = [tuple(self.ev(e, Scope([], outer)) for e in r) for r in c[1]]
            return [f"column{i + 1}" for i in range(len(rows[0]))], [None] * len(rows[0]), rows
        if k in ("union", "union all", "except", "intersect"):
            n, f, a = self.core(c[1], outer)
            n2, _, b = self.core(c[2], outer)
            if len(n) != len(n2):
                raise SqlError("SELECTs have different numbers of columns")
            if k == "union all":
                return n, f, a + b
            has = lambda r, l: any(all(self.same(x, y) for x, y in zip(r, z)) for z in l)
            if k == "union":
                return n, f, self.distinct(a + b)
            return n, f, self.distinct([r for r in a if has(r, b) == (k == "intersect")])
        _, distinct, cols, src, where, group, having = c
        scopes = self.joined(src, outer)
        if where is not None:
            scopes = [s for s in scopes if self.truth(self.ev(where, s)) is True]
        shape = self.layout(src, outer)
        cols = self.expand(cols, shape)
        names = [a or (e[2] if e[0] == "col" else f"column{i + 1}") for i, (e, a) in enumerate(cols)]
        sh = Scope(shape, outer)
        affs = [self.aff(e, sh) for e, _ in cols]
        parts = [e for e, _ in cols] + ([having] if having is not None else []) + [o[0] for o in order]
        agg = group is not None or any(w[0] == "call" and w[5] is None and w[1] in AGG and (w[4] or len(w[2]) == 1) for w in walk(parts))
        windows = [w for w in walk(parts) if w[0] == "call" and w[5] is not None]
        rows = []
        if agg:
            if windows:
                raise Unsupported("window over groups")
            groups = []
            if group is None:
                groups = [(None, scopes)]
            else:
                # an item of the result can be named or numbered
                gs = []
                for g in group:
                    if g[0] == "lit" and isinstance(g[1], int):
                        g = cols[g[1] - 1][0]
                    elif g[0] == "col" and g[1] is None and sh.find(None, g[2]) is None:
                        g = next((e for e, a in cols if a and a.lower() == g[2].lower()), g)
                    gs.append(g)
                for s in scopes:
                    key = [self.ev(g, s) for g in gs]
                    for kk, l in groups:
                        if all(self.same(a, b) for a, b in zip(key, kk)):
                            l.append(s)
                            break
                    else:
                        groups.append((key, [s]))
            for key, l in groups:
                rep = self.representative(l, parts) if l else Scope([(a, n, f, None) for a, n, f, _ in shape], outer)
                self.group = l
                if having is None or self.truth(self.ev(having, self.aliased(rep, cols))) is True:
                    vals = tuple(self.ev(e, rep) for e, _ in cols)
                    rows.append((vals, [self.order_value(o, vals, names, cols, rep) for o in order]))
                self.group = None
        else:
            if having is not None:
                raise SqlError("a GROUP BY clause is required before HAVING")
            values = {id(w): self.window(w, scopes) for w in windows}
            for i, s in enumerate(scopes):
                self.win = {k: v[i] for k, v in values.items()}
                vals = tuple(self.ev(e, s) for e, _ in cols)
                rows.append((vals, [self.order_value(o, vals, names, cols, s) for o in order]))
            self.win = {}
        if order:
            rows = self.sort(rows, lambda r: [(v, o[1], o[2]) for v, o in zip(r[1], order)])
        rows = [r for r, _ in rows]
        if distinct:
            rows = self.distinct(rows)
        return names, affs, rows

    def aliased(self, rep, cols):
        s = Scope(rep.tabs, rep.outer)
        for e, a in cols:
            if a is not None:
                s.extra[a.lower()] = self.ev(e, rep)
        return s

    def order_value(self, o, vals, names, cols, s):
        e = o[0]
        if e[0] == "lit" and isinstance(e[1], int):
            return vals[e[1] - 1]
        if e[0] == "col" and e[1] is None:
            for i, (x, a) in enumerate(cols):
                if a is not None and a.lower() == e[2].lower():
                    return vals[i]
        return self.ev(e, s)

    def representative(self, l, parts):
        """The row bare columns are taken from."""
        mm = [w for w in walk(parts) if w[0] == "call" and w[5] is None and w[1] in ("max", "min") and len(w[2]) == 1]
        if len(mm) == 1 and len(l) > 1:
            v = self.aggregate(mm[0], l)
            for s in l:
                if self.same(self.ev(mm[0][2][0], s), v):
                    return s
        return l[0]

    def window(self, w, scopes):
        _, n, args, distinct, star, (part, order), flt = w
        groups = []
        for i, s in enumerate(scopes):
            key = [self.ev(p, s) for p in part]
            for kk, l in groups:
                if all(self.same(a, b) for a, b in zip(key, kk)):
                    l.append(i)
                    break
            else:
                groups.append((key, [i]))
        r = [NONE] * len(scopes)
        for _, l in groups:
            ks = {i: [(self.ev(e, scopes[i]), d, nl) for e, d, nl in order] for i in l}
            l = self.sort(l, lambda i: ks[i])
            if n == "row_number":
                for k, i in enumerate(l):
                    r[i] = I(k + 1)
            elif n in ("rank", "dense_rank"):
                rank = dense = 0
                for k, i in enumerate(l):
                    if k == 0 or self.before(ks[l[k - 1]], ks[i]):
                        rank, dense = k + 1, dense + 1
                    r[i] = I(rank if n == "rank" else dense)
            elif n in ("first_value", "last_value"):
                if n == "last_value" and order:
                    raise Unsupported(n)
                for i in l:
                    r[i] = self.ev(args[0], scopes[l[0] if n == "first_value" else l[-1]])
            elif n in AGG and not order:
                v = self.aggregate(w, [scopes[i] for i in l])
                for i in l:
                    r[i] = v
            elif n in AGG:
                # all rows up to the current one and its peers
                for k, i in enumerate(l):
                    up = [j for m, j in enumerate(l) if m <= k or not self.before(ks[i], ks[j])]
                    r[i] = self.aggregate(w, [scopes[j] for j in up])
            else:
                raise Unsupported(n)
        return r

    def layout(self, src, outer):
        return [] if src is None else [self.relation(t, alias, outer)[:3] + (None,) for _, t, alias, _ in src]

    def expand(self, cols, shape):
        out = []
        for e, a in cols:
            if e != "*":
                out.append((e, a))
                continue
            hit = False
            for alias, names, _, _ in shape:
                if a is not None and (alias or "").lower() != a.lower():
                    continue
                hit = True
                for n in names:
                    if n is None:
                        break  # hidden names follow
                    out.append((("col", alias, n), n))
            if not hit:
                raise SqlError("no such table: " + str(a))
        return out


# --------------------------------------------------------------- statements


class Statements(Queries):
    def table(self, name):
        t = self.tables.get(name.lower())
        if t is None:
            raise SqlError(f"no such table: {name}")
        return t

    def put(self, t):
        self.tables[t.name.lower()] = t

    def scope(self, t, alias, rid, vals, extra=()):
        hidden = [r for r in ROWID if r not in t.names()]
        return (alias or t.name, t.names() + [None] + hidden, [column(c) for c in t.cols] + [None] + ["INTEGER"] * len(hidden), vals + (None,) + (I(rid),) * len(hidden))

    def run(self, s):
        """-> rows of the result"""
        return getattr(self, "s_" + s[0])(*s[1:])

    def s_query(self, q):
        return self.query(q, None)[2]

    def s_create(self, name, cols, keys, ok, opts):
        if name.lower() in self.tables:
            if ok:
                return []
            raise SqlError(f"table {name} already exists")
        if len({c["name"].lower() for c in cols}) != len(cols):
            raise SqlError("duplicate column name")
        if any(o == "strict" or o == "without" for o in opts):
            raise Unsupported("table option")
        ks = [[c["name"].lower()] for c in cols if c["unique"]] + [[n.lower() for n in k] for k in keys]
        self.put(Table(name, cols, tuple(map(tuple, ks))))
        return []

    def s_index(self, name, t, cols, unique, ok):
        t = self.table(t)
        names = [c[2].lower() if c[0] == "col" else c[1] if c[0] == "lit" else None for c in cols]
        for n in names:
            if n is not None and t.index(n) is None:
                raise SqlError(f"no such column: {n}")
        if unique:
            if None in names:
                raise Unsupported("unique index on an expression")
            u = Table(t.name, t.cols, t.keys + (tuple(names),), t.rows)
            self.put(u)
        return []

    def s_drop(self, what, name, ok):
        if what == "table":
            if name.lower() not in self.tables:
                if ok:
                    return []
                raise SqlError(f"no such table: {name}")
            del self.tables[name.lower()]
            return []
        if what == "index":
            return []
        raise Unsupported("DROP " + what)

    def s_pragma(self):
        return []

    def clashes(self, t, rid, vals, skip=()):
        """Rows with the same key: [(key, rowid)]"""
        out = []
        for key in t.keys:
            ix = [t.index(n) for n in key]
            for r, v in t.rows:
                if r not in skip and r != rid and all(self.equal(*(collated(x, t.cols[i].get("coll", "binary")) for x in (v[i], vals[i]))) is True for i in ix):
                    out.append((key, r))
        if t.alias() is not None or rid is not None:
            for r, v in t.rows:
                if r == rid and r not in skip:
                    out.append((("rowid",), r))
        return out

    def check_row(self, t, vals):
        for c, v in zip(t.cols, vals):
            if c["notnull"] and v == NONE:
                raise Integrity(f"NOT NULL constraint failed: {t.name}.{c['name']}")

    def s_insert(self, name, alias, how, cols, src, conflict, returning, ctes):
        self.with_ctes(ctes, None)
        t = self.table(name)
        names = t.names()
        if cols is None:
            ix = list(range(len(names)))
        else:
            ix = []
            for c in cols:
                if c.lower() in names:
                    ix.append(names.index(c.lower()))
                elif c.lower() in ROWID:
                    ix.append(-1)
                else:
                    raise SqlError(f"table {name} has no column named {c}")
        rows = self.query(src, None)[2] if src is not None else [()]
        out = []
        self.rowcount = 0
        for r in rows:
            if src is not None and len(r) != len(ix):
                raise SqlError(f"{len(r)} values for {len(ix)} columns")
            vals = [self.ev(c["default"], Scope([])) if c["default"] is not None else NONE for c in t.cols]
            rid = None
            for i, v in zip(ix, r):
                if i < 0:
                    rid = self.rid(v)
                else:
                    vals[i] = convert(v, affinity(t.cols[i]["type"]))
            a = t.alias()
            if a is not None and vals[a] != NONE:
                rid = self.rid(vals[a])
            if rid is None:
                rid = max([x for x, _ in t.rows], default=0) + 1
            if a is not None:
                vals[a] = I(rid)
            vals = tuple(vals)
            if how == "ignore" and any(c["notnull"] and v == NONE for c, v in zip(t.cols, vals)):
                continue
            self.check_row(t, vals)
            cl = self.clashes(t, rid, vals)
            if cl:
                done = False
                for target, sets, where in conflict:
                    tn = None if target is None else tuple(sorted(x[2].lower() for x in target))
                    if tn is not None and tn not in [tuple(sorted(k)) for k in t.keys] and not (a is not None and tn == (names[a],)):
                        raise SqlError("ON CONFLICT clause does not match any PRIMARY KEY or UNIQUE constraint")
                    hit = [x for k, x in cl if tn is None or tuple(sorted(k)) == tn or k == ("rowid",) and a is not None and tn == (names[a],)]
                    if not hit:
                        continue
                    if sets is None:
                        done = True
                        break
                    old = next(v for q, v in t.rows if q == hit[0])
                    sc = Scope([self.scope(t, alias, hit[0], old), ("excluded",) + self.scope(t, None, rid, vals)[1:]])
                    sc.tabs[1] = ("excluded", [n for n in sc.tabs[1][1]], sc.tabs[1][2], sc.tabs[1][3])
                    # plain names are those of the table
                    own = Scope([sc.tabs[0]], Scope([sc.tabs[1]]))
                    if where is None or self.truth(self.ev(where, own)) is True:
                        new = self.assigned(t, old, sets, own)
                        t = self.replace_row(t, hit[0], new)
                        self.rowcount += 1
                        out.append((hit[0], new))
                    done = True
                    break
                if done:
                    continue
                if how == "ignore":
                    continue
                if how == "replace":
                    gone = {x for _, x in cl}
                    t = t.with_rows([x for x in t.rows if x[0] not in gone])
                else:
                    raise Integrity(f"UNIQUE constraint failed: {t.name}.{', '.join(cl[0][0])}")
            elif conflict:
                for target, _, _ in conflict:
                    if target is not None and tuple(sorted(x[2].lower() for x in target)) not in [tuple(sorted(k)) for k in t.keys] + ([(names[a],)] if a is not None else []):
                        raise SqlError("ON CONFLICT clause does not match any PRIMARY KEY or UNIQUE constraint")
            t = t.with_rows(sorted(t.rows + ((rid, vals),), key=lambda x: x[0]))
            self.rowcount += 1
            self.lastrowid = I(rid)
            out.append((rid, vals))
        self.put(t)
        return self.returned(t, alias, returning, out)

    def rid(self, v):
        if v == NONE:
            return None
        l = M.int_lin(self.it, self.st, v)
        if l is None:
            if isinstance(v, U):
                raise Unsupported("a row number that is not known")
            raise SqlError("datatype mismatch")
        if not l.const:
            raise Unsupported("a row number that is not known")
        return l.c

    def assigned(self, t, old, sets, sc):
        new = list(old)
        for cols, e in sets:
            if len(cols) > 1:
                if e[0] == "row":
                    vs = [self.ev(x, sc) for x in e[1]]
                elif e[0] == "scalar":
                    rows = self.query(e[1], sc)[2]
                    vs = rows[0] if rows else [NONE] * len(cols)
                else:
                    raise SqlError("columns assigned one value")
                if len(vs) != len(cols):
                    raise SqlError("columns assigned values")
            else:
                vs = [self.ev(e, sc)]
            for c, v in zip(cols, vs):
                i = t.index(c)
                if i is None:
                    raise SqlError(f"no such column: {c}")
                new[i] = convert(v, affinity(t.cols[i]["type"]))
        new = tuple(new)
        self.check_row(t, new)
        return new

    def replace_row(self, t, rid, new):
        a = t.alias()
        if a is not None and self.rid(new[a]) != rid:
            raise Unsupported("a changed row number")
        cl = self.clashes(t, rid, new, (rid,))
        if cl:
            raise Integrity(f"UNIQUE constraint failed: {t.name}.{', '.join(cl[0][0])}")
        return t.with_rows([(q, new if q == rid else v) for q, v in t.rows])

    def s_update(self, name, alias, sets, src, where, returning, ctes, how):
        self.with_ctes(ctes, None)
        t = self.table(name)
        for cols, _ in sets:
            for c in cols:
                if t.index(c) is None:
                    raise SqlError(f"no such column: {c}")
        out, new = [], {}
        for rid, vals in t.rows:
            row = self.scope(t, alias, rid, vals)
            if src is None:
                sc = [Scope([row])]
            else:
                sc = [Scope([row] + s.tabs) for s in self.joined(src, None)]
            for s in sc:
                if where is None or self.truth(self.ev(where, s)) is True:
                    new[rid] = self.assigned(t, vals, sets, s)
                    out.append(rid)
                    break
        for rid, v in new.items():
            t = self.replace_row(t, rid, v)
        self.put(t)
        self.rowcount = len(out)
        return self.returned(t, alias, returning, [(r, new[r]) for r in out])

    def s_delete(self, name, alias, where, returning, ctes):
        self.with_ctes(ctes, None)
        t = self.table(name)
        gone = [(rid, v) for rid, v in t.rows if where is None or self.truth(self.ev(where, Scope([self.scope(t, alias, rid, v)]))) is True]
        out = self.returned(t, alias, returning, gone)
        ids = {r for r, _ in gone}
        self.put(t.with_rows([x for x in t.rows if x[0] not in ids]))
        self.rowcount = len(gone)
        return out

    def returned(self, t, alias, returning, rows):
        if returning is None:
            return []
        cols = self.expand(returning, [self.scope(t, alias, 0, (NONE,) * len(t.cols))])
        return [tuple(self.ev(e, Scope([self.scope(t, alias, r, v)])) for e, _ in cols) for r, v in rows]
