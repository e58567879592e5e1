"""C20: values reach the database only as parameters."""
from .db import *
from .trees import Tree, HISTORIES
from .. import lib_sql
from ..interp import Budget
from ..lib_text import const_text
from ..sql_parse import SqlError, Unsupported, parse

EXPLAIN = (
    "Taint analysis of every statement executed by the storage classes. Tags, contents and stored cells are opaque values; the text of each statement on every interpreted "
    "path must be made of constants and of the table name, so that no opaque part is in it, and must be the same whatever the row numbers are (each history is also run in a "
    "database in which all row numbers are shifted). Each text is parsed: it must be one statement with as many placeholders as parameters are bound."
)


def flat(v):
    """The values a value is made of."""
    todo, seen = [v], []
    while todo:
        x = todo.pop()
        seen.append(x)
        if isinstance(x, S):
            for p in x.parts:
                if isinstance(p, One):
                    todo.append(p.v)
                elif isinstance(p, Sl):
                    todo.append(p.base)
        elif isinstance(x, (U, Base)):
            todo += [a for a in x.args if isinstance(a, V)]
    return seen


class Texts:
    def __init__(self, ctx, d, table=None):
        self.ctx, self.d, self.table = ctx, d, table
        self.texts = set()

    def look(self, s, skip=0):
        for e in s.events():
            if e[0] == "sql":
                self.statement(s, *e[2:6])

    def statement(self, s, sql, params, method, where):
        where = "src/" + where
        key = where.rsplit(" in ", 1)[-1]
        text = lib_sql.text_of(sql)
        if text is None:
            parts = [x for x in flat(sql) if isinstance(x, (U, Base)) and x != self.table]
            tags = [x for x in parts if str(x.op if isinstance(x, U) else x.name).startswith(("tag:", "contents:"))]
            if tags:
                self.ctx.violation("text", key, f"{tags[0]!r} is part of the text of a statement: {describe(sql)}", where, path_of(s))
                return
            if not isinstance(sql, S) or any(isinstance(x, U) or isinstance(x, Base) and x.name != "table" for x in parts):
                self.ctx.undecided("text", key, describe(sql))
                return
            # the table name is the only part that is open
            text = "".join(p.v if isinstance(p, Lit) else "things" for p in sql.parts)
        self.texts.add((text, where))
        self.ctx.good("text", f"{key}: {' '.join(text.split())[:60]}")
        try:
            stmts, names = parse(text)
        except (SqlError, Unsupported) as e:
            self.ctx.undecided("parameters", key, f"{' '.join(text.split())[:80]}: {e}")
            return
        if method == "executescript":
            return
        if len(stmts) != 1 and method == "execute":
            self.ctx.violation("parameters", key, f"{len(stmts)} statements at once: {text!r}", where, path_of(s))
            return
        lists = [params]
        if method == "executemany":
            lists = None
        if lists is None:
            return
        ks = keys(params)
        if ks is not None:
            missing = [x for x in names if x[1:] not in ks]
            if missing:
                self.ctx.violation("parameters", key, f"no value is bound to {', '.join(missing)} of {' '.join(text.split())}", where, path_of(s))
            else:
                self.ctx.good("parameters", key + ": named")
            return
        n = count(params)
        if n is None:
            self.ctx.undecided("parameters", key, describe(params))
        elif any(x[0] in ":@$" for x in names):
            self.ctx.good("parameters", key + ": named")
        elif n != lib_sql.need(names):
            self.ctx.violation("parameters", key, f"{n} parameters are bound to a statement that has {lib_sql.need(names)}: {' '.join(text.split())}", where, path_of(s))
        else:
            self.ctx.good("parameters", f"{key}: {' '.join(text.split())[:60]}")


def keys(params):
    """The names that are given values in a mapping of parameters."""
    if not (isinstance(params, U) and params.op == "D" and params.args[-1] in (None, NONE)):
        return None
    ks = [const_text(as_seq(e.parts[0].v)) if as_seq(e.parts[0].v) is not None else None for e in params.args[:-1]]
    return None if None in ks else set(ks)


def count(params):
    if params == NONE:
        return 0
    if isinstance(params, U) and params.op == "L":
        params = params.args[0]
    q = as_seq(params)
    if q is None or q.kind in ("str", "bytes"):
        return None
    l = M.explicit(q)
    return len(l) if l is not None else None


def collection(ctx, opaque):
    d = Database(ctx)
    st = d.it.start()
    tags = distinct(st, ["a", "b", "x"])
    table = base("table", "str", lo=1).seq() if opaque else C("things")
    if opaque:
        d.it.db = False
    t = Texts(ctx, d, table)
    outs = [(s, r) for s, r in d.make(st, "db_collections", "DBCollection", table) if not isinstance(r, Raise)]
    if not outs:
        raise Anchor("DBCollection() cannot be evaluated")
    st, o = outs[0]
    t.look(st)
    sts = [st]
    if not opaque:
        outs = d.op(st.copy(), o, "__setitem__", tags["a"], content("a"))
        sts += [s for s, r in outs if not isinstance(r, Raise)]
    for s in sts:
        for name, args in (("__setitem__", [tags["x"], content("x")]), ("__setitem__", [tags["a"], content("y")]), ("__delitem__", [tags["a"]]),
                           ("__getitem__", [tags["a"]]), ("__getitem__", [tags["x"]]), ("__contains__", [tags["a"]]), ("__len__", []), ("__iter__", []),
                           ("get", [tags["x"]]), ("pop", [tags["a"]]), ("setdefault", [tags["x"], content("z")]), ("clear", [])):
            for x, r in d.op(s.copy(), o, name, *args):
                if name == "__iter__" and not isinstance(r, Raise):
                    try:
                        for y, q in d.it.to_seq(x.copy(), r, d.fr, None):
                            t.look(y)
                    except Budget as e:
                        ctx.undecided("parameters", "iteration", f"analysis not finished ({e})")
                t.look(x)
    ctx.absorb(d.it)


METHODS = ("path_to", "reverse_path_to", "__contains__", "base_version", "get_split", "new_get_split", "old_get_split")


def tree(ctx, k):
    _, ops = HISTORIES[k]
    seen = []
    for shift in (0, 3):
        t = Tree(ctx)
        d = t.d
        x = Texts(ctx, d)
        s = t.new()
        for i in range(shift):
            for s, r in t.apply(s, ("add", "other%d" % i, None)):
                if isinstance(r, Raise):
                    raise Anchor("add cannot be evaluated")
        for op in ops:
            outs = t.apply(s.copy(), op)
            for y, r in outs:
                x.look(y)
            outs = [y for y, r in outs if not isinstance(r, Raise)]
            if len(outs) != 1:
                raise Anchor(f"{op[0]} cannot be evaluated")
            s = outs[0]
        for n in sorted({o[1] for o in ops}) + ["stranger"]:
            for m in METHODS:
                for y, r in d.op(s.copy(), t.obj, m, t.tag(n)):
                    x.look(y)
        ctx.absorb(d.it)
        seen.append(x.texts)
    a, b = seen
    wa, wb = {w for _, w in a - b}, {w for _, w in b - a}
    for text, w in a - b:
        if w in wb:
            other = next(u for u, v in b - a if v == w)
            ctx.violation("row numbers", w.rsplit(" in ", 1)[-1], f"the text of a statement depends on the numbers of rows: {' '.join(text.split())} / {' '.join(other.split())}", w)
    for text, w in a & b:
        ctx.good("row numbers", " ".join(text.split())[:60])


def check(ctx):
    ctx.parallel([("collection", collection, f) for f in (True, False)] + [("tree", tree, k) for k in range(len(HISTORIES))])
