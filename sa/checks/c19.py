"""C19: changes of the database are committed or rolled back as a whole."""
from .db import *
from .trees import Tree, HISTORIES
from .. import lib_sql

EXPLAIN = (
    "Transactions are followed on abstract tables: what a connection has changed but not committed is kept apart from what is committed, as the sqlite3 module does it "
    "(a transaction opens before the first INSERT, UPDATE, DELETE or REPLACE; leaving a connection's with block commits, or rolls back on an exception). Each operation is "
    "interpreted on every path, including one for the failure of each single statement, with a connection of its own for each use and with a shared one. Obligations: after "
    "any outcome no connection has an open transaction; after success the committed tables are those that the operation shows to its own connection; after a failure they "
    "are those from before it."
)


def images(st):
    return lib_sql.saved(st)


def outcome(ctx, d, before, s, r, rule, what, where, changed=None):
    """Obligations after an operation."""
    failed = isinstance(r, Raise)
    how = "failing" if failed else "successful"

    def bad(key, msg):
        if exact(s):
            ctx.violation(rule, f"{what}: {key}", msg, where, path_of(s))
        else:
            ctx.undecided(rule, f"{what}: {key}", msg)

    if s.imp:
        ctx.undecided(rule, what, ", ".join(sorted(map(str, s.imp))))
        return
    if lib_sql.pending(s):
        bad("open transaction", f"a {how} {what} leaves a transaction open: its changes are neither committed nor rolled back")
        return
    ctx.good(rule, f"{what}: no open transaction after {'failure' if failed else 'success'}")
    if failed:
        if images(s) != before:
            bad("partial", f"a {what} that fails with {d.name(s, r)} keeps part of its changes")
        else:
            ctx.good(rule, f"{what}: nothing kept after a failure")
    elif changed is False and images(s) != before:
        bad("read", f"{what} changes the tables")
    elif changed is True and images(s) == before:
        bad("lost", f"a successful {what} changes nothing that another connection sees")
    else:
        ctx.good(rule, f"{what}: committed")


def collection(ctx, fresh):
    d = Database(ctx, fresh)
    st = d.it.start()
    tags = distinct(st, ["a", "b", "x"])
    st, o = d.one(d.make(st, "db_collections", "DBCollection", C("things")), "DBCollection()")
    if lib_sql.pending(st):
        ctx.violation("collection", "creating: open transaction", "creating a collection leaves a transaction open",
                      d.where("db_collections", "DBCollection", "__init__"))
        return
    states = [("an empty collection", st)]
    s = st
    for t in "ab":
        outs = d.op(s.copy(), o, "__setitem__", tags[t], content(t))
        for x, r in outs:
            outcome(ctx, d, images(s), x, r, "collection", "storing", d.where("db_collections", "DBCollection", "__setitem__"), True)
        s = [x for x, r in outs if not isinstance(r, Raise)][0]
        for c, _ in lib_sql.pending(s):
            lib_sql.commit(s, c)
    states.append(("a collection", s))
    d.it.ext_may_raise = True
    for what, s in states:
        full = s is not st
        for name, args, changed in (
            ("__setitem__", [tags["x"], content("x")], True), ("__setitem__", [tags["a"], content("y")], True),
            ("__delitem__", [tags["a"]], True if full else False), ("__delitem__", [tags["x"]], False),
            ("__getitem__", [tags["a"]], False), ("__contains__", [tags["a"]], False), ("__len__", [], False), ("__iter__", [], False),
        ):
            before = images(s)
            w = d.where("db_collections", "DBCollection", name)
            for x, r in d.op(s.copy(), o, name, *args):
                if name == "__iter__" and not isinstance(r, Raise):
                    for y, q in d.it.to_seq(x, r, d.fr, None):
                        outcome(ctx, d, before, y, q, "collection", "iteration", w, False)
                    continue
                outcome(ctx, d, before, x, r, "collection", name.strip("_"), w, changed if not isinstance(r, Raise) else None)
    # a statement of a new collection that fails
    for x, r in d.make(d.it.start(), "db_collections", "DBCollection", C("things")):
        if isinstance(r, Raise) and lib_sql.pending(x):
            ctx.violation("collection", "creating: open transaction", "creating a collection that fails leaves a transaction open",
                          d.where("db_collections", "DBCollection", "__init__"), path_of(x))
        else:
            ctx.good("collection", "creating")
    ctx.absorb(d.it)


def tree(ctx, fresh, k):
    what, ops = HISTORIES[k]
    t = Tree(ctx, fresh)
    d = t.d
    s = t.new()
    for i, op in enumerate(ops):
        before = images(s)
        outs = t.apply(s.copy(), op)
        good = [x for x, r in outs if not isinstance(r, Raise)]
        for x, r in outs:
            outcome(ctx, d, before, x, r, "tree", op[0], t.where(op[0]), True)
        if len(good) != 1:
            raise Anchor(f"{op[0]} cannot be evaluated")
        d.it.ext_may_raise = True
        for x, r in t.apply(s.copy(), op):
            outcome(ctx, d, before, x, r, "tree", op[0], t.where(op[0]), True if not isinstance(r, Raise) else None)
        d.it.ext_may_raise = False
        s = good[0]
        for c, _ in lib_sql.pending(s):
            lib_sql.commit(s, c)
    d.it.ext_may_raise = True
    before = images(s)
    last = ops[-1][1]
    calls = [("path_to", [t.tag(last)]), ("path_to", [t.tag("stranger")]), ("__contains__", [t.tag(last)]), ("base_version", [t.tag(last)]),
             ("get_split", [t.tag(last)]), ("change_parent", [t.tag(last), t.tag("stranger")]), ("change_parent", [t.tag("stranger"), t.tag(last)])]
    for name, args in calls:
        for x, r in d.op(s.copy(), t.obj, name, *args):
            outcome(ctx, d, before, x, r, "tree", name + (" with an unknown version" if t.tag("stranger") in args else ""), t.where(name),
                    False)
    ctx.absorb(d.it)


def check(ctx):
    ctx.parallel([("collection", collection, f) for f in (True, False)] + [("tree", tree, f, k) for f in (True, False) for k in range(len(HISTORIES))])
