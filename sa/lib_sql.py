"""The database behind a connection: committed tables, and what a
transaction has changed so far.  In use when the interpreter's `db` is set;
all connections then reach the same database."""
from .values import *
from .seq import as_seq, simp
from . import models as M
from .sql_parse import SqlError, Unsupported, parse
from .sql_eval import Fork, Integrity, Statements

NONE = C(None)
SAVED = ("DB", "saved")
CACHE = {}


def saved(st):
    return st.facts.get(SAVED, ())


def work(st, conn):
    return st.facts.get(("DB", "work", conn))


def pending(st):
    """[(connection, tables)] of open transactions"""
    return [(k[2], v) for k, v in st.facts.items() if isinstance(k, tuple) and k[0] == "DB" and k[1] == "work" and v is not None]


def tables(st):
    return {t.name.lower(): t for t in saved(st)}


def pack(d):
    return tuple(d[k] for k in sorted(d))


def commit(st, conn):
    w = work(st, conn)
    if w is not None:
        st.facts[SAVED] = w
        st.facts[("DB", "work", conn)] = None


def rollback(st, conn):
    st.facts[("DB", "work", conn)] = None


def first_word(text):
    """What the module looks at to open a transaction."""
    i, n = 0, len(text)
    while i < n:
        if text[i].isspace():
            i += 1
        elif text.startswith("--", i):
            j = text.find("\n", i)
            i = n if j < 0 else j + 1
        elif text.startswith("/*", i):
            j = text.find("*/", i)
            i = n if j < 0 else j + 2
        else:
            break
    j = i
    while j < n and text[j].isalpha():
        j += 1
    return text[i:j].lower()


def bindable(st, v):
    """Whether the module accepts the value as a parameter."""
    if v == NONE or isinstance(v, (I, C)):
        return not isinstance(v, C) or v.v is None or isinstance(v.v, (str, bytes, int, float, bool))
    if isinstance(v, S):
        return v.kind in ("str", "bytes")
    return isinstance(v, U)




def parameters(interp, st, v):
    """-> list, dictionary or None"""
    if v == NONE:
        return []
    if isinstance(v, Ref) and st.obj(v).kind == "dict":
        r = {}
        for k, x in st.obj(v).f["ents"]:
            if x is not None:
                t = text_of(k)
                if t is None:
                    return None
                r[t] = x
        return r
    q = M.seqv(interp, st, v)
    if q is None or q.kind in ("str", "bytes"):
        return None
    return M.explicit(q)


def text_of(v):
    q = as_seq(v)
    if q is not None:
        v = simp(q)
    return v.v if isinstance(v, C) and isinstance(v.v, str) else None


def autocommit(st, conn):
    o = st.obj(conn).f
    for n in ("isolation_level",):
        if o.get(n) == NONE:
            return True
    for n, x in o.get("kw") or ():
        if n == "isolation_level" and x == NONE:
            return True
    return False


def execute(interp, st, cur, sql, params, fr, node, many=False, script=False):
    """-> outcomes (state, None | Raise); rows and counts go to the cursor."""
    text = text_of(sql)
    if text is None:
        st.vague("SQL text that is not known")
        return None
    conn = st.obj(cur).f["conn"]
    o = st.obj(conn).f
    if any(n in o for n in ("row_factory", "text_factory", "autocommit")) or any(n == "autocommit" for n, _ in o.get("kw") or ()):
        st.vague("options of a connection")
        return None
    if text not in CACHE:
        try:
            CACHE[text] = parse(text)
        except SqlError as e:
            CACHE[text] = e
        except Unsupported as e:
            CACHE[text] = e
    p = CACHE[text]
    if isinstance(p, Unsupported):
        st.vague(f"SQL: {p}")
        return None
    if isinstance(p, SqlError):
        return [(st, interp.exc(st, "sqlite3.OperationalError", node, fr, str(p)))]
    stmts, wanted = p
    if script:
        commit(st, conn)
    elif len(stmts) > 1:
        return [(st, interp.exc(st, "sqlite3.ProgrammingError", node, fr, "several statements"))]
    runs = [[]]
    if not script:
        runs = [params]
        if many:
            q = M.seqv(interp, st, params)
            runs = M.explicit(q) if q is not None else None
            if runs is None:
                st.vague("executemany")
                return None
    states = [st]
    out = []
    word = first_word(text)
    dml = word in ("insert", "update", "delete", "replace")
    count = 0
    for r in runs:
        nxt = []
        for s in states:
            ps = r if script else parameters(interp, s, r)
            if ps is None:
                s.vague("parameters of a statement")
                return None
            bad = None
            if isinstance(ps, list) and not script and not any(w[0] in ":@$" for w in wanted):
                if need(wanted) != len(ps):
                    bad = f"{need(wanted)} parameters expected, {len(ps)} supplied"
            elif isinstance(ps, dict) and any(w[0] in ":@$" and w[1:] not in ps for w in wanted):
                bad = "parameter missing"
            elif isinstance(ps, list) and any(w[0] in ":@$" for w in wanted):
                s.vague("named parameters given by position")
                return None
            if bad:
                out.append((s, interp.exc(s, "sqlite3.ProgrammingError", node, fr, bad)))
                continue
            if not all(bindable(s, x) for x in (ps.values() if isinstance(ps, dict) else ps)):
                out.append((s, interp.exc(s, "sqlite3.ProgrammingError", node, fr, "type of a parameter is not supported")))
                continue
            for stmt in stmts:
                todo, done = [s], []
                n = 0
                while todo:
                    x = todo.pop()
                    n += 1
                    if n > 64:
                        x.vague("too many cases in a statement")
                        return None
                    try:
                        rows, rc, last = one(interp, x, conn, stmt, ps, dml, fr, node)
                    except Fork as f:
                        todo.extend(f.states)
                        continue
                    except Unsupported as e:
                        x.vague(f"SQL: {e}")
                        return None
                    except Integrity as e:
                        out.append((x, interp.exc(x, "sqlite3.IntegrityError", node, fr, str(e))))
                        continue
                    except SqlError as e:
                        out.append((x, interp.exc(x, "sqlite3.OperationalError", node, fr, str(e))))
                        continue
                    o = x.obj(cur)
                    prev = o.f.get("rowcount")
                    if many and isinstance(prev, I) and count:
                        rc += prev.lin.c
                    x.put(cur, o.set(rows=S("list", [One(S("tuple", [One(v) for v in row])) for row in rows]), rowcount=I(rc if dml else -1), lastrowid=last,
                                     fetched=I(0)))
                    done.append(x)
                if not done:
                    s = None
                    break
                if len(done) > 1 and len(stmts) > 1:
                    done[0].vague("cases within a script")
                    return None
                s = done[0]
            if s is not None:
                nxt.extend(done)
        states = nxt
        count += 1
    return out + [(s, None) for s in states]


def need(wanted):
    n = 0
    for w in wanted:
        if w == "?":
            n += 1
        elif w[0] == "?":
            n = max(n, int(w[1:]))
    return n


def one(interp, st, conn, stmt, ps, dml, fr, node):
    w = work(st, conn)
    kind = stmt[0]
    if kind in ("begin", "commit", "rollback"):
        if kind == "begin":
            if w is not None:
                raise SqlError("cannot start a transaction within a transaction")
            st.facts[("DB", "work", conn)] = saved(st)
        else:
            if w is None:
                raise SqlError("no transaction is active")
            (commit if kind == "commit" else rollback)(st, conn)
        return [], -1, NONE
    cur = saved(st) if w is None else w
    e = Statements(interp, st, {t.name.lower(): t for t in cur}, ps, fr, node)
    rows = e.run(stmt)
    new = pack(e.tables)
    if new != cur or dml:
        for c, _ in pending(st):
            if c != conn:
                raise SqlError("database is locked")
    if w is not None or dml and not autocommit(st, conn):
        st.facts[("DB", "work", conn)] = new
    else:
        st.facts[SAVED] = new
    return rows, e.rowcount, e.lastrowid
