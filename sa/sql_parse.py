"""A parser for the SQL that programs hand to sqlite3."""
import re

TOKEN = re.compile(
    r"""\s+|--[^\n]*|/\*.*?(?:\*/|\Z)
    |(?P<str>'(?:[^']|'')*')|(?P<blob>[xX]'[0-9a-fA-F]*')
    |(?P<qid>"(?:[^"]|"")*"|`[^`]*`|\[[^\]]*\])
    |(?P<num>\d+\.\d*|\.\d+|\d+)
    |(?P<param>\?\d*|[:@$][A-Za-z_]\w*)
    |(?P<id>[A-Za-z_]\w*)
    |(?P<op><>|<=|>=|==|!=|\|\||<<|>>|[-+*/%(),.;=<>&|~])""",
    re.X | re.S,
)

KEYWORDS = set("""select from where group by having order limit offset union all except intersect distinct as on using join left outer
inner cross natural insert into values update set delete replace or ignore abort fail rollback conflict do nothing create table index unique
if not exists drop primary key null default check references foreign constraint collate and is in between like glob case when then else
end cast with recursive over partition rows range returning begin commit transaction savepoint release asc desc exists filter""".split())


class SqlError(Exception):
    """What sqlite3 would refuse."""


class Unsupported(Exception):
    """SQL that this parser or evaluator does not know."""


def lex(text):
    r, p = [], 0
    while p < len(text):
        m = TOKEN.match(text, p)
        if m is None:
            raise SqlError(f"unrecognized token: {text[p]!r}")
        p = m.end()
        k = m.lastgroup
        if k is None:
            continue
        v = m.group(k)
        if k == "str":
            r.append(("lit", v[1:-1].replace("''", "'")))
        elif k == "blob":
            r.append(("lit", bytes.fromhex(v[2:-1])))
        elif k == "qid":
            r.append(("name", v[1:-1].replace('""', '"')))
        elif k == "num":
            r.append(("lit", float(v) if "." in v else int(v)))
        elif k == "id":
            r.append(("kw", v.lower()) if v.lower() in KEYWORDS else ("name", v))
        else:
            r.append((k, v))
    return r


class Parser:
    def __init__(self, text):
        self.t = lex(text)
        self.p = 0
        self.params = []  # in the order of the text: None for ?, number or name

    # -- tokens

    def peek(self, k=0):
        return self.t[self.p + k] if self.p + k < len(self.t) else ("end", "")

    def kw(self, *names):
        """Take the keywords if they come next."""
        for k, n in enumerate(names):
            if self.peek(k) != ("kw", n):
                return False
        self.p += len(names)
        return True

    def op(self, o):
        if self.peek() == ("op", o):
            self.p += 1
            return True
        return False

    def need(self, *names):
        if not self.kw(*names):
            raise SqlError(f'near "{self.peek()[1]}": syntax error')

    def needop(self, o):
        if not self.op(o):
            raise SqlError(f'near "{self.peek()[1]}": syntax error')

    SOFT = set("key replace do begin end conflict ignore fail abort rows range offset recursive over partition filter if returning asc desc release rollback cast like glob cross left natural inner outer".split())

    def name(self):
        k, v = self.peek()
        if k == "name" or k == "kw" and v in self.SOFT or k == "lit" and isinstance(v, str):
            self.p += 1
            return v
        raise SqlError(f'near "{v}": syntax error')

    def names(self):
        self.needop("(")
        r = [self.name()]
        while self.op(","):
            r.append(self.name())
        self.needop(")")
        return r

    # -- statements

    def statements(self):
        r = []
        while self.peek()[0] != "end":
            if self.op(";"):
                continue
            r.append(self.statement())
            if self.peek()[0] != "end":
                self.needop(";")
        return r

    def statement(self):
        ctes = self.with_()
        if self.peek() in (("kw", "select"), ("kw", "values")) or self.peek() == ("op", "("):
            return ("query", self.query(ctes))
        if self.kw("insert"):
            how = None
            if self.kw("or"):
                how = self.peek()[1]
                self.p += 1
            return self.insert(how, ctes)
        if self.kw("replace"):
            return self.insert("replace", ctes)
        if self.kw("update"):
            return self.update(ctes)
        if self.kw("delete"):
            self.need("from")
            t = self.name()
            alias = self.alias()
            return ("delete", t, alias, self.expr() if self.kw("where") else None, self.returning(), ctes)
        if ctes:
            raise SqlError(f'near "{self.peek()[1]}": syntax error')
        if self.kw("create"):
            return self.create()
        if self.kw("drop"):
            what = self.peek()[1]
            self.p += 1
            ok = self.kw("if", "exists")
            return ("drop", what, self.name(), ok)
        if self.kw("begin"):
            while self.peek()[0] in ("name", "kw"):
                self.p += 1
            return ("begin",)
        if self.kw("commit") or self.kw("end"):
            self.kw("transaction")
            return ("commit",)
        if self.kw("rollback"):
            self.kw("transaction")
            return ("rollback",)
        if self.peek()[0] == "name" and self.peek()[1].lower() == "pragma":
            while self.peek()[0] != "end" and self.peek() != ("op", ";"):
                self.p += 1
            return ("pragma",)
        if self.peek()[0] in ("name", "kw"):
            if self.peek()[1].lower() in ("alter", "attach", "detach", "vacuum", "analyze", "explain", "reindex", "savepoint", "release"):
                raise Unsupported(self.peek()[1])
        raise SqlError(f'near "{self.peek()[1]}": syntax error')

    def with_(self):
        if not self.kw("with"):
            return []
        rec = self.kw("recursive")
        r = []
        while True:
            n = self.name()
            cols = self.names() if self.peek() == ("op", "(") else None
            self.need("as")
            self.needop("(")
            q = self.query(self.with_())
            self.needop(")")
            r.append((n.lower(), cols, q, rec))
            if not self.op(","):
                return r

    def insert(self, how, ctes):
        self.need("into")
        t = self.name()
        alias = self.alias() if self.peek() == ("kw", "as") else None
        cols = self.names() if self.peek() == ("op", "(") else None
        if self.kw("default"):
            self.need("values")
            src = None
        else:
            src = self.query(self.with_())
        conflict = []
        while self.kw("on", "conflict"):
            target = None
            if self.peek() == ("op", "("):
                self.needop("(")
                target = [self.expr()]
                while self.op(","):
                    target.append(self.expr())
                self.needop(")")
                if self.kw("where"):
                    raise Unsupported("partial conflict target")
            self.need("do")
            if self.kw("nothing"):
                conflict.append((target, None, None))
            else:
                self.need("update", "set")
                s = self.sets()
                conflict.append((target, s, self.expr() if self.kw("where") else None))
        return ("insert", t, alias, how, cols, src, conflict, self.returning(), ctes)

    def sets(self):
        r = []
        while True:
            if self.op("("):
                cols = [self.name()]
                while self.op(","):
                    cols.append(self.name())
                self.needop(")")
                self.needop("=")
                r.append((cols, self.expr()))
            else:
                c = self.name()
                if not self.op("="):
                    self.needop("==")
                r.append(([c], self.expr()))
            if not self.op(","):
                return r

    def update(self, ctes):
        how = None
        if self.kw("or"):
            how = self.peek()[1]
            self.p += 1
        t = self.name()
        alias = self.alias()
        self.need("set")
        s = self.sets()
        src = self.source() if self.kw("from") else None
        return ("update", t, alias, s, src, self.expr() if self.kw("where") else None, self.returning(), ctes, how)

    def returning(self):
        return self.columns() if self.kw("returning") else None

    def create(self):
        self.kw("unique")
        unique = self.t[self.p - 1] == ("kw", "unique")
        while self.peek()[0] == "name" and self.peek()[1].lower() in ("temp", "temporary"):
            self.p += 1
        if self.kw("index"):
            ok = self.kw("if", "not", "exists")
            n = self.name()
            self.need("on")
            t = self.name()
            self.needop("(")
            cols = [self.expr()]
            self.kw("asc"), self.kw("desc")
            while self.op(","):
                cols.append(self.expr())
                self.kw("asc"), self.kw("desc")
            self.needop(")")
            if self.kw("where"):
                self.expr()
                unique = False
            return ("index", n, t, cols, unique, ok)
        if not self.kw("table"):
            raise Unsupported("CREATE " + self.peek()[1])
        ok = self.kw("if", "not", "exists")
        n = self.name()
        if self.peek() == ("kw", "as"):
            raise Unsupported("CREATE TABLE AS")
        self.needop("(")
        cols, keys = [], []
        while True:
            c = self.peek()[1] if self.peek()[0] == "kw" else None
            if c in ("primary", "unique", "constraint", "check", "foreign"):
                if self.kw("constraint"):
                    self.name()
                if self.kw("primary", "key") or self.kw("unique"):
                    keys.append(self.names())
                else:
                    self.skip()
            else:
                name = self.name()
                ty = []
                while self.peek()[0] == "name":
                    ty.append(self.name())
                    if self.peek() == ("op", "("):
                        self.skip(False)
                col = {"name": name, "type": " ".join(ty), "unique": False, "notnull": False, "default": None, "pk": False, "coll": "binary"}
                while self.peek() not in (("op", ","), ("op", ")")):
                    if self.kw("primary", "key"):
                        col["unique"] = col["pk"] = True
                        self.kw("asc"), self.kw("desc")
                        if self.peek()[0] == "name" and self.peek()[1].lower() == "autoincrement":
                            self.p += 1
                    elif self.kw("unique"):
                        col["unique"] = True
                    elif self.kw("not", "null"):
                        col["notnull"] = True
                    elif self.kw("null"):
                        pass
                    elif self.kw("default"):
                        if self.op("("):
                            col["default"] = self.expr()
                            self.needop(")")
                        else:
                            col["default"] = self.unary()
                    elif self.kw("collate"):
                        col["coll"] = self.name().lower()
                        if col["coll"] not in ("binary", "nocase", "rtrim"):
                            raise SqlError("no such collation sequence: " + col["coll"])
                    elif self.kw("references"):
                        self.name()
                        if self.peek() == ("op", "("):
                            self.names()
                        while self.peek() not in (("op", ","), ("op", ")")):
                            self.p += 1
                    elif self.kw("check"):
                        self.skip(False)
                    elif self.kw("on", "conflict"):
                        raise Unsupported("ON CONFLICT of a column")
                    elif self.kw("constraint"):
                        self.name()
                    else:
                        raise SqlError(f'near "{self.peek()[1]}": syntax error')
                cols.append(col)
            if self.op(","):
                continue
            self.needop(")")
            break
        opts = []
        while self.peek()[0] in ("name", "kw"):
            opts.append(self.peek()[1].lower())
            self.p += 1
            self.op(",")
        return ("create", n, cols, keys, ok, opts)

    def skip(self, rest=True):
        """Skip a parenthesized part."""
        while self.peek() != ("op", "("):
            if self.peek()[0] == "end":
                raise SqlError("incomplete input")
            self.p += 1
        d = 0
        while True:
            if self.peek() == ("op", "("):
                d += 1
            elif self.peek() == ("op", ")"):
                d -= 1
            elif self.peek()[0] == "end":
                raise SqlError("incomplete input")
            self.p += 1
            if d == 0:
                break
        while rest and self.peek() not in (("op", ","), ("op", ")")):
            self.p += 1

    # -- queries

    def query(self, ctes=()):
        q = self.core()
        while True:
            if self.kw("union"):
                q = ("union all" if self.kw("all") else "union", q, self.core())
            elif self.kw("except"):
                q = ("except", q, self.core())
            elif self.kw("intersect"):
                q = ("intersect", q, self.core())
            else:
                break
        order = self.order() if self.kw("order", "by") else []
        limit = offset = None
        if self.kw("limit"):
            limit = self.expr()
            if self.kw("offset"):
                offset = self.expr()
            elif self.op(","):
                limit, offset = self.expr(), limit
        return {"ctes": list(ctes), "core": q, "order": order, "limit": limit, "offset": offset}

    def order(self):
        r = []
        while True:
            e = self.expr()
            if self.kw("collate"):
                if self.name().lower() != "binary":
                    raise Unsupported("COLLATE")
            d = self.kw("desc")
            if not d:
                self.kw("asc")
            nulls = None
            if self.peek()[0] == "name" and self.peek()[1].lower() == "nulls":
                self.p += 1
                nulls = self.name().lower()
            r.append((e, d, nulls))
            if not self.op(","):
                return r

    def core(self):
        if self.op("("):
            q = self.query(self.with_())
            self.needop(")")
            return ("sub", q)
        if self.kw("values"):
            rows = []
            while True:
                self.needop("(")
                row = [self.expr()]
                while self.op(","):
                    row.append(self.expr())
                self.needop(")")
                rows.append(row)
                if not self.op(","):
                    return ("values", rows)
        self.need("select")
        distinct = self.kw("distinct")
        if not distinct:
            self.kw("all")
        cols = self.columns()
        src = self.source() if self.kw("from") else None
        where = self.expr() if self.kw("where") else None
        group = having = None
        if self.kw("group", "by"):
            group = [self.expr()]
            while self.op(","):
                group.append(self.expr())
        if self.kw("having"):
            having = self.expr()
        if self.peek()[0] == "name" and self.peek()[1].lower() == "window":
            raise Unsupported("WINDOW")
        return ("select", distinct, cols, src, where, group, having)

    def columns(self):
        r = []
        while True:
            if self.op("*"):
                r.append(("*", None))
            elif self.peek(1) == ("op", ".") and self.peek(2) == ("op", "*"):
                r.append(("*", self.name()))
                self.p += 2
            else:
                e = self.expr()
                a = None
                if self.kw("as") or self.peek()[0] == "name" or self.peek()[0] == "lit" and isinstance(self.peek()[1], str):
                    a = self.name()
                r.append((e, a))
            if not self.op(","):
                return r

    def alias(self):
        if self.kw("as"):
            return self.name()
        if self.peek()[0] == "name":
            return self.name()
        return None

    def source(self):
        """[(kind, table or query, alias, on expression)]"""
        r = [("first",) + self.table() + (None,)]
        while True:
            if self.op(","):
                r.append(("inner",) + self.table() + (None,))
                continue
            natural = self.kw("natural")
            kind = None
            if self.kw("left"):
                self.kw("outer")
                kind = "left"
                self.need("join")
            elif self.kw("inner", "join") or self.kw("cross", "join") or self.kw("join"):
                kind = "inner"
            elif self.peek()[0] == "name" and self.peek()[1].lower() in ("right", "full"):
                raise Unsupported(self.peek()[1] + " JOIN")
            if kind is None:
                return r
            t = self.table()
            on = None
            if self.kw("on"):
                on = self.expr()
            elif self.kw("using"):
                on = ("using", self.names())
            elif natural:
                raise Unsupported("NATURAL JOIN")
            r.append((kind,) + t + (on,))

    def table(self):
        if self.op("("):
            if self.peek() in (("kw", "select"), ("kw", "with"), ("kw", "values")):
                q = self.query(self.with_())
                self.needop(")")
                return q, self.alias()
            raise Unsupported("parenthesized join")
        n = self.name()
        if self.op("."):
            n = self.name()
        if self.peek() == ("op", "("):
            raise Unsupported("table function")
        a = self.alias()
        return n, a

    # -- expressions

    def expr(self):
        e = self.and_()
        while self.kw("or"):
            e = ("bin", "or", e, self.and_())
        return e

    def and_(self):
        e = self.not_()
        while self.kw("and"):
            e = ("bin", "and", e, self.not_())
        return e

    def not_(self):
        if self.peek() == ("kw", "not") and self.peek(1) != ("kw", "exists"):
            self.p += 1
            return ("un", "not", self.not_())
        return self.equality()

    def equality(self):
        e = self.compare()
        while True:
            if self.op("=") or self.op("=="):
                e = ("bin", "=", e, self.compare())
            elif self.op("<>") or self.op("!="):
                e = ("bin", "<>", e, self.compare())
            elif self.kw("is"):
                neg = self.kw("not")
                if self.kw("distinct"):
                    self.need("from")
                    neg = not neg
                e = ("is", e, self.compare(), neg)
            elif self.peek()[0] == "name" and self.peek()[1].lower() in ("isnull", "notnull"):
                n = self.name().lower()
                e = ("is", e, ("lit", None), n == "notnull")
            elif self.kw("not", "null"):
                e = ("is", e, ("lit", None), True)
            else:
                neg = self.peek() == ("kw", "not") and self.peek(1)[1] in ("in", "between", "like", "glob")
                if neg:
                    self.p += 1
                if self.kw("in"):
                    if not self.op("("):
                        e = ("inq", e, {"ctes": [], "core": ("select", False, [("*", None)], [("first", self.name(), None, None)], None, None, None), "order": [], "limit": None, "offset": None}, neg)
                        continue
                    if self.peek() in (("kw", "select"), ("kw", "with"), ("kw", "values")):
                        e = ("inq", e, self.query(self.with_()), neg)
                    else:
                        l = []
                        if self.peek() != ("op", ")"):
                            l.append(self.expr())
                            while self.op(","):
                                l.append(self.expr())
                        e = ("in", e, l, neg)
                    self.needop(")")
                elif self.kw("between"):
                    a = self.compare()
                    self.need("and")
                    e = ("between", e, a, self.compare(), neg)
                elif self.kw("like"):
                    e = ("like", e, self.compare(), neg)
                elif self.kw("glob"):
                    raise Unsupported("GLOB")
                else:
                    return e

    def compare(self):
        e = self.add()
        while True:
            for o in ("<=", ">=", "<", ">"):
                if self.op(o):
                    e = ("bin", o, e, self.add())
                    break
            else:
                return e

    def add(self):
        e = self.mul()
        while True:
            for o in ("+", "-", "&", "|"):
                if self.op(o):
                    e = ("bin", o, e, self.mul())
                    break
            else:
                return e

    def mul(self):
        e = self.unary()
        while True:
            for o in ("*", "/", "%", "||"):
                if self.op(o):
                    e = ("bin", o, e, self.unary())
                    break
            else:
                return e

    def unary(self):
        for o in ("-", "+", "~"):
            if self.op(o):
                return ("un", o, self.unary())
        e = self.primary()
        if self.kw("collate"):
            e = ("collate", e, self.name().lower())
        return e

    def primary(self):
        k, v = self.peek()
        if k == "lit":
            self.p += 1
            return ("lit", v)
        if k == "param":
            self.p += 1
            self.params.append(v)
            return ("param", v, len(self.params) - 1)
        if self.kw("null"):
            return ("lit", None)
        if self.op("("):
            if self.peek() in (("kw", "select"), ("kw", "with"), ("kw", "values")):
                q = self.query(self.with_())
                self.needop(")")
                return ("scalar", q)
            e = [self.expr()]
            while self.op(","):
                e.append(self.expr())
            self.needop(")")
            return e[0] if len(e) == 1 else ("row", e)
        neg = self.kw("not")
        if self.kw("exists"):
            self.needop("(")
            q = self.query(self.with_())
            self.needop(")")
            return ("exists", q, neg)
        if neg:
            raise SqlError('near "not": syntax error')
        if self.kw("case"):
            base = self.expr() if self.peek() != ("kw", "when") else None
            whens = []
            while self.kw("when"):
                c = self.expr()
                self.need("then")
                whens.append((c, self.expr()))
            other = self.expr() if self.kw("else") else None
            self.need("end")
            return ("case", base, whens, other)
        if self.kw("cast"):
            self.needop("(")
            e = self.expr()
            self.need("as")
            t = self.name()
            self.needop(")")
            return ("cast", e, t)
        if k == "name" and v.lower() in ("true", "false"):
            self.p += 1
            return ("lit", int(v.lower() == "true"))
        if k == "name" or k == "kw" and (v in self.SOFT or v == "replace"):
            n = self.name()
            if self.op("("):
                distinct = self.kw("distinct")
                star = self.op("*")
                args = []
                if not star and self.peek() != ("op", ")"):
                    args.append(self.expr())
                    while self.op(","):
                        args.append(self.expr())
                self.needop(")")
                flt = None
                if self.peek() == ("kw", "filter") and self.peek(1) == ("op", "("):
                    self.p += 2
                    self.need("where")
                    flt = self.expr()
                    self.needop(")")
                over = None
                if self.kw("over"):
                    self.needop("(")
                    part = []
                    if self.kw("partition", "by"):
                        part.append(self.expr())
                        while self.op(","):
                            part.append(self.expr())
                    order = self.order() if self.kw("order", "by") else []
                    if self.kw("rows") or self.kw("range"):
                        raise Unsupported("window frame")
                    self.needop(")")
                    over = (part, order)
                return ("call", n.lower(), args, distinct, star, over, flt)
            if self.op("."):
                m = self.name()
                if self.op("."):
                    n, m = m, self.name()
                return ("col", n, m)
            return ("col", None, n)
        raise SqlError(f'near "{v}": syntax error' if k != "end" else "incomplete input")


def parse(text):
    """-> (statements, parameters in the order of the text)"""
    p = Parser(text)
    return p.statements(), p.params
