"""C21: a database collection behaves like a dictionary."""
from .db import *

EXPLAIN = (
    "The methods of the collection are interpreted on abstract tables: the text of each statement is parsed and its effect computed on rows whose tags are opaque, pairwise "
    "different values and whose contents are opaque byte strings, so that the result holds for any tags and contents. Statements choose rows only by comparing tags, so "
    "tables of at most three rows (in several orders, with replaced and deleted rows, beside a second collection) stand for larger ones. "
    "Families of easily confused explicit tags (1, '1', b'1', '', 0, ...) are added. After every operation reading, membership, length and iteration are compared with a dictionary."
)

SETUPS = [
    [], [("set", "a", 1)], [("set", "a", 1), ("set", "b", 1)], [("set", "b", 1), ("set", "a", 1)], [("set", "a", 1), ("set", "a", 2)],
    [("set", "a", 1), ("set", "b", 1), ("set", "c", 1)], [("set", "c", 1), ("set", "a", 1), ("set", "b", 1)],
    [("set", "a", 1), ("set", "b", 1), ("del", "a", 0)], [("set", "a", 1), ("set", "b", 1), ("set", "c", 1), ("del", "b", 0)],
    [("set", "a", 1), ("del", "a", 0), ("set", "a", 2)], [("set", "a", 1), ("set", "b", 1), ("set", "a", 2), ("set", "b", 2)],
    [("set", "a", 1), ("del", "a", 0)],
]

FAMILIES = [
    None,
    {"a": 1, "b": "1", "c": b"1", "x": "01"},
    {"a": "", "b": 0, "c": "0", "x": b""},
    {"a": "a", "b": "A", "c": "a ", "x": " a"},
    {"a": "%", "b": "_", "c": "*", "x": "?"},
    {"a": "'", "b": '"', "c": "x' OR '1'='1", "x": "--"},
    {"a": -1, "b": 2 ** 40, "c": "-1", "x": "1e1"},
]


class Case:
    def __init__(self, ctx, fam, fresh):
        self.ctx = ctx
        self.d = d = Database(ctx, fresh)
        self.st = d.it.start()
        if FAMILIES[fam] is None:
            self.tags = distinct(self.st, ["a", "b", "c", "x"])
        else:
            self.tags = {k: I(v) if isinstance(v, int) else C(v) for k, v in FAMILIES[fam].items()}
        self.what = "opaque tags" if fam == 0 else "tags such as " + ", ".join(repr(v) for v in FAMILIES[fam].values())
        self.contents = {}

    def value(self, k):
        if k not in self.contents:
            self.contents[k] = content(f"{k[0]}{k[1]}{'o' if len(k) > 2 else ''}")
        return self.contents[k]

    def good(self, rule, what):
        self.ctx.good(rule, f"{what}, {self.what}")

    def bad(self, s, rule, key, msg, meth, *vals):
        if exact(s, *vals):
            self.ctx.violation(rule, key, msg + f" ({self.what})", self.d.where("db_collections", "DBCollection", meth), path_of(s))
        else:
            self.ctx.undecided(rule, key, msg)

    def eq(self, s, a, b):
        """True when surely equal, False when possibly not."""
        return all(r is True for _, r in M.eq(self.d.it, s.copy(), a, b, self.d.fr, None))

    def outcome(self, s, r):
        return self.d.name(s, r) if isinstance(r, Raise) else r

    def expect(self, s, r, rule, what, want, meth):
        """want: a value, None for no particular one, or the name of an exception"""
        if isinstance(r, Raise):
            n = self.d.name(s, r)
            if n == want:
                self.good(rule, what)
            else:
                self.bad(s, rule, f"{meth}: {n}", f"{what} raises {n}", meth)
            return n == want
        if isinstance(want, str):
            self.bad(s, rule, f"{meth}: no {want}", f"{what} gives {describe(r)} instead of raising {want}", meth, r)
            return False
        if want is None or self.eq(s, r, want):
            self.good(rule, what)
            return True
        self.bad(s, rule, meth, f"{what} gives {describe(r)} instead of {describe(want)}", meth, r)
        return False

    def observe(self, s, o, model, after, label):
        """What the collection shows is the dictionary `model`."""
        d = self.d
        for k in self.tags:
            t = self.tags[k]
            for x, r in d.op(s.copy(), o, "__getitem__", t):
                self.expect(x, r, "get", f"reading {'a stored' if k in model else 'an unknown'} tag {after}", model.get(k, "KeyError"), "__getitem__")
            for x, r in d.op(s.copy(), o, "__contains__", t):
                if isinstance(r, Raise):
                    self.expect(x, r, "in", f"membership {after}", C(k in model), "__contains__")
                    continue
                for y, b in d.it.truth(x, r, d.fr, None):
                    self.expect(y, C(b), "in", f"membership of {'a stored' if k in model else 'an unknown'} tag {after}", C(k in model), "__contains__")
        for x, r in d.op(s.copy(), o, "__len__"):
            self.expect(x, r, "len", f"length {after}", I(len(model)), "__len__")
        for x, r in d.op(s.copy(), o, "__iter__"):
            outs = [(x, r)] if isinstance(r, Raise) else d.it.to_seq(x, r, d.fr, None)
            for y, q in outs:
                if isinstance(q, Raise):
                    self.expect(y, q, "iter", f"iteration {after}", None, "__iter__")
                    continue
                got = M.explicit(q)
                if got is None:
                    self.ctx.undecided("iter", after, describe(q))
                    continue
                left = [self.tags[k] for k in model]
                extra = []
                for v in got:
                    for t in left:
                        if self.eq(y, v, t) and (not isinstance(t, (C, I)) or type(v) is type(t)):
                            left.remove(t)
                            break
                    else:
                        extra.append(v)
                if left or extra:
                    self.bad(y, "iter", "__iter__", f"iteration {after} gives {', '.join(map(describe, got)) or 'nothing'} for the tags "
                             + (", ".join(describe(self.tags[k]) for k in model) or "none"), "__iter__", *got)
                else:
                    self.good("iter", f"iteration {after}")

    def setup(self, ops):
        """-> (state, collection, other collection, model)"""
        d = self.d
        st, other = d.one(d.make(self.st, "db_collections", "DBCollection", C("another")), "DBCollection()")
        st, o = d.one(d.make(st, "db_collections", "DBCollection", C("things")), "DBCollection()")
        for k in "ac":
            for st2, r in d.op(st, other, "__setitem__", self.tags[k], self.value((k, 0, "o"))):
                if isinstance(r, Raise):
                    self.expect(st2, r, "set", "storing", None, "__setitem__")
                    return None
                st = st2
        model = {}
        for op, k, n in ops:
            args = [self.tags[k]] + ([self.value((k, n))] if op == "set" else [])
            outs = d.op(st, o, "__setitem__" if op == "set" else "__delitem__", *args)
            if len(outs) != 1 or isinstance(outs[0][1], Raise):
                for s, r in outs:
                    if isinstance(r, Raise):
                        self.expect(s, r, op, "storing" if op == "set" else "deleting a stored tag", None, "__setitem__" if op == "set" else "__delitem__")
                    else:
                        self.ctx.undecided(op, "cases", "several outcomes")
                return None
            st = outs[0][0]
            if op == "set":
                model[k] = self.value((k, n))
            else:
                del model[k]
        return st, o, other, model


def run(ctx, fam, fresh, k):
    c = Case(ctx, fam, fresh)
    d = c.d
    ops = SETUPS[k]
    r = c.setup(ops)
    if r is None:
        ctx.absorb(d.it)
        return
    st, o, other, model = r
    omodel = {x: c.value((x, 0, "o")) for x in "ac"}
    c.observe(st, o, model, "after " + (", ".join(f"{a} {b}" for a, b, _ in ops) or "nothing"), "setup")
    c.observe(st, other, omodel, "in another collection", "other")
    for t in c.tags:
        for s, v in d.op(st.copy(), o, "__setitem__", c.tags[t], c.value((t, 9))):
            what = f"storing {'a known' if t in model else 'a new'} tag"
            if c.expect(s, v, "set", what, None, "__setitem__"):
                c.observe(s, o, {**model, t: c.value((t, 9))}, "after " + what, "set")
                c.observe(s, other, omodel, "in another collection after " + what, "other")
        for s, v in d.op(st.copy(), o, "__delitem__", c.tags[t]):
            what = f"deleting {'a known' if t in model else 'an unknown'} tag"
            if c.expect(s, v, "del", what, None if t in model else "KeyError", "__delitem__"):
                c.observe(s, o, {x: v for x, v in model.items() if x != t}, "after " + what, "del")
                c.observe(s, other, omodel, "in another collection after " + what, "other")
    more(c, st, o, model)
    ctx.absorb(d.it)


def more(c, st, o, model):
    """Operations the class defines itself instead of inheriting them."""
    d = c.d
    cls = c.ctx.fn(d.it, "db_collections", "DBCollection")
    default = content("default")

    def own(n):
        f = d.it.lookup(d.it.init, cls, n)
        return f is not None and hasattr(f, "node")

    for t in c.tags:
        tag, known = c.tags[t], t in model
        rest = {x: v for x, v in model.items() if x != t}
        word = "a known" if known else "an unknown"
        for n, args, want, after in (
            ("get", [tag], model.get(t, NONE), model), ("get", [tag, default], model.get(t, default), model),
            ("pop", [tag], model.get(t, "KeyError"), rest), ("pop", [tag, default], model.get(t, default), rest),
            ("setdefault", [tag, default], model.get(t, default), {**model, t: model.get(t, default)}),
        ):
            if not own(n):
                continue
            for s, v in d.op(st.copy(), o, n, *args):
                if c.expect(s, v, n, f"{n}() of {word} tag", want, n):
                    c.observe(s, o, after, f"after {n}() of {word} tag", n)
    if own("clear"):
        for s, v in d.op(st.copy(), o, "clear"):
            if c.expect(s, v, "clear", "clear()", None, "clear"):
                c.observe(s, o, {}, "after clear()", "clear")


def check(ctx):
    jobs = [("dictionary", run, 0, fresh, k) for k in range(len(SETUPS)) for fresh in (True, False)]
    ks = range(len(SETUPS)) if ctx.tier == "thorough" else (3, 5, 8, 10)
    jobs += [("dictionary", run, f, True, k) for f in range(1, len(FAMILIES)) for k in ks]
    ctx.parallel(jobs)
