"""The storage classes on a database whose tables are known and whose cells
hold opaque tags and contents."""
import ast

from .util import *
from ..report import Anchor
from .. import lib_sql

MODEL = '''
def make_connection(): pass
'''


class Database:
    """An interpreter in which connections reach one database."""

    def __init__(self, ctx, fresh=True):
        self.ctx, self.fresh = ctx, fresh
        it = self.it = ctx.interp(load=False)
        it.trees["gaspra.model_"] = ast.parse(MODEL)
        it.load_all(("gaspra.dot_dump",))
        it.owner = "local"
        it.unroll = 40
        it.max_states = 4000
        it.db = True
        self.factory = it.attr_of("gaspra.model_", "make_connection")
        it.overrides[id(self.factory.node)] = self.connect
        self.fr = top_frame(it)
        self.shared = None

    def connect(self, it, st, f, args, kw, fr, node):
        if not self.fresh:
            c = st.facts.get(("DB", "shared"))
            if c is not None:
                return [(st, c)]
        from ..lib_ext import ext_obj

        c = ext_obj(st, "sqlite3.Connection", db=C("main"), kw=())
        st.event("connect", c, (C("main"),), {}, it.where(node, fr))
        if not self.fresh:
            st.facts[("DB", "shared")] = c
        return [(st, c)]

    def make(self, st, mod, name, *args):
        """-> outcomes of the constructor"""
        cls = self.ctx.fn(self.it, mod, name)
        return self.it.call(st, cls, [*args], {"connection_factory": self.factory}, self.fr, None)

    def one(self, outs, what):
        """The only normal outcome."""
        outs = [(s, r) for s, r in outs if feasible(s)]
        if len(outs) != 1 or isinstance(outs[0][1], Raise):
            raise Anchor(f"{what} cannot be evaluated")
        return outs[0]

    def op(self, st, obj, name, *args):
        """Outcomes of a method."""
        out = []
        for s, f in self.it.getattr(st, obj, name, self.fr, None):
            if isinstance(f, Raise):
                out.append((s, f))
            else:
                out += self.it.call(s, f, list(args), {}, self.fr, None)
        return [(s, r) for s, r in out if feasible(s)]

    def where(self, mod, cls, name):
        f = self.it.lookup(self.it.init, self.ctx.fn(self.it, mod, cls), name)
        return where_fn(f) if f is not None and hasattr(f, "node") else f"src/gaspra/{mod}.py"

    def name(self, st, r):
        """Name of the exception of a failing outcome."""
        return self.it.exc_name(st, r)


def distinct(st, names):
    tags = {n: U("tag:" + n, (), None) for n in names}
    for a in tags.values():
        st.facts[("none", a)] = False
        for b in tags.values():
            if a is not b:
                st.facts[M.eqkey(a, b)] = False
    return tags


def content(n):
    return base("contents:" + n, "bytes").seq()
