"""Abstract interpreter for the Python subset used by the repository.

Evaluation maps a state to a list of (state, value) outcomes; states are
partitioned by class/flag/None-ness and joined at loop heads (join.py).
Nothing of the repository is imported or executed."""
import ast
import os
import time

from .num import Atom, Lin, Num, ZERO, ONE
from .values import *
from .values import V, Raise
from . import seq, prelude
from .seq import as_seq, lit, simp, slen, cval, normalize, concat, norm_parts
from .join import Joiner, Own

NONE, TRUE, FALSE = C(None), C(True), C(False)


def about_words(key):
    """Mentions an opaque piece of word characters."""
    for v in key[1:]:
        if isinstance(v, S):
            if v.kind in ("str", "bytes") and any(isinstance(p, Sl) and p.base.meta == "plain" for p in v.parts):
                return True
        elif isinstance(v, U) and any(isinstance(x, (S, U)) and about_words(("", x)) for x in v.args):
            return True
    return False


EXC_PARENT = {
    "BaseException": None, "Exception": "BaseException", "GeneratorExit": "BaseException",
    "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException",
    "ArithmeticError": "Exception", "OverflowError": "ArithmeticError", "ZeroDivisionError": "ArithmeticError",
    "AssertionError": "Exception", "AttributeError": "Exception", "EOFError": "Exception", "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError",
    "LookupError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError", "MemoryError": "Exception",
    "NameError": "Exception", "UnboundLocalError": "NameError", "OSError": "Exception", "IOError": "OSError",
    "FileNotFoundError": "OSError", "PermissionError": "OSError",
    "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError",
    "StopIteration": "Exception", "SyntaxError": "Exception", "TypeError": "Exception", "ValueError": "Exception",
    "UnicodeError": "ValueError", "UnicodeDecodeError": "UnicodeError", "UnicodeEncodeError": "UnicodeError",
    "Warning": "Exception", "sqlite3.Error": "Exception", "sqlite3.IntegrityError": "sqlite3.Error",
    "sqlite3.OperationalError": "sqlite3.Error", "json.JSONDecodeError": "ValueError", "struct.error": "Exception",
}
TYPES = {"int", "str", "bytes", "tuple", "list", "dict", "set", "frozenset", "slice", "bool", "float", "object", "type", "range", "bytearray", "memoryview", "NoneType", "function", "generator", "complex"}


class Budget(Exception):
    pass


class Fr:
    """One activation."""

    __slots__ = ("fn", "env", "mod", "locals", "globals", "nonlocals", "handler", "stack", "envs", "cls")

    def __init__(self, fn, env, mod, scope, handler, stack, envs):
        self.fn, self.env, self.mod = fn, env, mod
        self.locals, self.globals, self.nonlocals = scope
        self.handler, self.stack, self.envs = handler, stack, envs


def scope_of(node, cache={}):
    r = cache.get(id(node))
    if r is not None:
        return r[1]
    loc, glo, non = set(), set(), set()
    if isinstance(node, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            loc.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x:
                loc.add(x.arg)
    body = node.body if isinstance(node.body, list) else [node.body]

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
            for d in n.decorator_list:
                visit(d)
            if not isinstance(n, ast.ClassDef):
                for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                    visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # targets are local to the comprehension; walrus leaks
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    loc.add(m.target.id)
            return
        if isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            non.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            loc.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            loc.add(n.rest)
        for m in ast.iter_child_nodes(n):
            visit(m)

    for n in body:
        visit(n)
    loc -= glo
    loc -= non
    r = (frozenset(loc), frozenset(glo), frozenset(non))
    cache[id(node)] = (node, r)
    return r


def has_yield(node):
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Interp:
    def __init__(self, root=None, package="gaspra", limit_s=100.0, max_steps=3_000_000):
        self.root = root or os.environ.get("VERIF_REPO", "/repo")
        self.package = package
        self.dir = os.path.join(self.root, "src", package)
        self.sources = {}
        self.trees = {}
        for f in sorted(os.listdir(self.dir)):
            if f.endswith(".py"):
                src = open(os.path.join(self.dir, f), encoding="utf-8").read()
                m = package if f == "__init__.py" else package + "." + f[:-3]
                self.sources[m] = src
                self.trees[m] = ast.parse(src, f)
        self.mods = {}
        self.loading = []
        self.overrides = {}
        self.defs = {}
        self.max_rec = 3
        self.steps = 0
        self.max_steps = max_steps
        self.deadline = time.time() + limit_s
        self.undecided = set()
        self.visited = set()  # functions analysed
        self.call_edges = set()
        self.unmodelled = {}
        self.loop_rounds = 0
        self.uid = 0
        self.ext_models = {}
        self.field_types = {}
        self.truth_hook = None
        self.join_hook = None  # f(st) for every state that is about to be joined with another
        self.value_hook = None  # f(st, expression, value, frame) for every expression evaluated
        self.ext_may_raise = False
        self.db = False  # whether SQL is carried out on tables (lib_sql)
        self.undecodable = False  # reading a text file may fail to decode it
        self.nonempty = ()  # functions whose result is never empty
        self.may_raise_cb = None
        self.init = State()
        self.base = self.init.heap
        self.owner = "module"
        from . import models

        self.models = models
        models.install(self)

    # ------------------------------------------------------------ modules

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        tree = self.trees.get(name)
        if tree is None and name == prelude.NAME:
            tree = ast.parse(prelude.SOURCE, name)
        if tree is None:
            return None
        st = self.init
        env = st.alloc(Obj("env", None, {"__name__": C(name), "__file__": C(name.replace(".", "/") + ".py")}, "module"))
        self.mods[name] = env.id
        fr = Fr(None, env.id, name, (frozenset(), frozenset(), frozenset()), None, (), (env.id,))
        outs = self.block(tree.body, st, fr)
        done = [s for s, sig in outs if sig is None]
        for s, sig in outs:
            if sig is not None:
                self.undecided.add(f"import of {name} ends with {sig!r}")
        if len(outs) > 1:
            self.undecided.add(f"import of {name} has several outcomes")
        if done:
            # a fork copies the heap: adopt the surviving state
            s = done[0]
            if s is not self.init:
                self.init.heap.clear()
                self.init.heap.update(s.heap)
                self.init.num, self.init.facts, self.init.trace = s.num, s.facts, s.trace
        return env.id

    def load_all(self, skip=()):
        for m in self.trees:
            if m not in skip:
                self.load(m)

    def start(self):
        """A state to analyse calls in; the module level objects are shared."""
        self.owner = "module"
        self.load(prelude.NAME)
        self.owner = "local"
        s = State(self.base)
        s.facts = dict(self.init.facts)
        return s

    def attr_of(self, mod, name):
        """Public name of a module, or None."""
        e = self.load(mod)
        if e is None:
            return None
        return self.init.obj(e).f.get(name)

    def override(self, mod, name, handler):
        v = self.attr_of(mod, name)
        if not isinstance(v, Fn):
            raise Missing(f"{mod}.{name}")
        self.overrides[id(v.node)] = handler

    def fresh(self, name, ty=None, labels=NOLAB):
        self.uid += 1
        return U(name, (self.uid,), ty, labels)

    def where(self, node, fr=None):
        fn = fr.fn.qual if fr is not None and fr.fn is not None else "<module>"
        mod = fr.mod if fr is not None else "?"
        return f"{mod.replace('.', '/')}.py:{getattr(node, 'lineno', '?')} in {fn}"

    def tick(self, node):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("steps")
        if self.steps % 512 == 0 and time.time() > self.deadline:
            raise Budget("time")

    # ------------------------------------------------------------ statements

    def block(self, stmts, st, fr):
        cur = [st]
        out = []
        for s in stmts:
            nxt = []
            for x in cur:
                for y, sig in self.stmt(s, x, fr):
                    if sig is None:
                        nxt.append(y)
                    else:
                        out.append((y, sig))
            cur = self.merge(nxt, fr)
            if not cur:
                break
        return out + [(x, None) for x in cur]

    def merge(self, states, fr):
        """Drop states that are equal to another one (cheap join)."""
        if len(states) < 2:
            return states
        seen = {}
        cnt = {}
        for s in states:
            cnt[id(s.trace)] = cnt.get(id(s.trace), 0) + 1
        for s in states:
            k = self.cheap_key(s) if cnt[id(s.trace)] > 1 else None
            if k is None:
                seen[len(seen), id(s)] = s
            elif k not in seen:
                seen[k] = s
        r = list(seen.values())
        if len(r) > self.max_states:
            r = self.squeeze(r, fr)
        return r

    def cheap_key(self, s):
        try:
            return (
                frozenset([(k, o.key()) for k, o in s.heap.items()]),
                frozenset(s.num.eqs.items()), frozenset(s.num.ineqs), frozenset(s.facts.items()),
                id(s.trace), s.imp,
            )
        except TypeError:
            return None

    def squeeze(self, states, fr):
        """Too many states: join those with the same partition key."""
        groups = {}
        for s in states:
            groups.setdefault((self.pkey(s, fr), s.imp), []).append(s)
        out = []
        for g in groups.values():
            a = g[0]
            for b in g[1:]:
                a = Joiner(self, a, b).join()
            out.append(a)
        return out

    def pkey(self, st, fr):
        r = []
        for e in fr.envs:
            o = st.heap.get(e)
            if o is None:
                continue
            for k, v in sorted(o.f.items(), key=lambda p: str(p[0])):
                r.append((e, k, self.shape(st, v)))
                if isinstance(v, Ref) and k == "self":
                    so = st.obj(v)
                    for k2, v2 in sorted(so.f.items(), key=lambda p: str(p[0])):
                        if isinstance(k2, str):
                            r.append((e, k, k2, self.shape(st, v2)))
        return tuple(r)

    def shape(self, st, v):
        if isinstance(v, C):
            return ("c", v.v) if v.v is None or isinstance(v.v, bool) else "v"
        if isinstance(v, Fn):
            return ("fn", id(v.node))
        if isinstance(v, Bi):
            return ("bi", v.name)
        if isinstance(v, Bound) and isinstance(v.fn, Fn):
            return ("bound", id(v.fn.node))
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind == "inst":
                return ("i", o.cls.name)
            if o.kind == "list":
                q = o.f.get("seq")
                return ("list", "E" if not q.parts else "N")
            return o.kind
        if isinstance(v, U):
            return "v"
        if isinstance(v, (I, S)):
            return "v"
        return type(v).__name__

    def stmt(self, s, st, fr):
        self.tick(s)
        return getattr(self, "s_" + type(s).__name__, self.s_unknown)(s, st, fr)

    def s_unknown(self, s, st, fr):
        st.vague(f"statement {type(s).__name__}")
        self.undecided.add(f"{self.where(s, fr)}: statement {type(s).__name__} is not modelled")
        return [(st, None)]

    def s_Pass(self, s, st, fr):
        return [(st, None)]

    s_Import_done = s_Pass

    def s_Expr(self, s, st, fr):
        return self.as_sig(self.ev(s.value, st, fr))

    @staticmethod
    def as_sig(res):
        return [(x, ("exc", v) if isinstance(v, Raise) else None) for x, v in res]

    def s_Assign(self, s, st, fr):
        out = []
        for x, v in self.ev(s.value, st, fr):
            if isinstance(v, Raise):
                out.append((x, ("exc", v)))
                continue
            cur = [(x, None)]
            for t in s.targets:
                nxt = []
                for y, sig in cur:
                    if sig is not None:
                        out.append((y, sig))
                    else:
                        nxt += self.assign(t, v, y, fr)
                cur = nxt
            out += cur
        return out

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [(st, None)]
        out = []
        for x, v in self.ev(s.value, st, fr):
            if isinstance(v, Raise):
                out.append((x, ("exc", v)))
            else:
                out += self.assign(s.target, v, x, fr)
        return out

    def s_AugAssign(self, s, st, fr):
        t = s.target
        out = []
        if isinstance(t, ast.Name):
            load = ast.copy_location(ast.Name(t.id, ast.Load()), t)
            for x, vs in self.evs([load, s.value], st, fr):
                if isinstance(vs, Raise):
                    out.append((x, ("exc", vs)))
                    continue
                for y, v in self.binop(s.op, vs[0], vs[1], x, fr, s, inplace=True):
                    if isinstance(v, Raise):
                        out.append((y, ("exc", v)))
                    else:
                        out += self.assign(t, v, y, fr)
            return out
        if isinstance(t, ast.Attribute):
            for x, vs in self.evs([t.value, s.value], st, fr):
                if isinstance(vs, Raise):
                    out.append((x, ("exc", vs)))
                    continue
                for y, a in self.getattr(x, vs[0], t.attr, fr, t):
                    if isinstance(a, Raise):
                        out.append((y, ("exc", a)))
                        continue
                    for z, v in self.binop(s.op, a, vs[1], y, fr, s, inplace=True):
                        if isinstance(v, Raise):
                            out.append((z, ("exc", v)))
                        else:
                            out += self.as_sig(self.setattr(z, vs[0], t.attr, v, fr, s))
            return out
        if isinstance(t, ast.Subscript):
            for x, vs in self.evs([t.value, t.slice, s.value], st, fr):
                if isinstance(vs, Raise):
                    out.append((x, ("exc", vs)))
                    continue
                for y, a in self.getitem(x, vs[0], vs[1], fr, t):
                    if isinstance(a, Raise):
                        out.append((y, ("exc", a)))
                        continue
                    for z, v in self.binop(s.op, a, vs[2], y, fr, s, inplace=True):
                        if isinstance(v, Raise):
                            out.append((z, ("exc", v)))
                        else:
                            out += self.as_sig(self.setitem(z, vs[0], vs[1], v, fr, s))
            return out
        return self.s_unknown(s, st, fr)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.setname(st, t.id, v, fr, t)
            return [(st, None)]
        if isinstance(t, ast.Attribute):
            out = []
            for x, o in self.ev(t.value, st, fr):
                if isinstance(o, Raise):
                    out.append((x, ("exc", o)))
                else:
                    out += self.as_sig(self.setattr(x, o, t.attr, v, fr, t))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, vs in self.evs([t.value, t.slice], st, fr):
                if isinstance(vs, Raise):
                    out.append((x, ("exc", vs)))
                else:
                    out += self.as_sig(self.setitem(x, vs[0], vs[1], v, fr, t))
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            for x, items in self.unpack(st, v, t, fr):
                if isinstance(items, Raise):
                    out.append((x, ("exc", items)))
                    continue
                cur = [(x, None)]
                for e, i in zip(t.elts, items):
                    nxt = []
                    for y, sig in cur:
                        if sig is not None:
                            out.append((y, sig))
                        else:
                            nxt += self.assign(e, i, y, fr)
                    cur = nxt
                out += cur
            return out
        return self.s_unknown(t, st, fr)

    def unpack(self, st, v, t, fr):
        """-> list of (state, [values])"""
        n = len(t.elts)
        star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        out = []
        for x, q in self.to_seq(st, v, fr, t):
            if isinstance(q, Raise):
                out.append((x, q))
                continue
            need = n - (1 if star else 0)
            L = slen(q)
            d = L - need
            z = x.num.ge0(d) if star else x.num.is0(d)
            if not star and z is None or star and x.num.sign(d) is None:
                bad = x.copy()
                if star:
                    if bad.assume_ge0(-d - 1):
                        out.append((bad, self.exc(bad, "ValueError", t, fr)))
                    if not x.assume_ge0(d):
                        continue
                else:
                    # the wrong length is possible only if not excluded
                    out.append((bad, self.exc(bad, "ValueError", t, fr)))
                    if not x.assume_eq0(d):
                        continue
            elif not (z if not star else x.num.sign(d)):
                out.append((x, self.exc(x, "ValueError", t, fr)))
                continue
            states = [(x, [])]
            k0 = star[0] if star else n
            for k in range(k0):
                nxt = []
                for y, vals in states:
                    for z2, e in self.element(y, q, Lin(k), fr, t):
                        nxt.append((z2, vals + [e]))
                states = nxt
            if star:
                after = n - k0 - 1
                nxt = []
                for y, vals in states:
                    for z2, r in seq.slice_seq(y, q, Lin(k0), L - after, self):
                        lst = z2.alloc(Obj("list", None, {"seq": S("list", r.parts)}, self.owner))
                        nxt.append((z2, vals + [lst]))
                states = nxt
                for k in range(after):
                    nxt = []
                    for y, vals in states:
                        for z2, e in self.element(y, q, L - after + k, fr, t):
                            nxt.append((z2, vals + [e]))
                    states = nxt
            out += states
        return out

    def s_Return(self, s, st, fr):
        if s.value is None:
            return [(st, ("ret", NONE))]
        return [(x, ("exc", v) if isinstance(v, Raise) else ("ret", v)) for x, v in self.ev(s.value, st, fr)]

    def s_If(self, s, st, fr):
        out = []
        for x, b in self.cond(s.test, st, fr):
            if isinstance(b, Raise):
                out.append((x, ("exc", b)))
            else:
                out += self.block(s.body if b else s.orelse, x, fr)
        return out

    def s_While(self, s, st, fr):
        outs = []

        def step(x):
            r = []
            for y, b in self.cond(s.test, x, fr):
                if isinstance(b, Raise):
                    r.append((y, ("exc", b)))
                elif not b:
                    r.append((y, ("done",)))
                else:
                    for z, sig in self.block(s.body, y, fr):
                        if sig is None or sig[0] == "cont":
                            r.append((z, ("again",)))
                        else:
                            r.append((z, sig))
            return r

        for x, sig in self.fix(st, step, fr, s):
            if sig[0] == "done":
                if s.orelse:
                    outs += self.block(s.orelse, x, fr)
                else:
                    outs.append((x, None))
            elif sig[0] == "brk":
                outs.append((x, None))
            else:
                outs.append((x, sig))
        return outs

    def s_For(self, s, st, fr):
        outs = []
        for x, it in self.ev(s.iter, st, fr):
            if isinstance(it, Raise):
                outs.append((x, ("exc", it)))
                continue

            def body(y, elem):
                r = []
                for z, sig in self.assign(s.target, elem, y, fr):
                    if sig is not None:
                        r.append((z, sig))
                    else:
                        for w, sg in self.block(s.body, z, fr):
                            r.append((w, None if sg is not None and sg[0] == "cont" else sg))
                return r

            for y, sig in self.iterate(x, it, body, fr, s):
                if sig is None:
                    if s.orelse:
                        outs += self.block(s.orelse, y, fr)
                    else:
                        outs.append((y, None))
                elif sig[0] == "brk":
                    outs.append((y, None))
                else:
                    outs.append((y, sig))
        return outs

    def s_Break(self, s, st, fr):
        return [(st, ("brk",))]

    def s_Continue(self, s, st, fr):
        return [(st, ("cont",))]

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            cur = st.obj(fr.env).f.get("%exc")
            if cur is None:
                return [(st, ("exc", self.exc(st, "RuntimeError", s, fr)))]
            return [(st, ("exc", Raise(cur, s, fn=fr.fn)))]
        out = []
        for x, v in self.ev(s.exc, st, fr):
            if isinstance(v, Raise):
                out.append((x, ("exc", v)))
            elif isinstance(v, (Cls, Bi, Ext)):
                for y, e in self.call(x, v, [], {}, fr, s):
                    out.append((y, ("exc", e if isinstance(e, Raise) else Raise(e, s, fn=fr.fn))))
            else:
                out.append((x, ("exc", Raise(v, s, fn=fr.fn))))
        return out

    def s_Try(self, s, st, fr):
        res = self.block(s.body, st, fr)
        out = []
        for x, sig in res:
            if sig is None and s.orelse:
                out += self.block(s.orelse, x, fr)
            elif sig is not None and sig[0] == "exc" and sig[1].sig is None and s.handlers:
                out += self.handle(s, x, sig[1], fr)
            else:
                out.append((x, sig))
        if s.finalbody:
            fin = []
            for x, sig in out:
                for y, sg in self.block(s.finalbody, x, fr):
                    fin.append((y, sg if sg is not None else sig))
            out = fin
        return out

    s_TryStar = s_Try

    def handle(self, s, st, r, fr):
        out = []
        pend = [st]
        for h in s.handlers:
            nxt = []
            for x in pend:
                if h.type is None:
                    tests = [(x, True)]
                else:
                    tests = []
                    for y, t in self.ev(h.type, x, fr):
                        if isinstance(t, Raise):
                            out.append((y, ("exc", t)))
                        else:
                            tests += self.exc_match(y, r.exc, t)
                for y, b in tests:
                    if not b:
                        nxt.append(y)
                        continue
                    old = y.obj(fr.env).f.get("%exc")
                    y.put(fr.env, y.obj(fr.env).put("%exc", r.exc))
                    if h.name:
                        self.setname(y, h.name, r.exc, fr, h)
                    y.event("caught", r.exc, h.lineno, fr.fn, r)
                    for z, sig in self.block(h.body, y, fr):
                        f = dict(z.obj(fr.env).f)
                        f.pop("%exc", None)
                        if old is not None:
                            f["%exc"] = old
                        if h.name:
                            f.pop(h.name, None)
                        o = z.obj(fr.env)
                        z.put(fr.env, Obj("env", None, f, o.owner))
                        out.append((z, sig))
            pend = nxt
        return out + [(x, ("exc", r)) for x in pend]

    def exc_types(self, st, exc):
        """Names/classes the exception is an instance of, or None if unknown."""
        if isinstance(exc, Ref):
            o = st.obj(exc)
            if o.kind == "exc":
                return self.bi_mro(o.f["type"].name)
            if o.kind == "inst":
                r = []
                for c in self.mro(o.cls):
                    r.append(c)
                    if isinstance(c, Bi):
                        r += self.bi_mro(c.name)
                return r
        return None

    @staticmethod
    def bi_mro(n):
        r = []
        while n:
            r.append(n)
            n = EXC_PARENT.get(n)
        return r

    def exc_match(self, st, exc, t):
        ts = []

        def flat(v):
            if isinstance(v, S):
                for p in v.parts:
                    flat(p.v if isinstance(p, One) else None)
            elif isinstance(v, UnionT):
                for i in v.items:
                    flat(i)
            else:
                ts.append(v)

        flat(t)
        known = self.exc_types(st, exc)
        names = []
        for x in ts:
            if isinstance(x, Bi):
                names.append(x.name)
            elif isinstance(x, Cls):
                names.append(x)
            elif isinstance(x, Ext):
                names.append(x.path)
            else:
                known = None
        if "BaseException" in names or "Exception" in names and known is None:
            return [(st, True)]
        if known is None:
            a = st.copy()
            a.vague("unknown exception type")
            st.vague("unknown exception type")
            return [(a, True), (st, False)]
        return [(st, any(n in known for n in names))]

    def s_Assert(self, s, st, fr):
        out = []
        for x, b in self.cond(s.test, st, fr):
            if isinstance(b, Raise):
                out.append((x, ("exc", b)))
            elif b:
                out.append((x, None))
            else:
                out.append((x, ("exc", self.exc(x, "AssertionError", s, fr))))
        return out

    def s_Global(self, s, st, fr):
        return [(st, None)]

    s_Nonlocal = s_Global

    def s_Delete(self, s, st, fr):
        cur = [(st, None)]
        for t in s.targets:
            nxt = []
            for x, sig in cur:
                if sig is not None:
                    nxt.append((x, sig))
                elif isinstance(t, ast.Name):
                    o = x.obj(fr.env)
                    f = dict(o.f)
                    f.pop(t.id, None)
                    x.put(fr.env, Obj("env", None, f, o.owner))
                    nxt.append((x, None))
                elif isinstance(t, ast.Subscript):
                    for y, vs in self.evs([t.value, t.slice], x, fr):
                        if isinstance(vs, Raise):
                            nxt.append((y, ("exc", vs)))
                        else:
                            nxt += self.as_sig(self.models.delitem(self, y, vs[0], vs[1], fr, t))
                elif isinstance(t, ast.Attribute):
                    for y, v in self.ev(t.value, x, fr):
                        if isinstance(v, Raise):
                            nxt.append((y, ("exc", v)))
                        else:
                            self.mutated(y, v, "del ." + t.attr, fr, t)
                            nxt.append((y, None))
                else:
                    nxt += self.s_unknown(t, x, fr)
            cur = nxt
        return cur

    def s_Import(self, s, st, fr):
        for al in s.names:
            if al.name.split(".")[0] == self.package:
                self.load(al.name)
                if al.asname:
                    v = Mod(al.name)
                else:
                    v = Mod(self.package)
            elif al.asname:
                v = Ext(al.name)
            else:
                v = Ext(al.name.split(".")[0])
            self.setname(st, al.asname or al.name.split(".")[0], v, fr, s)
        return [(st, None)]

    def s_ImportFrom(self, s, st, fr):
        mod = s.module or ""
        if s.level:
            parts = fr.mod.split(".")
            # modules of the package are all directly in the package
            parts = [self.package]
            mod = ".".join(parts + ([mod] if mod else []))
        for al in s.names:
            if mod == self.package or mod.startswith(self.package + "."):
                sub = mod + "." + al.name
                e = self.load(mod)
                v = None
                if e is not None:
                    v = st.obj(e).f.get(al.name)
                    if v is None:
                        v = self.init.obj(e).f.get(al.name)
                if v is None and sub in self.trees:
                    self.load(sub)
                    v = Mod(sub)
                if v is None:
                    return [(st, ("exc", self.exc(st, "ImportError", s, fr)))]
            else:
                v = self.ext(mod + "." + al.name)
            self.setname(st, al.asname or al.name, v, fr, s)
        return [(st, None)]

    def ext(self, path):
        b = self.models.EXT_ALIAS.get(path)
        return b if b is not None else Ext(path)

    def s_FunctionDef(self, s, st, fr):
        out = []
        for x, v in self.make_fn(s, s.name, st, fr):
            if isinstance(v, Raise):
                out.append((x, ("exc", v)))
                continue
            cur = [(x, v)]
            for d in reversed(s.decorator_list):
                nxt = []
                for y, f in cur:
                    if isinstance(f, Raise):
                        nxt.append((y, f))
                    else:
                        for z, dv in self.ev(d, y, fr):
                            if isinstance(dv, Raise):
                                nxt.append((z, dv))
                            else:
                                nxt += self.decorate(z, dv, f, fr, s)
                cur = nxt
            for y, f in cur:
                if isinstance(f, Raise):
                    out.append((y, ("exc", f)))
                else:
                    self.setname(y, s.name, f, fr, s)
                    out.append((y, None))
        return out

    def decorate(self, st, d, f, fr, node):
        name = d.name if isinstance(d, Bi) else d.path if isinstance(d, Ext) else None
        flag = {"staticmethod": "static", "classmethod": "class", "property": "property",
                "contextlib.contextmanager": "cm", "functools.cached_property": "property"}.get(name)
        if isinstance(f, Fn):
            if flag:
                g = Fn(f.node, f.name, f.mod, f.env, f.defaults, f.kwdefaults, f.gen, f.qual, f.flags | {flag})
                return [(st, g)]
            if name in ("functools.lru_cache", "functools.cache", "functools.lru_cache()"):
                g = Fn(f.node, f.name, f.mod, f.env, f.defaults, f.kwdefaults, f.gen, f.qual, f.flags | {"cached"})
                return [(st, g)]
            if name in ("typing.overload", "abc.abstractmethod", "typing.final", "typing.override", "functools.wraps()"):
                return [(st, f)]
        if isinstance(f, Cls):
            if name in ("typing.runtime_checkable", "typing.final", "functools.total_ordering"):
                return [(st, f)]
        return self.call(st, d, [f], {}, fr, node)

    def make_fn(self, node, name, st, fr):
        a = node.args
        out = []
        exprs = list(a.defaults)
        kw = [(k.arg, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for x, vs in self.evs(exprs + [d for _, d in kw], st, fr):
            if isinstance(vs, Raise):
                out.append((x, vs))
                continue
            dv = vs[: len(exprs)]
            kd = tuple((k, v) for (k, _), v in zip(kw, vs[len(exprs):]))
            q = (fr.fn.qual + "." if fr.fn is not None else "") + name
            cq = x.obj(fr.env).f.get("__qualname__")
            if isinstance(cq, C) and x.obj(fr.env).kind == "clsenv":
                q = cq.v + "." + name
            f = Fn(node, name, fr.mod, fr.env, dv, kd, (not isinstance(node, ast.Lambda)) and has_yield(node) or isinstance(node, ast.Lambda) and has_yield(node), q)
            out.append((x, f))
        return out

    def s_ClassDef(self, s, st, fr):
        out = []
        for x, bases in self.evs(s.bases, st, fr):
            if isinstance(bases, Raise):
                out.append((x, ("exc", bases)))
                continue
            q = (fr.fn.qual + "." if fr.fn is not None else "") + s.name
            env = x.alloc(Obj("clsenv", None, {"__qualname__": C(q), "__parent__": C(fr.env)}, "module" if self.owner == "module" else "local"))
            cfr = Fr(fr.fn, env.id, fr.mod, (frozenset(), frozenset(), frozenset()), None, fr.stack, fr.envs)
            for y, sig in self.block(s.body, x, cfr):
                if sig is not None:
                    out.append((y, sig))
                    continue
                bs = []
                for b in bases:
                    bs.append(b.args[0] if isinstance(b, U) and b.op == "subscripted" else b)
                cls = Cls(s.name, bs, fr.mod, env.id, s, q)
                o = y.obj(env)
                f = dict(o.f)
                ann = []
                for n in s.body:
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                        ann.append((n.target.id, n))
                cls.slots = ann
                if any(isinstance(b, Ext) and b.path == "typing.NamedTuple" for b in bs):
                    cls.nt = True
                    cls.fields = [(n, f.get(n), "default" if n in f else None) for n, _ in ann]
                cur = [(y, cls)]
                for d in reversed(s.decorator_list):
                    nxt = []
                    for z, c in cur:
                        for w, dv in self.ev(d, z, fr):
                            if isinstance(dv, Raise):
                                nxt.append((w, dv))
                            else:
                                nxt += self.decorate(w, dv, c, fr, s)
                    cur = nxt
                for z, c in cur:
                    if isinstance(c, Raise):
                        out.append((z, ("exc", c)))
                    else:
                        self.setname(z, s.name, c, fr, s)
                        out.append((z, None))
        return out

    def s_With(self, s, st, fr):
        def rec(items, x):
            if not items:
                return self.block(s.body, x, fr)
            it = items[0]
            out = []
            for y, cm in self.ev(it.context_expr, x, fr):
                if isinstance(cm, Raise):
                    out.append((y, ("exc", cm)))
                    continue

                def body(z, v):
                    if it.optional_vars is None:
                        return rec(items[1:], z)
                    r = []
                    for w, sig in self.assign(it.optional_vars, v, z, fr):
                        if sig is not None:
                            r.append((w, sig))
                        else:
                            r += rec(items[1:], w)
                    return r

                out += self.with_(y, cm, body, fr, s)
            return out

        return rec(s.items, st)

    def with_(self, st, cm, body, fr, node):
        """Run body(state, entered value) inside the context manager."""
        out = []
        if isinstance(cm, Ref) and st.obj(cm).kind == "cm":
            gen = st.obj(cm).f["gen"]
            slot = st.alloc(Obj("env", None, {"sig": NONE, "entered": FALSE}))

            def handler(x, v):
                r = []
                for y, sig in body(x, v):
                    if sig is not None and sig[0] == "exc":
                        y.put(slot, y.obj(slot).set(entered=TRUE))
                        r.append((y, sig[1]))
                    else:
                        y.put(slot, y.obj(slot).set(sig=C(None) if sig is None else Holder(sig), entered=TRUE))
                        r.append((y, NONE))
                return r

            for x, v in self.run_gen(st, gen, handler, fr, node):
                if isinstance(v, Raise):
                    out.append((x, ("exc", v)))
                else:
                    h = x.obj(slot).f["sig"]
                    if x.obj(slot).f["entered"] == FALSE:
                        out.append((x, ("exc", self.exc(x, "RuntimeError", node, fr))))
                    else:
                        out.append((x, h.sig if isinstance(h, Holder) else None))
            return out
        if isinstance(cm, Ref) and st.obj(cm).kind == "inst":
            for x, ent in self.getattr(st, cm, "__enter__", fr, node):
                if isinstance(ent, Raise):
                    out.append((x, ("exc", ent)))
                    continue
                for y, v in self.call(x, ent, [], {}, fr, node):
                    if isinstance(v, Raise):
                        out.append((y, ("exc", v)))
                        continue
                    for z, sig in body(y, v):
                        out += self._exit(z, cm, sig, fr, node)
            return out
        # objects from outside: entered and always exited
        for x, v in self.models.enter(self, st, cm, fr, node):
            if isinstance(v, Raise):
                out.append((x, ("exc", v)))
                continue
            for y, sig in body(x, v):
                out += self.models.exit_(self, y, cm, sig, fr, node)
        return out

    def _exit(self, st, cm, sig, fr, node):
        out = []
        args = [NONE, NONE, NONE]
        if sig is not None and sig[0] == "exc" and sig[1].sig is None:
            args = [self.fresh("exctype"), sig[1].exc if isinstance(sig[1].exc, V) else NONE, self.fresh("tb")]
        for x, ex in self.getattr(st, cm, "__exit__", fr, node):
            if isinstance(ex, Raise):
                out.append((x, ("exc", ex)))
                continue
            for y, v in self.call(x, ex, args, {}, fr, node):
                if isinstance(v, Raise):
                    out.append((y, ("exc", v)))
                elif sig is not None and sig[0] == "exc" and sig[1].sig is None:
                    for z, b in self.truth(y, v, fr, node):
                        out.append((z, None if b else sig))
                else:
                    out.append((y, sig))
        return out

    def s_Match(self, s, st, fr):
        out = []
        for x, v in self.ev(s.subject, st, fr):
            if isinstance(v, Raise):
                out.append((x, ("exc", v)))
                continue
            pend = [x]
            for case in s.cases:
                nxt = []
                for y in pend:
                    for z, b in self.pattern(case.pattern, v, y, fr):
                        if isinstance(b, Raise):
                            out.append((z, ("exc", b)))
                        elif not b:
                            nxt.append(z)
                        elif case.guard is not None:
                            for w, g in self.cond(case.guard, z, fr):
                                if isinstance(g, Raise):
                                    out.append((w, ("exc", g)))
                                elif g:
                                    out += self.block(case.body, w, fr)
                                else:
                                    nxt.append(w)
                        else:
                            out += self.block(case.body, z, fr)
                pend = nxt
            out += [(y, None) for y in pend]
        return out

    def pattern(self, p, v, st, fr):
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.setname(st, p.name, v, fr, p)
                return [(st, True)]
            out = []
            for x, b in self.pattern(p.pattern, v, st, fr):
                if b is True and p.name:
                    self.setname(x, p.name, v, fr, p)
                out.append((x, b))
            return out
        if isinstance(p, ast.MatchOr):
            out, pend = [], [st]
            for q in p.patterns:
                nxt = []
                for x in pend:
                    for y, b in self.pattern(q, v, x, fr):
                        (nxt.append(y) if b is False else out.append((y, b)))
                pend = nxt
            return out + [(x, False) for x in pend]
        if isinstance(p, ast.MatchValue):
            out = []
            for x, c in self.ev(p.value, st, fr):
                if isinstance(c, Raise):
                    out.append((x, c))
                else:
                    out += self.eq(x, v, c, fr, p)
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.is_(st, v, C(p.value))
        if isinstance(p, ast.MatchClass):
            out = []
            for x, c in self.ev(p.cls, st, fr):
                if isinstance(c, Raise):
                    out.append((x, c))
                    continue
                for y, b in self.isinstance_(x, v, c):
                    if not b:
                        out.append((y, False))
                        continue
                    names = []
                    ok = True
                    if p.patterns:
                        if isinstance(c, Cls) and c.fields:
                            names = [f[0] for f in c.fields]
                        elif isinstance(c, Bi):
                            names = [None]
                        else:
                            ok = False
                    if not ok or len(p.patterns) > len(names):
                        out += [(y, True)]
                        y.vague("class pattern")
                        continue
                    subs = list(zip(names, p.patterns)) + list(zip(p.kwd_attrs, p.kwd_patterns))
                    cur = [(y, True)]
                    for n, q in subs:
                        nxt = []
                        for z, bb in cur:
                            if bb is not True:
                                nxt.append((z, bb))
                            elif n is None:
                                nxt += self.pattern(q, v, z, fr)
                            else:
                                for w, fv in self.getattr(z, v, n, fr, p):
                                    if isinstance(fv, Raise):
                                        nxt.append((w, fv))
                                    else:
                                        nxt += self.pattern(q, fv, w, fr)
                        cur = nxt
                    out += cur
            return out
        if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            out = []
            for x, q in self.to_seq(st, v, fr, p, soft=True):
                if q is None:
                    x.vague("sequence pattern")
                    return [(x, False)]
                d = slen(q) - len(p.patterns)
                z = x.num.is0(d)
                if z is False:
                    out.append((x, False))
                    continue
                if z is None:
                    a = x.copy()
                    if a.assume_ne0(d):
                        out.append((a, False))
                    if not x.assume_eq0(d):
                        continue
                cur = [(x, True)]
                for k, sub in enumerate(p.patterns):
                    nxt = []
                    for y, bb in cur:
                        if bb is not True:
                            nxt.append((y, bb))
                            continue
                        for w, e in self.element(y, q, Lin(k), fr, p):
                            nxt += self.pattern(sub, e, w, fr)
                    cur = nxt
                out += cur
            return out
        st.vague("match pattern")
        a = st.copy()
        return [(a, True), (st, False)]

    # ------------------------------------------------------------ loops

    def fix(self, st0, step, fr, node, unroll=None):
        """Loop fixpoint.  step(state) -> list of (state, sig) where
        sig[0] == 'again' goes back to the loop head."""
        if unroll is None:
            unroll = self.unroll
        heads = {}
        exits = {}
        work = [(st0, 0)]
        rounds = {}
        owns = {}
        while work:
            b, depth = work.pop()
            key = self.pkey(b, fr)
            if depth < unroll and len(heads) < 2000:
                # keep the first iterations apart (data of known shape)
                key = (key, "n", depth, len(heads))
            elif len(heads) > 40 and not unroll:
                key = "*"
            h = heads.get(key)
            if h is None:
                hs = b
            else:
                j = Joiner(self, h, b, owns.setdefault(key, Own()))
                if j.subsumes():
                    continue
                rounds[key] = rounds.get(key, 0) + 1
                if rounds[key] > 30:
                    self.undecided.add(f"{self.where(node, fr)}: loop does not stabilize")
                    raise Budget("loop")
                hs = j.join(widen=rounds[key] > 3)
            heads[key] = hs
            self.loop_rounds += 1
            cur = hs.copy()
            cur.event("loop", node, fr.fn)
            outs = []
            for x, sig in step(cur):
                self.tick(node)
                if sig[0] == "again":
                    if self.loop_cb:
                        self.loop_cb(node, fr, hs, x)
                    work.append((x, depth + 1))
                else:
                    outs.append((x, sig))
            exits[key] = outs
        return [o for v in exits.values() for o in v]

    loop_cb = None
    unroll = 0
    max_states = 48

    def iterate(self, st, it, body, fr, node):
        """Drive body(state, element) -> [(state, sig)] over an iterable.
        Result signals: None (exhausted) or what the body ended with."""
        src = it if isinstance(it, Ref) and st.obj(it).kind == "list" else None
        it, err = self.models.view(self, st, it, fr, node)
        if err is not None:
            return [(st, ("exc", err))]
        if src is not None and isinstance(it, S):
            return self.iter_list(st, src, it, 0, body, fr, node)
        if isinstance(it, Ref) and st.obj(it).kind == "gen":
            return self.drive(st, it, body, fr, node)
        if isinstance(it, Ref) and st.obj(it).kind == "chain":
            cur = [(st, None)]
            for sub in st.obj(it).f["of"].parts:
                nxt = []
                for x, sig in cur:
                    if sig is not None:
                        nxt.append((x, sig))
                    elif isinstance(sub, One):
                        nxt += self.iterate(x, sub.v, body, fr, node)
                    else:
                        nxt += self.iterate(x, S("list", (sub,)), lambda y, e: self.iterate(y, e, body, fr, node), fr, node)
                cur = nxt
            return cur
        if isinstance(it, Ref) and st.obj(it).kind == "mapit":
            o = st.obj(it)
            f, src = o.f["fn"], o.f["of"]

            def mapped(x, e):
                r = []
                for y, v in self.call(x, f, [e], {}, fr, node):
                    r += [(y, ("exc", v))] if isinstance(v, Raise) else body(y, v)
                return r

            return self.iterate(st, src, mapped, fr, node)
        if isinstance(it, Ref) and st.obj(it).kind == "filterit":
            o = st.obj(it)
            f, src = o.f["fn"], o.f["of"]

            def filtered(x, e):
                r = []
                vs = [(x, e)] if f == NONE else self.call(x, f, [e], {}, fr, node)
                for y, v in vs:
                    if isinstance(v, Raise):
                        r.append((y, ("exc", v)))
                        continue
                    for z, b in self.truth(y, v, fr, node):
                        r += body(z, e) if b else [(z, None)]
                return r

            return self.iterate(st, src, filtered, fr, node)
        q = it
        if not isinstance(q, S):
            st.vague("iteration over unknown value")
            q = self.models.opaque_seq(self, q)
        cur = [(st, None)]
        for p in q.parts:
            nxt = []
            for x, sig in cur:
                if sig is not None:
                    nxt.append((x, sig))
                else:
                    nxt += self.iter_part(x, q, p, body, fr, node)
            cur = nxt
        return cur

    def iter_list(self, st, src, q, k, body, fr, node):
        """Iteration over a list, from its part number k on: an element that
        is added while the loop runs is visited as well."""
        cur, out = [(st, None)], []
        for k in range(k, len(q.parts)):
            nxt = []
            for x, sig in cur:
                if sig is not None:
                    out.append((x, sig))
                else:
                    nxt += self.iter_part(x, q, q.parts[k], body, fr, node)
            cur = []
            for x, sig in nxt:
                if sig is not None:
                    out.append((x, sig))
                    continue
                now = self.models.seqv(self, x, src)
                if now is q or now == q:
                    cur.append((x, None))
                elif now is not None and isinstance(q.parts[k], One) and all(isinstance(p, One) for p in now.parts[:k + 1]) and k < 5000:
                    if len(now.parts) > k + 1 or now.parts[:k + 1] != q.parts[:k + 1]:
                        self.tick(node)
                        if k + 1 > max(self.unroll, 24) and not q.parts[k + 1:]:
                            self.undecided.add(f"{self.where(node, fr)}: a list grows while it is iterated over")
                            raise Budget("loop")
                    out += self.iter_list(x, src, now, k + 1, body, fr, node)
                else:
                    x.vague("a list is changed while it is iterated over")
                    cur.append((x, None))
        return out + cur

    def iter_part(self, st, q, p, body, fr, node):
        if isinstance(p, One):
            return body(st, p.v)
        if isinstance(p, Lit):
            cur = [(st, None)]
            for c in p.v:
                nxt = []
                for x, sig in cur:
                    nxt += [(x, sig)] if sig is not None else body(x, cval(c))
                cur = nxt
            return cur
        if isinstance(p, IB):
            cur = [(st, None)]
            for k in range(p.n):
                nxt = []
                for x, sig in cur:
                    if sig is not None:
                        nxt.append((x, sig))
                    else:
                        b = self.byte_at(x, p, Lin(k))
                        nxt += body(x, I(b))
                cur = nxt
            return cur
        if not isinstance(p, Sl):
            b = derived("text", (p,), "bytes" if q.kind == "bytes" else "str", labels_of(p), part_len(p))
            p = Sl(b, ZERO, b.len)
        slot = st.alloc(Obj("env", None, {"i": I(p.lo)}, "iter"))
        lo, hi, base = p.lo, p.hi, p.base
        fr2 = fr
        outs = []

        def step(x):
            i = x.obj(slot).f["i"].lin
            r = []
            more = x.copy()
            if x.assume_ge0(i - hi):
                x.assume_eq0(i - hi)
                r.append((x, ("done",)))
            if more.assume_ge0(hi - i - 1) and more.assume_ge0(i - lo):
                for y, e in self.elem(more, base, i):
                    y.put(slot, y.obj(slot).set(i=I(i + 1)))
                    for z, sig in body(y, e):
                        r.append((z, sig if sig is not None else ("again",)))
            return r

        for x, sig in self.fix(st, step, fr2, node, 0):
            outs.append((x, None if sig[0] == "done" else sig))
        return outs

    def drive(self, st, gref, body, fr, node):
        """for-loop over a generator object, body in the consumer."""
        self.uid += 1
        me = self.uid

        def handler(x, v):
            r = []
            for y, sig in body(x, v):
                if sig is None:
                    r.append((y, NONE))
                else:
                    r.append((y, Raise(None, node, sig=(me, sig))))
            return r

        out = []
        for x, v in self.run_gen(st, gref, handler, fr, node):
            if isinstance(v, Raise) and v.sig is not None and v.sig[0] == me:
                out.append((x, v.sig[1]))
            elif isinstance(v, Raise):
                out.append((x, ("exc", v)))
            else:
                out.append((x, None))
        return out

    def run_gen(self, st, gref, handler, fr, node):
        """Run a generator object to its end; yields go to handler."""
        o = st.obj(gref)
        if o.f.get("done") == TRUE:
            return [(st, NONE)]
        if o.owner == "module" or o.owner == "input":
            self.mutated(st, gref, "consume", fr, node)
        st.put(gref, o.set(done=TRUE))
        if "py" in o.f:
            return o.f["py"].f(self, st, handler, fr, node)
        fn, env = o.f["fn"], o.f["env"].id
        return self.run_body(st, fn, env, handler, fr, node)

    def gen_step(self, st, gref, fr, node):
        """next() of a generator of the package: its body is evaluated again
        from the start up to the next value, which is right if it works on
        its own variables only.  [(state, value, Raise, or None at the
        end)], or None if that cannot be done."""
        o = st.obj(gref)
        if "py" in o.f or not isinstance(o.f["fn"].node, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)):
            return None
        if isinstance(o.f["fn"].node, ast.GeneratorExp):
            src = st.obj(o.f["env"]).f["%it"]
            if not (isinstance(src, S) or isinstance(src, Ref) and st.obj(src).kind in ("list", "dict", "set")):
                return None
        if o.f.get("done") == TRUE:
            return [(st, None)]
        n = o.f["%taken"].lin.c if "%taken" in o.f else 0
        if n > 40:
            return None
        self.uid += 1
        me = self.uid
        x = st.copy()
        env = x.obj(o.f["env"])
        copy = x.alloc(Obj(env.kind, env.cls, dict(env.f), env.owner))
        mark = x.trace
        x.facts[("%yields", me)] = 0

        def handler(y, v):
            k = y.facts[("%yields", me)]
            y.facts[("%yields", me)] = k + 1
            return [(y, NONE)] if k < n else [(y, Raise(None, node, sig=(me, v)))]

        old, self.unroll = self.unroll, max(self.unroll, n + 2)
        try:
            outs = self.run_body(x, o.f["fn"], copy.id, handler, fr, node)
        finally:
            self.unroll = old
        if len(outs) > 4:
            return None
        res = []
        for y, v in outs:
            if y.imp != st.imp or any(e[0] not in ("yield", "call", "return", "loop") for e in y.events(mark)):
                return None
            y.facts.pop(("%yields", me), None)
            y.trace = mark
            if isinstance(v, Raise) and v.sig is not None and v.sig[0] == me:
                y.put(gref, o.put("%taken", I(Lin.of(n + 1))))
                res.append((y, v.sig[1]))
            else:
                y.put(gref, o.set(done=TRUE))
                res.append((y, v if isinstance(v, Raise) else None))
        return res

    def run_body(self, st, fn, env, handler, fr, node):
        scope = scope_of(fn.node) if not isinstance(fn.node, ast.GeneratorExp) else (frozenset(),) * 3
        envs = (fr.envs if fr is not None else ()) + (env,)
        f2 = Fr(fn, env, fn.mod, scope, handler, (fr.stack if fr is not None else ()) + (fn,), envs[-6:])
        if isinstance(fn.node, ast.Lambda):
            return self.ev(fn.node.body, st, f2)
        if isinstance(fn.node, ast.GeneratorExp):
            return self.genexp_body(st, fn.node, f2)
        out = []
        for x, sig in self.block(fn.node.body, st, f2):
            if sig is None:
                out.append((x, NONE))
            elif sig[0] == "ret":
                out.append((x, sig[1]))
            elif sig[0] == "exc":
                out.append((x, sig[1]))
            else:
                out.append((x, NONE))
        if handler is None and len(out) > 1:
            out = self.merge_results(out, env)
        return out

    def merge_results(self, out, env):
        return out

    # ------------------------------------------------------------ expressions

    def ev(self, e, st, fr):
        self.tick(e)
        r = getattr(self, "e_" + type(e).__name__, self.e_unknown)(e, st, fr)
        if self.value_hook is not None:
            for x, v in r:
                self.value_hook(x, e, v, fr)
        return r

    def e_unknown(self, e, st, fr):
        st.vague(f"expression {type(e).__name__}")
        self.undecided.add(f"{self.where(e, fr)}: expression {type(e).__name__} is not modelled")
        return [(st, self.fresh("unknown", labels={"unk"}))]

    def evs(self, es, st, fr):
        """Evaluate several expressions -> [(state, [values] or Raise)]."""
        cur = [(st, [])]
        out = []
        for e in es:
            nxt = []
            for x, vs in cur:
                for y, v in self.ev(e, x, fr):
                    if isinstance(v, Raise):
                        out.append((y, v))
                    else:
                        nxt.append((y, vs + [v]))
            cur = nxt
        return out + cur

    def cond(self, e, st, fr):
        """-> [(state, bool or Raise)]"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, b if isinstance(b, Raise) else not b) for x, b in self.cond(e.operand, st, fr)]
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur = [st]
            out = []
            for k, sub in enumerate(e.values):
                nxt = []
                for x in cur:
                    for y, b in self.cond(sub, x, fr):
                        if isinstance(b, Raise):
                            out.append((y, b))
                        elif b is isand and k + 1 < len(e.values):
                            nxt.append(y)
                        else:
                            out.append((y, b))
                cur = nxt
            return out
        out = []
        for x, v in self.ev(e, st, fr):
            if isinstance(v, Raise):
                out.append((x, v))
            else:
                out += self.truth(x, v, fr, e)
        return out

    def e_Constant(self, e, st, fr):
        if isinstance(e.value, int) and not isinstance(e.value, bool):
            return [(st, I(e.value))]
        return [(st, C(e.value))]

    def e_Name(self, e, st, fr):
        v = self.getname(st, e.id, fr)
        if v is None:
            return [(st, self.exc(st, "UnboundLocalError" if e.id in fr.locals else "NameError", e, fr))]
        return [(st, v)]

    def getname(self, st, name, fr):
        o = st.obj(fr.env)
        v = o.f.get(name)
        if v is not None:
            return v
        if name in fr.locals and fr.fn is not None and not isinstance(fr.fn.node, ast.GeneratorExp):
            return None
        if name in fr.globals:
            env = self.mods[fr.mod]
            v = st.obj(env).f.get(name)
        else:
            p = o.f.get("__parent__")
            v = None
            while p is not None:
                po = st.obj(p.v)
                if po.kind != "clsenv":
                    v = po.f.get(name)
                    if v is not None:
                        break
                p = po.f.get("__parent__")
            if v is None:
                v = st.obj(self.mods[fr.mod]).f.get(name)
        if v is None:
            v = self.models.builtin(name)
        return v

    def setname(self, st, name, v, fr, node):
        env = fr.env
        if name in fr.globals:
            env = self.mods[fr.mod]
            st.event("globalwrite", fr.mod, name, self.where(node, fr))
        elif name in fr.nonlocals:
            p = st.obj(env).f.get("__parent__")
            while p is not None:
                if name in st.obj(p.v).f:
                    env = p.v
                    break
                p = st.obj(p.v).f.get("__parent__")
        elif isinstance(fr.fn, Fn) and isinstance(fr.fn.node, ast.GeneratorExp):
            # a walrus inside a comprehension binds outside
            pass
        st.put(env, st.obj(env).put(name, v))

    def e_NamedExpr(self, e, st, fr):
        out = []
        for x, v in self.ev(e.value, st, fr):
            if not isinstance(v, Raise):
                # comprehension scopes: bind in the nearest function
                env = fr.env
                o = x.obj(env)
                if o.f.get("%comp") is not None:
                    env = o.f["__parent__"].v
                    x.put(env, x.obj(env).put(e.target.id, v))
                else:
                    self.setname(x, e.target.id, v, fr, e)
            out.append((x, v))
        return out

    def e_Tuple(self, e, st, fr):
        return self.display(e.elts, "tuple", st, fr, e)

    def e_List(self, e, st, fr):
        out = []
        for x, v in self.display(e.elts, "list", st, fr, e):
            if not isinstance(v, Raise):
                v = x.alloc(Obj("list", None, {"seq": v}, self.owner, site=e))
            out.append((x, v))
        return out

    def e_Set(self, e, st, fr):
        out = []
        for x, v in self.display(e.elts, "list", st, fr, e):
            if not isinstance(v, Raise):
                v = x.alloc(Obj("set", None, {"seq": self.models.as_set(self, x, v, fr, e)}, self.owner, site=e))
            out.append((x, v))
        return out

    def display(self, elts, kind, st, fr, node):
        cur = [(st, ())]
        out = []
        for e in elts:
            nxt = []
            for x, parts in cur:
                if isinstance(e, ast.Starred):
                    for y, v in self.ev(e.value, x, fr):
                        if isinstance(v, Raise):
                            out.append((y, v))
                            continue
                        for z, q in self.to_seq(y, v, fr, e):
                            if isinstance(q, Raise):
                                out.append((z, q))
                            else:
                                nxt.append((z, parts + self.models.token_parts(q)))
                else:
                    for y, v in self.ev(e, x, fr):
                        if isinstance(v, Raise):
                            out.append((y, v))
                        else:
                            nxt.append((y, parts + (One(v),)))
            cur = nxt
        return out + [(x, S(kind, seq.norm_parts(x.num, p))) for x, p in cur]

    def e_Dict(self, e, st, fr):
        exprs = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                exprs.append(k)
            exprs.append(v)
        out = []
        for x, vs in self.evs(exprs, st, fr):
            if isinstance(vs, Raise):
                out.append((x, vs))
                continue
            d = x.alloc(Obj("dict", None, {"ents": (), "rest": NONE}, self.owner, site=e))
            i = 0
            cur = [x]
            for k, _ in zip(e.keys, e.values):
                nxt = []
                for y in cur:
                    if k is None:
                        nxt += [z for z, _ in self.models.dict_update(self, y, d, vs[i], fr, e)]
                    else:
                        nxt += [z for z, _ in self.models.dict_set(self, y, d, vs[i], vs[i + 1], fr, e, quiet=True)]
                i += 1 if k is None else 2
                cur = nxt
            out += [(y, d) for y in cur]
        return out

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_IfExp(self, e, st, fr):
        out = []
        for x, b in self.cond(e.test, st, fr):
            if isinstance(b, Raise):
                out.append((x, b))
            else:
                out += self.ev(e.body if b else e.orelse, x, fr)
        return out

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        cur = [st]
        out = []
        for k, sub in enumerate(e.values):
            nxt = []
            for x in cur:
                for y, v in self.ev(sub, x, fr):
                    if isinstance(v, Raise) or k + 1 == len(e.values):
                        out.append((y, v))
                        continue
                    for z, b in self.truth(y, v, fr, sub):
                        if b is isand:
                            nxt.append(z)
                        else:
                            out.append((z, v))
            cur = nxt
        return out

    def e_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            return [(x, b if isinstance(b, Raise) else C(not b)) for x, b in self.cond(e.operand, st, fr)]
        out = []
        for x, v in self.ev(e.operand, st, fr):
            if isinstance(v, Raise):
                out.append((x, v))
            elif isinstance(v, I) and isinstance(e.op, ast.USub):
                out.append((x, I(-v.lin)))
            elif isinstance(v, I) and isinstance(e.op, ast.UAdd):
                out.append((x, v))
            elif isinstance(v, I) and isinstance(e.op, ast.Invert):
                out.append((x, I(-v.lin - 1)))
            elif isinstance(v, C) and isinstance(v.v, float) and isinstance(e.op, ast.USub):
                out.append((x, C(-v.v)))
            else:
                out.append((x, U("unary" + type(e.op).__name__, (v,), None, labels_of(v, x))))
        return out

    def e_BinOp(self, e, st, fr):
        out = []
        for x, vs in self.evs([e.left, e.right], st, fr):
            if isinstance(vs, Raise):
                out.append((x, vs))
            else:
                out += self.binop(e.op, vs[0], vs[1], x, fr, e)
        return out

    def binop(self, op, a, b, st, fr, node, inplace=False):
        return self.models.binop(self, op, a, b, st, fr, node, inplace)

    def divmod(self, st, lin, k):
        """q, r with lin = k*q + r, 0 <= r < k."""
        lin = st.num.norm(lin)
        if lin.const:
            return Lin(lin.c // k), Lin(lin.c % k)
        # split off what is divisible
        hi = Lin(0, tuple((a, v) for a, v in lin.t if v % k == 0))
        lo = lin - hi
        m, c = divmod(lo.c, k)
        lo = lo - m * k
        hi = hi + m * k
        if st.num.ge0(lo) and st.num.ge0(Lin(k - 1) - lo):
            return Lin(hi.c // k, tuple((a, v // k) for a, v in hi.t)), lo
        if len(lin.t) == 1 and lin.c == 0 and lin.t[0][1] == 1:
            d = self.defs.get(lin.t[0][0])
            if d is not None and d[0] == "//":
                # (x // a) // b == x // (a * b)
                q, _ = self.divmod(st, d[1], d[2] * k)
                return q, lin - q * k
        key = ("div", lin, k)
        r = st.facts.get(key)
        if r is None:
            q, m = Lin.of(Atom(f"({lin!r})//{k}")), Lin.of(Atom(f"({lin!r})%{k}", 0, k - 1))
            st.facts[key] = r = (q, m)
            self.defs[q.atoms()[0]] = ("//", lin, k)
            self.defs[m.atoms()[0]] = ("%", lin, k)
            st.assume_eq0(lin - q * k - m)
            if st.num.ge0(lin):
                st.assume_ge0(q)
        return r

    def e_Compare(self, e, st, fr):
        cur = [(st, None)]
        out = []
        # evaluate left to right with short circuit
        first = self.ev(e.left, st, fr)
        cur = []
        for x, v in first:
            (out if isinstance(v, Raise) else cur).append((x, v))
        n = len(e.ops)
        for k, (op, right) in enumerate(zip(e.ops, e.comparators)):
            nxt = []
            for x, left in cur:
                for y, r in self.ev(right, x, fr):
                    if isinstance(r, Raise):
                        out.append((y, r))
                        continue
                    for z, b in self.compare(op, left, r, y, fr, e):
                        if isinstance(b, Raise):
                            out.append((z, b))
                        elif isinstance(b, V):
                            out.append((z, b))
                        elif not b:
                            out.append((z, FALSE))
                        elif k + 1 == n:
                            out.append((z, TRUE))
                        else:
                            nxt.append((z, r))
            cur = nxt
        return out

    def compare(self, op, a, b, st, fr, node):
        if isinstance(op, ast.Is):
            return self.is_(st, a, b)
        if isinstance(op, ast.IsNot):
            return [(x, not v) for x, v in self.is_(st, a, b)]
        if isinstance(op, ast.Eq):
            return self.eq(st, a, b, fr, node)
        if isinstance(op, ast.NotEq):
            return [(x, v if isinstance(v, Raise) else not v) for x, v in self.eq(st, a, b, fr, node)]
        if isinstance(op, ast.In):
            return self.models.contains(self, st, b, a, fr, node)
        if isinstance(op, ast.NotIn):
            return [(x, v if isinstance(v, Raise) else not v) for x, v in self.models.contains(self, st, b, a, fr, node)]
        return self.models.order(self, st, op, a, b, fr, node)

    # decisions -------------------------------------------------------

    def fork(self, st, key, vague=None):
        """A fact that is not decided: both ways (remembered)."""
        r = st.facts.get(key)
        if r is not None:
            return [(st, r)]
        if vague is None and key[0] in ("truth", "in") and about_words(key):
            # words exclude what is not looked into here
            vague = "condition on a text of words"
        a = st.copy()
        a.facts[key] = True
        st.facts[key] = False
        if key[0] == "truth":
            for u, others in self.exclusive_groups:
                if isinstance(key[1], U) and key[1].op == "arg" and key[1].args == u.args:
                    for o in others:
                        for ty in ("bool", None):
                            w = U("arg", o.args, ty, {"arg"})
                            a.facts[("truth", w)] = False
                            if ty is None:
                                a.facts[("none", w)] = True
        if vague:
            a.vague(vague)
            st.vague(vague)
        return [(a, True), (st, False)]

    def decide(self, st, lin_ge0):
        """Fork on lin >= 0."""
        s = st.num.sign(lin_ge0)
        if s is not None:
            return [(st, s)]
        a = st.copy()
        out = []
        if a.assume_ge0(lin_ge0):
            out.append((a, True))
        if st.assume_ge0(Lin(-1) - lin_ge0):
            out.append((st, False))
        return out

    def decide0(self, st, lin):
        """Fork on lin == 0."""
        z = st.num.is0(lin)
        if z is not None:
            return [(st, z)]
        out = []
        a = st.copy()
        if a.assume_eq0(lin):
            out.append((a, True))
        if st.num.ge0(lin) or st.num.ge0(-lin):
            if st.assume_ne0(lin):
                out.append((st, False))
        else:
            b = st.copy()
            if st.assume_ge0(lin - 1):
                out.append((st, False))
            if b.assume_ge0(-lin - 1):
                out.append((b, False))
        return out

    def truth(self, st, v, fr, node):
        if self.truth_hook:
            self.truth_hook(st, v, fr, node)
        if isinstance(v, C):
            return [(st, bool(v.v))]
        if isinstance(v, I):
            return [(x, not b) for x, b in self.decide0(st, v.lin)]
        if isinstance(v, S):
            return [(x, not b) for x, b in self.decide0(st, slen(v))]
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind in ("list", "set"):
                return [(x, not b) for x, b in self.decide0(st, slen(o.f["seq"]))]
            if o.kind == "dict":
                if any(x for x in o.f["ents"] if x[1] is not None):
                    return [(st, True)]
                if o.f["rest"] == NONE:
                    return [(st, False)]
                return self.fork(st, ("nonempty", o.f["rest"]))
            if o.kind == "inst":
                if o.cls.nt:
                    return [(st, len(o.cls.fields) > 0)]
                for m in ("__bool__", "__len__"):
                    f = self.lookup(st, o.cls, m)
                    if isinstance(f, Fn):
                        out = []
                        for x, r in self.call(st, Bound(f, v), [], {}, fr, node):
                            if isinstance(r, Raise):
                                out.append((x, r))
                            else:
                                out += self.truth(x, r, fr, node)
                        return out
                return [(st, True)]
            return [(st, True)]
        if isinstance(v, U):
            if v.ty is not None and not isinstance(v.ty, str) and not isinstance(v.ty, tuple):
                return [(st, True)]
            if st.facts.get(("none", v)) is True:
                return [(st, False)]
            if v.op == "bool" and isinstance(v.args[0], V):
                return self.truth(st, v.args[0], fr, node)
            r = self.fork(st, ("truth", v), "condition on an unmodelled value" if "unk" in labels_of(v) else None)
            for x, b in r:
                if b:
                    x.facts[("none", v)] = False
            return r
        return [(st, True)]

    def is_(self, st, a, b):
        if isinstance(a, C) and a.v is None:
            a, b = b, a
        if isinstance(b, C) and b.v is None:
            if isinstance(a, C):
                return [(st, a.v is None)]
            if isinstance(a, U):
                if a.ty is not None:
                    return [(st, False)]
                if st.facts.get(("truth", a)) is True:
                    return [(st, False)]
                return self.fork(st, ("none", a), "condition on an unmodelled value" if "unk" in labels_of(a) else None)
            return [(st, False)]
        if isinstance(a, C) and isinstance(b, C):
            return [(st, a == b)]
        ta, tb = self.as_type(a), self.as_type(b)
        if ta is not None and tb is not None:
            return [(st, ta == tb)]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, U) and x.op == "type" and self.as_type(y) is not None:
                return self.isinstance_(st, x.args[0], y, exact=True)
        if a == b:
            return [(st, True)]
        if isinstance(a, Ref) and isinstance(b, Ref):
            return [(st, a.id == b.id)]
        if isinstance(a, (C,)) and isinstance(a.v, bool) and isinstance(b, U):
            return self.eq(st, b, a, None, None)
        if isinstance(b, (C,)) and isinstance(b.v, bool) and isinstance(a, U):
            return self.eq(st, a, b, None, None)
        if isinstance(a, U) or isinstance(b, U):
            return self.fork(st, ("is", a, b))
        if type(a) is not type(b):
            return [(st, False)]
        if isinstance(a, (Fn, Bi)):
            return [(st, False)]  # functions made at different places
        return self.fork(st, ("is", a, b), "identity of values")

    @staticmethod
    def as_type(v):
        if isinstance(v, Cls):
            return v
        if isinstance(v, Bi) and (v.name in TYPES or v.name in EXC_PARENT):
            return v.name
        if isinstance(v, Ext):
            return v.path
        return None

    def eq(self, st, a, b, fr, node):
        return self.models.eq(self, st, a, b, fr, node)

    def type_of(self, st, v):
        """Bi/Cls type of a value, or None."""
        if isinstance(v, C):
            if v.v is None:
                return Bi("NoneType")
            return Bi(type(v.v).__name__)
        if isinstance(v, I):
            return Bi("int")
        if isinstance(v, S):
            return Bi(v.kind)
        if isinstance(v, SL):
            return Bi("slice")
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind == "inst":
                return o.cls
            if o.kind == "exc":
                return o.f["type"]
            if o.kind in ("list", "dict", "set"):
                return Bi(o.kind)
            if o.kind == "gen":
                return Bi("generator")
            if o.kind in ("chain", "iter", "mapit", "filterit"):
                return Bi(o.kind)
            if o.kind == "ext":
                return Ext(o.f["path"].v)
            return None
        if isinstance(v, (Fn, Bound)):
            return Bi("function")
        if isinstance(v, (Cls,)):
            return Bi("type")
        if isinstance(v, U):
            if isinstance(v.ty, Cls):
                return v.ty
            if isinstance(v.ty, str):
                return Bi(v.ty)
        return None

    ABC = {
        "Sequence": {"str", "bytes", "tuple", "list", "range", "bytearray"},
        "MutableSequence": {"list", "bytearray"},
        "Hashable": {"str", "bytes", "tuple", "int", "bool", "float", "NoneType", "function", "type", "frozenset"},
        "Iterable": {"chain", "iter", "mapit", "filterit", "str", "bytes", "tuple", "list", "dict", "set", "generator", "range", "frozenset"},
        "Collection": {"str", "bytes", "tuple", "list", "dict", "set", "range", "frozenset"},
        "Sized": {"str", "bytes", "tuple", "list", "dict", "set", "range", "frozenset"},
        "Container": {"str", "bytes", "tuple", "list", "dict", "set", "range", "frozenset"},
        "Iterator": {"generator", "chain", "iter", "mapit", "filterit"}, "Generator": {"generator"},
        "Mapping": {"dict"}, "MutableMapping": {"dict"}, "Set": {"set", "frozenset"},
        "Callable": {"function", "type"},
    }

    def isinstance_(self, st, v, t, exact=False):
        """-> [(state, bool)]"""
        if isinstance(t, S):
            t = UnionT([p.v for p in t.parts if isinstance(p, One)])
        if isinstance(t, UnionT):
            out, pend = [], [st]
            for i in t.items:
                nxt = []
                for x in pend:
                    for y, b in self.isinstance_(x, v, i, exact):
                        (out.append((y, True)) if b else nxt.append(y))
                pend = nxt
            return out + [(x, False) for x in pend]
        if isinstance(t, C) and t.v is None:
            t = Bi("NoneType")
        ty = self.type_of(st, v)
        if ty is None:
            if isinstance(v, U):
                if st.facts.get(("none", v)) is True:
                    return [(st, self.as_type(t) in ("NoneType", "object"))]
                key = ("isa", v, self.as_type(t) or t)
                if isinstance(self.as_type(t), Cls) and ("foreign", v) in st.facts:
                    return [(st, False)]
                # exclusive builtin types
                if key not in st.facts:
                    mine = self.as_type(t)
                    for k, val in list(st.facts.items()):
                        if k[0] == "isa" and k[1] == v and val is True and self.exclusive(k[2], mine):
                            st.facts[key] = False
                            break
                hint = v.ty if isinstance(v.ty, tuple) else None
                if hint is not None and key not in st.facts:
                    m = self.as_type(t)
                    if m not in hint and not (isinstance(m, str) and m.split(".")[-1] in self.ABC and set(hint) & self.ABC[m.split(".")[-1]]):
                        return [(st, False)]
                return self.fork(st, key, "type test on an unmodelled value" if "unk" in labels_of(v) else None)
            st.vague("type test")
            return self.fork(st, ("isa", v, self.as_type(t) or t))
        tt = self.as_type(t)
        if tt is None:
            st.vague("type test against unknown type")
            return self.fork(st, ("isa", v, t))
        if exact:
            return [(st, self.as_type(ty) == tt)]
        if tt == "object":
            return [(st, True)]
        if isinstance(ty, Cls):
            anc = self.mro(ty)
            names = set()
            for c in anc:
                names.add(self.as_type(c))
                n = self.as_type(c)
                if isinstance(n, str) and n in EXC_PARENT:
                    names.update(self.bi_mro(n))
            if ty.nt:
                names |= {"tuple"}
                if isinstance(tt, str) and tt.split(".")[-1] in ("Sequence", "Hashable", "Iterable", "Sized", "Collection", "Container"):
                    return [(st, True)]
            if tt in names:
                return [(st, True)]
            if isinstance(tt, str) and tt.split(".")[-1] in self.ABC:
                short = tt.split(".")[-1]
                if short == "Hashable":
                    eqdef = self.lookup(st, ty, "__eq__")
                    h = not (ty.dc is not None and ty.dc.get("eq", True) and not ty.dc.get("frozen")) and not (eqdef is not None and self.lookup(st, ty, "__hash__") is None)
                    return [(st, h)]
                need = {"Iterable": ["__iter__"], "Sized": ["__len__"], "Container": ["__contains__"], "Callable": ["__call__"],
                        "Iterator": ["__next__"]}.get(short)
                if need:
                    return [(st, all(self.lookup(st, ty, m) is not None for m in need))]
                return [(st, any(isinstance(c, Ext) and c.path.split(".")[-1] in ("MutableMapping", short) for c in anc))]
            return [(st, False)]
        n = self.as_type(ty)
        if tt == n:
            return [(st, True)]
        if tt == "int" and n == "bool":
            return [(st, True)]
        if n in EXC_PARENT:
            return [(st, tt in self.bi_mro(n))]
        if isinstance(tt, str) and tt.split(".")[-1] in self.ABC:
            return [(st, n in self.ABC[tt.split(".")[-1]])]
        return [(st, False)]

    @staticmethod
    def exclusive(a, b):
        basic = {"int", "str", "bytes", "tuple", "list", "dict", "set", "slice", "NoneType", "float"}
        if isinstance(a, Cls) or isinstance(b, Cls):
            return isinstance(a, Cls) and b in basic - {"tuple"} or isinstance(b, Cls) and a in basic - {"tuple"}
        return a in basic and b in basic and a != b

    # attributes ------------------------------------------------------

    def mro(self, cls):
        r = [cls]
        for b in cls.bases:
            if isinstance(b, Cls):
                for c in self.mro(b):
                    if c not in r:
                        r.append(c)
            elif b not in r:
                r.append(b)
        return r

    def lookup(self, st, cls, name):
        for c in self.mro(cls):
            if isinstance(c, Cls):
                v = st.obj(c.env).f.get(name)
                if v is not None and not (name in ("__qualname__", "__parent__")):
                    return v
        return None

    def getattr(self, st, v, name, fr, node):
        return self.models.getattr_(self, st, v, name, fr, node)

    def setattr(self, st, v, name, val, fr, node):
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind == "inst":
                if o.cls.nt or (o.cls.dc is not None and o.cls.dc.get("frozen")):
                    return [(st, self.exc(st, "AttributeError", node, fr))]
                p = self.lookup(st, o.cls, name)
                self.mutated(st, v, "." + name, fr, node, val)
                st.put(v, st.obj(v).put(name, val))
                return [(st, NONE)]
            self.mutated(st, v, "." + name, fr, node, val)
            if o.kind == "ext":
                st.put(v, o.put(name, val))
            return [(st, NONE)]
        if isinstance(v, Cls):
            st.event("mut", v, "module", "." + name, self.where(node, fr), val)
            st.put(v.env, st.obj(v.env).put(name, val))
            return [(st, NONE)]
        if isinstance(v, Mod):
            st.event("mut", v, "module", "." + name, self.where(node, fr), val)
            e = self.mods[v.name]
            st.put(e, st.obj(e).put(name, val))
            return [(st, NONE)]
        if isinstance(v, Fn):
            st.event("mut", v, "module" if st.base.get(v.env) is not None else "local", "." + name, self.where(node, fr), val)
            return [(st, NONE)]
        if isinstance(v, (C, I, S)):
            return [(st, self.exc(st, "AttributeError", node, fr))]
        self.mutated(st, v, "." + name, fr, node, val)
        st.facts[("field", v, name)] = val
        return [(st, NONE)]

    def mutated(self, st, v, what, fr, node, val=None):
        if isinstance(v, Ref):
            owner = st.obj(v).owner
        elif isinstance(v, Ext):
            owner = "module"
        elif isinstance(v, U):
            owner = "opaque"
        else:
            owner = "module"
        st.event("mut", v, owner, what, self.where(node, fr), val)

    # sequences -------------------------------------------------------

    def to_seq(self, st, v, fr, node, soft=False):
        """Materialize an iterable -> [(state, S or Raise)]."""
        q, err = self.models.view(self, st, v, fr, node)
        if err is not None:
            return [(st, None if soft else err)]
        if isinstance(q, S):
            return [(st, q)]
        if isinstance(q, Ref) and st.obj(q).kind in ("gen", "chain", "mapit", "filterit"):
            if soft:
                return [(st, None)]
            acc = st.alloc(Obj("list", None, {"seq": S("list")}, "local"))

            def body(x, e):
                o = x.obj(acc)
                x.put(acc, o.set(seq=S("list", o.f["seq"].parts + (One(e),))))
                return [(x, None)]

            fr2 = Fr(fr.fn, fr.env, fr.mod, (fr.locals, fr.globals, fr.nonlocals), fr.handler, fr.stack, fr.envs)
            out = []
            each = body
            if "flat" in st.obj(q).f and st.obj(q).f["done"] == FALSE:
                # the elements of the elements: whole sequences at a time
                src = st.obj(q).f["flat"]
                st.put(q, st.obj(q).set(done=TRUE))

                def each(x, e):
                    w, err = self.models.view(self, x, e, fr2, node)
                    if err is None and isinstance(w, S):
                        o = x.obj(acc)
                        x.put(acc, o.set(seq=S("list", norm_parts(x.num, o.f["seq"].parts + tuple(self.models.token_parts(w))))))
                        return [(x, None)]
                    return self.iterate(x, e, body, fr2, node)

                q = src
            elif st.obj(q).kind == "chain":

                def each(x, e):
                    w, err = self.models.view(self, x, e, fr2, node)
                    if err is None and isinstance(w, S):
                        o = x.obj(acc)
                        x.put(acc, o.set(seq=S("list", norm_parts(x.num, o.f["seq"].parts + tuple(self.models.token_parts(w))))))
                        return [(x, None)]
                    return self.iterate(x, e, body, fr2, node)

                q = st.obj(q).f["of"]
            for x, sig in self.iterate(st, q, each, fr2, node):
                if sig is None:
                    out.append((x, x.obj(acc).f["seq"]))
                else:
                    out.append((x, sig[1]))
            return out
        if soft:
            return [(st, None)]
        return [(st, self.models.opaque_seq(self, q))]

    def elem(self, st, base, i):
        """Element i of an opaque base -> [(state, value)]."""
        i = st.num.norm(i)
        e = base.elem
        if callable(e):
            return e(self, st, base, i)
        if e == "char":
            return [(st, S("str", (Sl(base, i, i + 1),)))]
        if e == "byte":
            return [(st, I(self.byte_at(st, Sl(base, ZERO, base.len), i)))]
        if e == "tmpl":
            key = ("elem", base, i)
            if key in st.facts:
                return [(st, st.facts[key])]
            out = []
            for k, t in enumerate(base.tmpl):
                x = st.copy() if k + 1 < len(base.tmpl) else st
                v = self.instantiate(x, t, base)
                if v is not None:
                    x.facts[key] = v
                    out.append((x, v))
            return out
        return [(st, U("at", (base, I(i)), None, base.labels))]

    _bytes = {}

    def byte_at(self, st, p, k):
        if isinstance(p, IB):
            q, _ = self.divmod(st, p.lin, 256 ** (p.n - 1 - k.c))
            _, r = self.divmod(st, q, 256)
            return r
        key = (p.base, st.num.norm(p.lo + k))
        a = self._bytes.get(key)
        if a is None:
            a = self._bytes[key] = Lin.of(Atom(f"{p.base!r}[{key[1]!r}]", 0, 255))
        return a

    def instantiate(self, st, t, base):
        from .join import instantiate

        return instantiate(self, st, t, base)

    def element(self, st, q, pos, fr, node):
        """q[pos] for 0 <= pos < len (known in range)."""
        out = []
        for x, _, r in seq.split_at(st, q.parts, pos, self):
            r = seq.norm_parts(x.num, r)
            if not r:
                out.append((x, self.exc(x, "IndexError", node, fr)))
                continue
            p = r[0]
            if isinstance(p, One):
                out.append((x, p.v))
            elif isinstance(p, Lit):
                out.append((x, cval(p.v[0])))
            elif isinstance(p, IB):
                out.append((x, I(self.byte_at(x, p, ZERO))))
            elif isinstance(p, Sl):
                out += self.elem(x, p.base, p.lo)
            else:
                for y, s in seq.slice_seq(x, S(q.kind, r), ZERO, ONE, self):
                    out.append((y, simp(s)))
        return out

    def getitem(self, st, v, idx, fr, node):
        return self.models.getitem(self, st, v, idx, fr, node)

    def setitem(self, st, v, idx, val, fr, node):
        return self.models.setitem(self, st, v, idx, val, fr, node)

    def e_Subscript(self, e, st, fr):
        out = []
        for x, vs in self.evs([e.value, e.slice], st, fr):
            if isinstance(vs, Raise):
                out.append((x, vs))
            else:
                out += self.getitem(x, vs[0], vs[1], fr, e)
        return out

    def e_Slice(self, e, st, fr):
        parts = [p if p is not None else ast.Constant(None) for p in (e.lower, e.upper, e.step)]
        out = []
        for x, vs in self.evs(parts, st, fr):
            out.append((x, vs if isinstance(vs, Raise) else SL(*vs)))
        return out

    def e_Attribute(self, e, st, fr):
        out = []
        for x, v in self.ev(e.value, st, fr):
            if isinstance(v, Raise):
                out.append((x, v))
            else:
                out += self.getattr(x, v, e.attr, fr, e)
        return out

    def e_JoinedStr(self, e, st, fr):
        cur = [(st, S("str"))]
        out = []
        for p in e.values:
            nxt = []
            for x, acc in cur:
                if isinstance(p, ast.Constant):
                    nxt.append((x, concat(x.num, acc, lit(p.value))))
                    continue
                for y, v in self.ev(p.value, x, fr):
                    if isinstance(v, Raise):
                        out.append((y, v))
                        continue
                    if p.format_spec is None and p.conversion in (-1, 115):
                        for z, s in self.models.to_str(self, y, v, fr, p):
                            if isinstance(s, Raise):
                                out.append((z, s))
                            else:
                                nxt.append((z, concat(z.num, acc, as_seq(s))))
                    else:
                        b = derived("format", (v, p.conversion, ast.dump(p.format_spec) if p.format_spec else ""), "str", labels_of(v, y))
                        nxt.append((y, concat(y.num, acc, b.seq())))
            cur = nxt
        return out + [(x, simp(s)) for x, s in cur]

    def e_Lambda(self, e, st, fr):
        return self.make_fn(e, "<lambda>", st, fr)

    def e_Yield(self, e, st, fr):
        if e.value is None:
            res = [(st, NONE)]
        else:
            res = self.ev(e.value, st, fr)
        out = []
        for x, v in res:
            if isinstance(v, Raise):
                out.append((x, v))
            elif fr.handler is None:
                x.vague("yield outside of a driven generator")
                out.append((x, NONE))
            else:
                x.event("yield", fr.fn, v, e)
                out += fr.handler(x, v)
        return out

    def e_YieldFrom(self, e, st, fr):
        out = []
        for x, it in self.ev(e.value, st, fr):
            if isinstance(it, Raise):
                out.append((x, it))
                continue

            def body(y, v):
                r = []
                for z, w in fr.handler(y, v):
                    r.append((z, ("exc", w) if isinstance(w, Raise) else None))
                return r

            for y, sig in self.iterate(x, it, body, fr, e):
                out.append((y, NONE if sig is None else sig[1]))
        return out

    # comprehensions --------------------------------------------------

    def e_GeneratorExp(self, e, st, fr):
        out = []
        for x, it in self.ev(e.generators[0].iter, st, fr):
            if isinstance(it, Raise):
                out.append((x, it))
                continue
            env = x.alloc(Obj("env", None, {"__parent__": C(fr.env), "%it": it, "%comp": TRUE}))
            fn = Fn(e, "<genexpr>", fr.mod, fr.env, (), (), True, (fr.fn.qual + "." if fr.fn else "") + "<genexpr>")
            out.append((x, x.alloc(Obj("gen", None, {"fn": fn, "env": env, "done": FALSE}, self.owner))))
        return out

    def genexp_body(self, st, node, fr):
        it = st.obj(fr.env).f["%it"]

        def emit(x):
            r = []
            for y, v in self.ev(node.elt, x, fr):
                if isinstance(v, Raise):
                    r.append((y, ("exc", v)))
                else:
                    y.event("yield", fr.fn, v, node)
                    for z, w in fr.handler(y, v):
                        r.append((z, ("exc", w) if isinstance(w, Raise) else None))
            return r

        return [(x, NONE if sig is None else sig[1]) for x, sig in self.comp_loops(node.generators, 0, it, st, fr, emit)]

    def comp_loops(self, gens, k, it, st, fr, emit):
        g = gens[k]

        def body(x, e):
            r = []
            for y, sig in self.assign(g.target, e, x, fr):
                if sig is not None:
                    r.append((y, sig))
                    continue
                cur = [y]
                for c in g.ifs:
                    nxt = []
                    for z in cur:
                        for w, b in self.cond(c, z, fr):
                            if isinstance(b, Raise):
                                r.append((w, ("exc", b)))
                            elif b:
                                nxt.append(w)
                            else:
                                r.append((w, None))
                    cur = nxt
                for z in cur:
                    if k + 1 == len(gens):
                        r += emit(z)
                    else:
                        for w, it2 in self.ev(gens[k + 1].iter, z, fr):
                            if isinstance(it2, Raise):
                                r.append((w, ("exc", it2)))
                            else:
                                r += self.comp_loops(gens, k + 1, it2, w, fr, emit)
            return r

        return self.iterate(st, it, body, fr, g.iter)

    def comp(self, e, st, fr):
        """Comprehension -> [(state, S('list') or Raise)]"""
        out = []
        for x, it in self.ev(e.generators[0].iter, st, fr):
            if isinstance(it, Raise):
                out.append((x, it))
                continue
            env = x.alloc(Obj("env", None, {"__parent__": C(fr.env), "%comp": TRUE}))
            fr2 = Fr(fr.fn, env.id, fr.mod, (frozenset(), fr.globals, fr.nonlocals), fr.handler, fr.stack, (fr.envs + (env.id,))[-6:])
            quick = self.map_comp(x, e, it, fr2)
            if quick is not None:
                out += quick
                continue
            acc = x.alloc(Obj("list", None, {"seq": S("list")}, "local"))

            def emit(y):
                r = []
                for z, v in self.ev(e.elt, y, fr2):
                    if isinstance(v, Raise):
                        r.append((z, ("exc", v)))
                    else:
                        o = z.obj(acc)
                        z.put(acc, o.set(seq=S("list", o.f["seq"].parts + (One(v),))))
                        r.append((z, None))
                return r

            for y, sig in self.comp_loops(e.generators, 0, it, x, fr2, emit):
                out.append((y, y.obj(acc).f["seq"] if sig is None else sig[1]))
        return out

    def map_comp(self, st, e, it, fr):
        """[f(x) for x in S]: element-wise image of a sequence."""
        if len(e.generators) != 1 or e.generators[0].ifs:
            return None
        return self.map_seq(st, it, e.generators[0].target, e.elt, fr, e)

    def map_seq(self, st, it, target, elt, fr, node):
        q, err = self.models.view(self, st, it, fr, node)
        if err is not None or not isinstance(q, S):
            return None
        cur = [(st, ())]
        for p in q.parts:
            nxt = []
            for x, parts in cur:
                if isinstance(p, (One, Lit, IB)):
                    vals = [p.v] if isinstance(p, One) else [cval(c) for c in p.v] if isinstance(p, Lit) else [I(self.byte_at(x, p, Lin(k))) for k in range(p.n)]
                    c2 = [(x, ())]
                    for v in vals:
                        n2 = []
                        for y, ps in c2:
                            for z, sig in self.assign(target, v, y, fr):
                                if sig is not None:
                                    return None
                                for w, r in self.ev(elt, z, fr):
                                    if isinstance(r, Raise):
                                        return None
                                    n2.append((w, ps + (One(r),)))
                        c2 = n2
                    nxt += [(y, parts + ps) for y, ps in c2]
                    continue
                if not isinstance(p, Sl):
                    return None
                m = self.map_base(x, p, target, elt, fr)
                if m is None:
                    return None
                nxt.append((x, parts + (m,)))
            cur = nxt
        return [(x, S("list", seq.norm_parts(x.num, ps))) for x, ps in cur]

    def map_base(self, st, p, target, elt, fr):
        """Image of a slice under a pure, unforked expression of the element."""
        if p.base.elem == "tmpl":
            return None
        i = Atom("i")
        t = st.copy()
        il = Lin.of(i)
        if not (t.assume_ge0(il - p.lo) and t.assume_ge0(p.hi - il - 1)):
            return None
        before, heap0 = t.trace, set(t.heap)
        es = self.elem(t, p.base, il)
        if len(es) != 1:
            return None
        t, e = es[0]
        if isinstance(e, Ref):
            return None
        rs = []
        try:
            for y, sig in self.assign(target, e, t, fr):
                if sig is not None:
                    return None
                rs += self.ev(elt, y, fr)
        except Budget:
            raise
        if len(rs) != 1:
            return None
        y, v = rs[0]
        if isinstance(v, Raise) or y.imp != st.imp:
            return None
        if any(ev[0] in ("mut", "globalwrite", "ext") for ev in y.events(before)):
            return None
        if not self.pure(v):
            return None
        if v == e and not isinstance(v, I):
            return p if p.base.kind not in ("str", "bytes") else Sl(self.chars(p.base), p.lo, p.hi)
        # drop numeric facts about i other than its range: only terms survive
        from .join import subst_value, rename_index

        key = ("map", rename_index(v, i))
        rng = i

        def at(interp, s, base, j, v=v, i=i):
            return [(s, subst_value(v, {i: j}))]

        b = derived("map", (p.base, key), "list", labels_of(v) | p.base.labels, p.base.len, at)
        b.meta = None
        return Sl(b, p.lo, p.hi)

    def chars(self, base):
        """The text as a container of its characters (or bytes)."""
        b = derived("chars", (base,), "list", base.labels, base.len, lambda interp, s, b, j: interp.elem(s, b.args[0], j))
        return b

    def pure(self, v):
        if isinstance(v, Ref):
            return False
        if isinstance(v, U):
            return all(self.pure(a) for a in v.args if isinstance(a, V))
        if isinstance(v, S):
            return all(self.pure(p.v) for p in v.parts if isinstance(p, One))
        return True

    def e_ListComp(self, e, st, fr):
        return [(x, q if isinstance(q, Raise) else x.alloc(Obj("list", None, {"seq": q}, self.owner, site=e))) for x, q in self.comp(e, st, fr)]

    def e_SetComp(self, e, st, fr):
        return [(x, q if isinstance(q, Raise) else x.alloc(Obj("set", None, {"seq": self.models.as_set(self, x, q, fr, e)}, self.owner, site=e))) for x, q in self.comp(e, st, fr)]

    def e_DictComp(self, e, st, fr):
        pair = ast.copy_location(ast.ListComp(ast.copy_location(ast.Tuple([e.key, e.value], ast.Load()), e), e.generators), e)
        out = []
        for x, q in self.comp(pair, st, fr):
            if isinstance(q, Raise):
                out.append((x, q))
            else:
                out += self.models.dict_from_pairs(self, x, q, fr, e)
        return out

    # calls -----------------------------------------------------------

    def e_Call(self, e, st, fr):
        out = []
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            s = st.obj(fr.env).f.get("self") or (self.getname(st, "self", fr))
            return [(st, U("super", (s, C(fr.fn.qual.rsplit(".", 1)[0]))))]
        for x, f in self.ev(e.func, st, fr):
            if isinstance(f, Raise):
                out.append((x, f))
                continue
            cur = [(x, [], {})]
            for a in e.args:
                nxt = []
                for y, vs, kw in cur:
                    if isinstance(a, ast.Starred):
                        for z, v in self.ev(a.value, y, fr):
                            if isinstance(v, Raise):
                                out.append((z, v))
                                continue
                            for w, q in self.to_seq(z, v, fr, a):
                                if isinstance(q, Raise):
                                    out.append((w, q))
                                elif all(isinstance(p, One) for p in q.parts):
                                    nxt.append((w, vs + [p.v for p in q.parts], kw))
                                else:
                                    nxt.append((w, vs + [Star(q)], kw))
                    else:
                        for z, v in self.ev(a, y, fr):
                            if isinstance(v, Raise):
                                out.append((z, v))
                            else:
                                nxt.append((z, vs + [v], kw))
                cur = nxt
            for k in e.keywords:
                nxt = []
                for y, vs, kw in cur:
                    for z, v in self.ev(k.value, y, fr):
                        if isinstance(v, Raise):
                            out.append((z, v))
                        elif k.arg is None:
                            d = self.models.known_dict(self, z, v)
                            if d is None:
                                z.vague("** of an unknown mapping")
                                nxt.append((z, vs, dict(kw, **{"**": v})))
                            else:
                                nxt.append((z, vs, dict(kw, **d)))
                        else:
                            nxt.append((z, vs, dict(kw, **{k.arg: v})))
                cur = nxt
            for y, vs, kw in cur:
                out += self.call(y, f, vs, kw, fr, e)
        return out

    def call(self, st, f, args, kw, fr, node):
        if isinstance(f, Bound):
            return self.call(st, f.fn, [f.self] + args, kw, fr, node)
        if isinstance(f, Fn):
            return self.call_fn(st, f, args, kw, fr, node)
        if isinstance(f, Cls):
            return self.models.construct(self, st, f, args, kw, fr, node)
        if isinstance(f, Py):
            return f.f(self, st, args, kw, fr, node)
        if isinstance(f, (Bi, Ext, Meth)):
            return self.models.call(self, st, f, args, kw, fr, node)
        if isinstance(f, Ref):
            o = st.obj(f)
            if o.kind == "inst":
                m = self.lookup(st, o.cls, "__call__")
                if m is not None:
                    return self.call(st, Bound(m, f), args, kw, fr, node)
                return [(st, self.exc(st, "TypeError", node, fr))]
            if o.kind == "partial":
                return self.call(st, o.f["fn"], [p.v for p in o.f["args"].parts] + args, dict(o.f["kw"], **kw), fr, node)
            if o.kind in ("list", "dict", "set", "gen"):
                return [(st, self.exc(st, "TypeError", node, fr))]
        if isinstance(f, (C, I, S, SL, Mod)):
            return [(st, self.exc(st, "TypeError", node, fr))]
        return self.models.call_unknown(self, st, f, args, kw, fr, node)

    def call_fn(self, st, f, args, kw, fr, node):
        if fr is not None and fr.fn is not None:
            self.call_edges.add((f"{fr.fn.mod}.{fr.fn.qual}", f"{f.mod}.{f.qual}"))
        h = self.overrides.get(id(f.node))
        if h is not None:
            r = h(self, st, f, args, kw, fr, node)
            if r is not None:
                return r
        b = self.bind(st, f, args, kw, fr, node)
        if isinstance(b, Raise):
            return [(st, b)]
        self.visited.add(f"{f.mod}.{f.qual}")
        depth = sum(1 for g in (fr.stack if fr is not None else ()) if g.node is f.node)
        if depth >= self.max_rec or (fr is not None and len(fr.stack) > 60):
            st.vague(f"recursion in {f.qual}")
            st.event("recursion", f)
            return [(st, self.fresh("rec", labels={"unk"}))]
        if "cached" in f.flags:
            st.event("mut", f, "module", "cache", self.where(node, fr), None)
        env = st.alloc(Obj("env", None, b, "local"))
        if f.gen:
            g = st.alloc(Obj("gen", None, {"fn": f, "env": env, "done": FALSE}, self.owner))
            if "cm" in f.flags:
                return [(st, st.alloc(Obj("cm", None, {"gen": g}, self.owner)))]
            return [(st, g)]
        st.event("call", f, tuple(args), node)
        out = self.run_body(st, f, env.id, None, fr, node)
        for x, v in out:
            x.event("return", f, v)
        return out

    def bind(self, st, f, args, kw, fr, node):
        """-> dict of parameters, or Raise(TypeError)."""
        a = f.node.args
        pos = a.posonlyargs + a.args
        b = {}
        if f.env is not None:
            b["__parent__"] = C(f.env)
        extra = []
        args = list(args)
        for k, v in enumerate(args):
            if isinstance(v, Star):
                rest = args[k:]
                parts = ()
                for r in rest:
                    parts += self.models.token_parts(r.seq) if isinstance(r, Star) else (One(r),)
                if a.vararg and k >= len(pos):
                    extra += list(parts)
                    break
                st.vague("unknown number of arguments")
                n = len(pos) - k
                for j in range(max(0, n)):
                    b[pos[k + j].arg] = self.fresh("stararg", labels={"unk"})
                if a.vararg:
                    extra += list(parts)
                break
            if k < len(pos):
                b[pos[k].arg] = v
            elif a.vararg:
                extra.append(One(v))
            else:
                return self.exc(st, "TypeError", node, fr, f"too many arguments for {f.qual}")
        if a.vararg:
            b[a.vararg.arg] = S("tuple", extra)
        kwextra = {}
        names = {x.arg for x in a.args + a.kwonlyargs}
        unknown_kw = False
        for k, v in kw.items():
            if k == "**":
                unknown_kw = True
                continue
            if k in names:
                if k in b:
                    return self.exc(st, "TypeError", node, fr, f"multiple values for {k} of {f.qual}")
                b[k] = v
            elif a.kwarg:
                kwextra[k] = v
            else:
                return self.exc(st, "TypeError", node, fr, f"{f.qual} has no parameter {k}")
        if a.kwarg:
            b[a.kwarg.arg] = st.alloc(Obj("dict", None, {"ents": tuple((C(k), v) for k, v in kwextra.items()), "rest": NONE}, self.owner))
        nd = len(f.defaults)
        for k, x in enumerate(pos):
            if x.arg not in b:
                j = k - (len(pos) - nd)
                if j >= 0:
                    b[x.arg] = f.defaults[j]
                elif unknown_kw:
                    b[x.arg] = self.fresh("kwarg", labels={"unk"})
                else:
                    return self.exc(st, "TypeError", node, fr, f"missing argument {x.arg} of {f.qual}")
        kd = dict(f.kwdefaults)
        for x in a.kwonlyargs:
            if x.arg not in b:
                if x.arg in kd:
                    b[x.arg] = kd[x.arg]
                else:
                    return self.exc(st, "TypeError", node, fr, f"missing argument {x.arg} of {f.qual}")
        return b

    def exc(self, st, name, node, fr, msg=None):
        r = st.alloc(Obj("exc", None, {"type": Bi(name), "args": S("tuple"), "msg": C(msg)}, "local"))
        st.event("raise", name, self.where(node, fr), msg)
        return Raise(r, node, fn=fr.fn if fr is not None else None)

    def exc_name(self, st, r):
        if r.sig is not None:
            return "unwind"
        if isinstance(r.exc, Ref):
            o = st.obj(r.exc)
            if o.kind == "exc":
                return o.f["type"].name
            if o.kind == "inst":
                return o.cls.name
        return "?"


class Star:
    def __init__(self, seq):
        self.seq = seq


class Holder(V):
    """A control signal kept in a slot."""

    __slots__ = ("sig",)

    def __init__(self, sig):
        self.sig = sig
        self._init(sig)


class Missing(Exception):
    pass
