"""Call graph of the package from its syntax trees.

Functions are found by scope (nested ones included), methods by the classes a
receiver can belong to: annotations of fields and parameters, constructor
calls and what is read out of such values.  Edges of which the target is
certain are kept apart from those found by the name of the method only."""
import ast

CONTAINER = {"append", "add", "get", "pop", "items", "keys", "values", "update", "extend", "insert", "remove", "clear", "sort", "reverse", "copy", "setdefault", "popitem",
             "join", "split", "splitlines", "encode", "decode", "write", "read", "close", "print", "execute", "executescript", "fetchone", "fetchall", "commit", "rollback",
             "strip", "format", "index", "count", "start", "group", "match", "search", "sub", "findall", "discard", "union", "cursor", "hex", "startswith", "endswith"}
WRAPPERS = {"enumerate", "reversed", "list", "tuple", "sorted", "iter", "next", "set", "frozenset", "zip", "cast", "copy", "min", "max"}


class F:
    """A function, method or lambda."""

    def __init__(self, mod, qual, node, cls, parent):
        self.mod, self.qual, self.node, self.cls, self.parent = mod, qual, node, cls, parent
        self.name = f"{mod}.{qual}"
        self.inner = {}  # functions defined inside, by name
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]

    def __repr__(self):
        return self.name

    def own(self):
        """Nodes of the body without those of inner functions."""
        body = self.node.body if isinstance(self.node.body, list) else [self.node.body]
        todo = list(reversed(body))
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                todo += list(reversed(n.decorator_list))
                continue
            if isinstance(n, ast.Lambda) and id(n) in self.named_lambdas:
                continue
            todo += list(reversed(list(ast.iter_child_nodes(n))))

    named_lambdas = ()

    def is_generator(self):
        return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in self.own())


class K:
    """A class."""

    def __init__(self, mod, qual, node):
        self.mod, self.qual, self.node = mod, qual, node
        self.methods, self.fields, self.bases = {}, {}, []


class Edge:
    def __init__(self, src, dst, node, args, receiver, certain, kind):
        self.src, self.dst, self.node, self.args, self.receiver, self.certain, self.kind = src, dst, node, args, receiver, certain, kind


class Graph:
    def __init__(self, trees):
        self.trees = trees
        self.functions, self.classes = [], {}
        self.globals = {m: {} for m in trees}  # module -> name -> F | K | ("mod", m)
        for m, t in trees.items():
            self.collect(m, t.body, None, None, "")
        for m, t in trees.items():
            self.imports(m, t)
        for k in list(self.classes.values()):
            k.bases = [c for b in k.node.bases for c in self.names_in(k.mod, b)]
        for k in self.classes.values():
            self.field_types(k)
        self.edges = []
        for f in self.functions:
            self.edges += self.calls(f)

    # -- definitions

    def collect(self, mod, body, cls, parent, prefix):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.define(mod, n, n.name, cls, parent, prefix)
            elif isinstance(n, ast.ClassDef):
                k = K(mod, prefix + n.name, n)
                self.classes[(mod, k.qual)] = k
                if parent is None and cls is None:
                    self.globals[mod][n.name] = k
                elif parent is not None:
                    parent.inner[n.name] = k
                self.collect(mod, n.body, k, parent, prefix + n.name + ".")
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = n.value
                if isinstance(v, ast.Lambda):
                    self.define(mod, v, n.targets[0].id, cls, parent, prefix)
                elif isinstance(v, ast.Name):
                    # another name for a function
                    (cls.methods if cls else parent.inner if parent else self.globals[mod]).setdefault(n.targets[0].id, ("alias", v.id))
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for part in ("body", "orelse", "finalbody"):
                    self.collect(mod, getattr(n, part, []), cls, parent, prefix)
                for h in getattr(n, "handlers", []):
                    self.collect(mod, h.body, cls, parent, prefix)

    def define(self, mod, n, name, cls, parent, prefix):
        f = F(mod, prefix + name, n, cls, parent)
        self.functions.append(f)
        if cls is not None:
            cls.methods[name] = f
        elif parent is not None:
            parent.inner[name] = f
        else:
            self.globals[mod][name] = f
        if isinstance(n, ast.Lambda):
            if parent is not None:
                parent.named_lambdas = tuple(parent.named_lambdas) + (id(n),)
            return
        self.collect(mod, n.body, None, f, prefix + name + ".")

    def imports(self, m, tree):
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom):
                src = n.module or ""
                if n.level:
                    base = m.split(".")
                    # a module's own package; "gaspra" itself is a package
                    base = base if m + ".__init__" in self.trees or m == "gaspra" else base[:-1]
                    base = base[: len(base) - n.level + 1]
                    src = ".".join(base + ([n.module] if n.module else []))
                for a in n.names:
                    name = a.asname or a.name
                    if src + "." + a.name in self.trees:
                        self.globals[m].setdefault(name, ("mod", src + "." + a.name))
                    elif src in self.trees:
                        self.globals[m].setdefault(name, ("from", src, a.name))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name in self.trees:
                        if a.asname:
                            self.globals[m].setdefault(a.asname, ("mod", a.name))
                        else:
                            self.globals[m].setdefault(a.name.split(".")[0], ("mod", a.name.split(".")[0]))

    def resolve(self, v, mod, depth=0):
        if depth > 8:
            return None
        if isinstance(v, tuple):
            if v[0] == "from":
                return self.resolve(self.globals[v[1]].get(v[2]), v[1], depth + 1)
            if v[0] == "alias":
                return self.resolve(self.globals[mod].get(v[1]), mod, depth + 1)
        return v

    def lookup(self, f, name):
        """What a name means inside a function."""
        g = f
        while g is not None:
            if name in g.inner:
                v = g.inner[name]
                if isinstance(v, tuple):
                    return self.lookup(g.parent, v[1]) if g.parent else self.resolve(self.globals[f.mod].get(v[1]), f.mod)
                return v
            if name in g.params or name in assigned(g):
                return None
            g = g.parent
        return self.resolve(self.globals[f.mod].get(name), f.mod)

    def target(self, f, e):
        """The function, class or module an expression names."""
        if isinstance(e, ast.Name):
            return self.lookup(f, e.id)
        if isinstance(e, ast.Attribute):
            b = self.target(f, e.value)
            if isinstance(b, tuple) and b[0] == "mod":
                sub = b[1] + "." + e.attr
                return ("mod", sub) if sub in self.trees else self.resolve(self.globals[b[1]].get(e.attr), b[1])
            if isinstance(b, K):
                return self.method(b, e.attr)
        return None

    def method(self, k, name, seen=()):
        if name in k.methods:
            v = k.methods[name]
            if isinstance(v, tuple):
                return self.method(k, v[1]) if v[1] != name else None
            return v
        for b in k.bases:
            if b not in seen:
                m = self.method(b, name, seen + (k,))
                if m is not None:
                    return m
        return None

    def families(self, k):
        """The class and those derived from it."""
        return [k] + [c for c in self.classes.values() if c is not k and k in self.ancestors(c)]

    def ancestors(self, k, depth=0):
        return [] if depth > 8 else [x for b in k.bases for x in [b] + self.ancestors(b, depth + 1)]

    # -- types

    def names_in(self, mod, ann):
        """Classes of the package named in an annotation."""
        if ann is None:
            return []
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return []
        r = []
        for n in ast.walk(ann):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n is not ann:
                r += self.names_in(mod, n)
            if isinstance(n, ast.Name):
                v = self.resolve(self.globals[mod].get(n.id), mod)
                if isinstance(v, K):
                    r.append(v)
        return r

    def field_types(self, k):
        for n in k.node.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                k.fields[n.target.id] = self.names_in(k.mod, n.annotation)
        for m in list(k.methods.values()):
            if not isinstance(m, F):
                continue
            for n in m.own():
                t = n.target if isinstance(n, ast.AnnAssign) else n.targets[0] if isinstance(n, ast.Assign) and len(n.targets) == 1 else None
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and m.params and t.value.id == m.params[0]:
                    ts = self.names_in(k.mod, n.annotation) if isinstance(n, ast.AnnAssign) else []
                    if isinstance(n, ast.Assign):
                        if isinstance(n.value, ast.Call):
                            c = self.target(m, n.value.func)
                            ts = [c] if isinstance(c, K) else []
                        elif isinstance(n.value, ast.Name):
                            ts = self.names_in(k.mod, annotation_of(m, n.value.id))
                    k.fields.setdefault(t.attr, [])
                    k.fields[t.attr] += [x for x in ts if x not in k.fields[t.attr]]

    def variables(self, f):
        """name -> classes its values can belong to"""
        v = {}
        if f.parent is not None:
            v.update(self.variables(f.parent))
        if f.cls is not None and f.params:
            v[f.params[0]] = self.families(f.cls)
        for p in f.params:
            ts = self.names_in(f.mod, annotation_of(f, p))
            if ts:
                v[p] = [c for t in ts for c in self.families(t)]
        for _ in range(4):
            n0 = sum(len(x) for x in v.values())
            for n in f.own():
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        self.bind(v, t, self.types(f, v, n.value))
                elif isinstance(n, ast.AnnAssign):
                    self.bind(v, n.target, self.names_in(f.mod, n.annotation) + (self.types(f, v, n.value) if n.value else []))
                elif isinstance(n, ast.NamedExpr):
                    self.bind(v, n.target, self.types(f, v, n.value))
                elif isinstance(n, (ast.For, ast.comprehension)):
                    self.bind(v, n.target, self.types(f, v, n.iter))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "add", "appendleft", "insert", "extend") and isinstance(n.func.value, ast.Name):
                    self.bind(v, n.func.value, [c for a in n.args for c in self.types(f, v, a)])
                elif isinstance(n, ast.With):
                    for i in n.items:
                        if i.optional_vars is not None:
                            self.bind(v, i.optional_vars, self.types(f, v, i.context_expr))
            if sum(len(x) for x in v.values()) == n0:
                break
        return v

    def bind(self, v, t, ts):
        if isinstance(t, ast.Name):
            if ts:
                v.setdefault(t.id, [])
                v[t.id] = v[t.id] + [x for x in ts if x not in v[t.id]]
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.bind(v, e, ts)
        elif isinstance(t, ast.Starred):
            self.bind(v, t.value, ts)

    def types(self, f, v, e):
        if isinstance(e, ast.Name):
            return v.get(e.id, [])
        if isinstance(e, ast.Attribute):
            r = []
            for c in self.types(f, v, e.value):
                for k in [c] + self.ancestors(c):
                    for t in k.fields.get(e.attr, []):
                        r += [x for x in self.families(t) if x not in r]
                m = self.method(c, e.attr)
                if m is not None and not isinstance(m.node, ast.Lambda) and any("property" in ast.unparse(d) for d in m.node.decorator_list):
                    r += [x for x in self.names_in(m.mod, m.node.returns) if x not in r]
            return r
        if isinstance(e, ast.Call):
            t = self.target(f, e.func)
            if isinstance(t, K):
                return [t]
            if isinstance(t, F) and isinstance(t.node, ast.FunctionDef):
                return [c for x in self.names_in(t.mod, t.node.returns) for c in self.families(x)]
            if isinstance(e.func, ast.Attribute):
                recv = self.types(f, v, e.func.value)
                r = []
                for c in recv:
                    m = self.method(c, e.func.attr)
                    if isinstance(m, F) and isinstance(m.node, ast.FunctionDef):
                        r += [x for t in self.names_in(m.mod, m.node.returns) for x in self.families(t) if x not in r]
                return r or (recv if e.func.attr in CONTAINER else [])
            if isinstance(e.func, ast.Name) and e.func.id in WRAPPERS:
                return [c for a in e.args for c in self.types(f, v, a)]
            return []
        if isinstance(e, (ast.Subscript, ast.Starred, ast.Await)):
            return self.types(f, v, e.value)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return [c for x in e.elts for c in self.types(f, v, x)]
        if isinstance(e, ast.Dict):
            return [c for x in e.values for c in self.types(f, v, x)]
        if isinstance(e, ast.BoolOp):
            return [c for x in e.values for c in self.types(f, v, x)]
        if isinstance(e, ast.IfExp):
            return self.types(f, v, e.body) + self.types(f, v, e.orelse)
        if isinstance(e, ast.NamedExpr):
            return self.types(f, v, e.value)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return self.types(f, v, e.elt)
        if isinstance(e, ast.BinOp):
            return self.types(f, v, e.left) + self.types(f, v, e.right)
        return []

    # -- calls

    def calls(self, f):
        out = []
        v = self.variables(f)

        def edge(dst, node, args, receiver=None, certain=True, kind="call"):
            if isinstance(dst, F):
                out.append(Edge(f, dst, node, args, receiver, certain, kind))

        def construct(k, node, args):
            for m in ("__init__", "__new__", "__post_init__"):
                edge(self.method(k, m), node, args, None)

        for n in f.own():
            if isinstance(n, ast.Call):
                args = list(n.args) + [k.value for k in n.keywords]
                t = self.target(f, n.func)
                if isinstance(t, F):
                    edge(t, n, args)
                elif isinstance(t, K):
                    construct(t, n, args)
                elif isinstance(n.func, ast.Attribute):
                    if isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super":
                        for b in (f.cls.bases if f.cls is not None else []):
                            edge(self.method(b, n.func.attr), n, args)
                        continue
                    recv = self.types(f, v, n.func.value)
                    found = False
                    for c in recv:
                        m = self.method(c, n.func.attr)
                        if m is not None:
                            found = True
                            edge(m, n, args, n.func.value)
                    if not found and not recv and n.func.attr not in CONTAINER:
                        for c in self.classes.values():
                            if isinstance(c.methods.get(n.func.attr), F):
                                edge(c.methods[n.func.attr], n, args, n.func.value, certain=False)
                # functions handed over to be called
                for a in args:
                    t = self.target(f, a) if isinstance(a, (ast.Name, ast.Attribute)) else None
                    if isinstance(t, F):
                        edge(t, n, [x for x in args if x is not a], None, kind="reference")
                    elif isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name):
                        for c in self.types(f, v, a.value):
                            edge(self.method(c, a.attr), n, [x for x in args if x is not a], None, kind="reference")
                if isinstance(n.func, ast.Name) and self.lookup(f, n.func.id) is None and n.args:
                    dunder = {"str": "__str__", "repr": "__repr__", "len": "__len__", "hash": "__hash__", "iter": "__iter__", "next": "__next__", "list": "__iter__", "tuple": "__iter__",
                              "set": "__iter__", "sum": "__iter__", "sorted": "__iter__", "bool": "__bool__", "format": "__format__", "print": "__str__"}.get(n.func.id)
                    if dunder and not (isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp))):
                        for c in self.types(f, v, n.args[0]):
                            edge(self.method(c, dunder), n, n.args, n.args[0], kind=dunder)
            elif isinstance(n, (ast.For, ast.comprehension, ast.YieldFrom)):
                src = n.iter if not isinstance(n, ast.YieldFrom) else n.value
                if not isinstance(src, ast.Call):
                    for c in self.types(f, v, src):
                        edge(self.method(c, "__iter__"), src, [src], src, kind="__iter__")
            elif isinstance(n, ast.Compare):
                for op, x in zip(n.ops, [n.left] + n.comparators):
                    d = {ast.Eq: "__eq__", ast.NotEq: "__eq__", ast.Lt: "__lt__", ast.Gt: "__gt__", ast.LtE: "__le__", ast.GtE: "__ge__"}.get(type(op))
                    if d and isinstance(x, (ast.Attribute, ast.Name)):
                        for c in self.types(f, v, x):
                            edge(self.method(c, d), n, [x], x, kind=d)
                for op, x in zip(n.ops, n.comparators):
                    if isinstance(op, (ast.In, ast.NotIn)):
                        for c in self.types(f, v, x):
                            edge(self.method(c, "__contains__"), n, [n.left], x, kind="__contains__")
            elif isinstance(n, ast.FormattedValue):
                for c in self.types(f, v, n.value):
                    edge(self.method(c, "__str__") or self.method(c, "__repr__"), n, [n.value], n.value, kind="__str__")
            elif isinstance(n, ast.Subscript):
                for c in self.types(f, v, n.value):
                    edge(self.method(c, "__getitem__"), n, [n.slice], n.value, kind="__getitem__")
        return out


def assigned(f):
    c = f.__dict__.get("_assigned")
    if c is None:
        c = f._assigned = set()
        for n in f.own():
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                c.add(n.id)
        if not isinstance(f.node, ast.Lambda):
            for n in f.own():
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    c.difference_update(n.names)
    return c


def annotation_of(f, p):
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == p:
            return x.annotation
    return None


def components(nodes, edges):
    """Strongly connected components with a cycle."""
    out = {n: [] for n in nodes}
    for e in edges:
        out[e.src].append(e.dst)
    index, low, on, stack, res = {}, {}, set(), [], []
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(out[root]))]
        index[root] = low[root] = len(index)
        stack.append(root)
        on.add(root)
        while work:
            n, it = work[-1]
            for m in it:
                if m not in index:
                    index[m] = low[m] = len(index)
                    stack.append(m)
                    on.add(m)
                    work.append((m, iter(out[m])))
                    break
                if m in on:
                    low[n] = min(low[n], index[m])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[n])
                if low[n] == index[n]:
                    comp = []
                    while True:
                        m = stack.pop()
                        on.discard(m)
                        comp.append(m)
                        if m is n:
                            break
                    if len(comp) > 1 or n in out[n]:
                        res.append(comp)
    return res
