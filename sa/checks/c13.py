"""C13: the depth of nested calls does not grow with the length of the input."""
import ast

from .. import callgraph as cg
from ..report import Anchor, known_findings

EXPLAIN = ("Call graph of the package built from its syntax trees (nested functions, methods by the classes receivers can belong to, constructors, functions handed over, operators). "
           "Every cycle of certain calls is judged by what its arguments are derived from: a cycle on which an argument or receiver is a part, a link, an element or a step of a parameter nests once "
           "per element of the input (violation); a cycle that passes through an alternative (.a/.b) of a change is bounded by the nesting of changes. Lazy values wrapped around themselves in a loop "
           "and comparisons or copies that follow the links of nodes are reported too. Cycles that need calls matched by name only, or whose arguments halve, are undecided.")
TECHNIQUE = "call-graph cycle analysis with provenance of arguments (static analysis)"

SKIP = {"torture_test", "difflib_benchmark", "examples", "dot_dump"}
LAZY = {"chain", "map", "filter", "zip", "islice", "partial", "takewhile", "dropwhile", "starmap", "accumulate", "tee", "compress", "groupby", "enumerate", "zip_longest", "filterfalse", "pairwise", "from_iterable"}
TREE = {"memory_tree", "db_tree", "versions", "tree", "manifest"}


def base(m):
    return m.rsplit(".", 1)[-1]


# -- what an expression is derived from

def change_like(g, f, e):
    """Names a class with two alternatives."""
    k = g.target(f, e)
    if isinstance(k, cg.K):
        return {"a", "b"} <= set(k.fields)
    name, mod = (e.attr, None) if isinstance(e, ast.Attribute) else (e.id, f.mod)
    for _ in range(6):
        v = g.globals.get(mod, {}).get(name) if mod else None
        if not (isinstance(v, tuple) and v[0] == "from"):
            break
        mod, name = v[1], v[2]
    for m, t in g.trees.items():
        if mod in (None, m):
            for n in t.body:
                if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in n.targets) and isinstance(n.value, ast.Call) and "namedtuple" in ast.unparse(n.value.func).lower():
                    names = {x.value for a in n.value.args[1:] for x in ast.walk(a) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
                    if {"a", "b"} <= {y for x in names for y in x.replace(",", " ").split()}:
                        return True
    return False


class Origin:
    """const, same (a parameter as it is), nest (an alternative of a change),
    progress (part, link, element, step), halve, path, unknown"""

    def __init__(self, g, f):
        self.g, self.f = g, f
        self.defs = {}
        # names which some test shows to hold a change
        self.changes = {n.args[0].id for n in f.own() if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2
                        and isinstance(n.args[0], ast.Name) and isinstance(n.args[1], (ast.Name, ast.Attribute)) and change_like(g, f, n.args[1])}
        for n in f.own():
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.define(t, n.value, "value")
            elif isinstance(n, ast.AugAssign):
                self.define(n.target, n, "aug")
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.define(n.target, n.value, "value")
            elif isinstance(n, ast.NamedExpr):
                self.define(n.target, n.value, "value")
            elif isinstance(n, (ast.For, ast.comprehension)):
                self.define(n.target, n.iter, "element")
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        self.define(i.optional_vars, i.context_expr, "value")
            elif isinstance(n, ast.MatchAs) and n.name:
                self.defs.setdefault(n.name, []).append((None, "unknown"))
        # the subjects of match statements
        for n in f.own():
            if isinstance(n, ast.Match):
                for c in n.cases:
                    for p in ast.walk(c.pattern):
                        name = getattr(p, "name", None) or getattr(p, "rest", None)
                        if isinstance(name, str):
                            cls = c.pattern.pattern if isinstance(c.pattern, ast.MatchAs) else c.pattern
                            change = isinstance(cls, ast.MatchClass) and change_like(g, f, cls.cls)
                            self.defs[name] = [(n.subject, "alternative" if change and p is not c.pattern else "element" if isinstance(c.pattern, (ast.MatchSequence,)) else "nestable")]
                            if change and isinstance(c.pattern, ast.MatchAs) and c.pattern.name:
                                self.changes.add(c.pattern.name)
                    if any(isinstance(c.pattern, ast.MatchClass) and change_like(g, f, c.pattern.cls) for c in n.cases) and isinstance(n.subject, ast.Name):
                        self.changes.add(n.subject.id)

        # parameters which are given only changes
        memo = g.__dict__.setdefault("change_params", {})
        for p in f.params:
            if (f, p) not in memo:
                memo[f, p] = False  # while it is being found out
                memo[f, p] = self.given_changes(p)
            if memo[f, p]:
                self.changes.add(p)

    def given_changes(self, p):
        g, f = self.g, self.f
        ann = cg.annotation_of(f, p)
        if isinstance(ann, (ast.Name, ast.Attribute)) and change_like(g, f, ann):
            return True
        calls = [e for e in g.edges if e.dst is f and e.certain]
        if not calls:
            return False
        for e in calls:
            n = e.node
            if not isinstance(n, ast.Call):
                return False
            i = f.params.index(p) - (1 if f.cls is not None and e.receiver is not None else 0)
            a = n.args[i] if 0 <= i < len(n.args) and not any(isinstance(x, ast.Starred) for x in n.args[: i + 1]) else next((k.value for k in n.keywords if k.arg == p), None)
            if not isinstance(a, ast.Name) or a.id not in Origin(g, e.src).changes:
                return False
        return True

    def is_change(self, e):
        return isinstance(e, ast.Name) and e.id in self.changes

    def define(self, t, v, how):
        if isinstance(t, ast.Name):
            self.defs.setdefault(t.id, []).append((v, how))
        elif how == "element" and isinstance(t, (ast.Tuple, ast.List)) and self.paired(t.elts, v):
            for e, x in self.paired(t.elts, v):
                self.define(e, x, "element")
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and how == "value" and len(v.elts) == len(t.elts) else None
            for i, e in enumerate(t.elts):
                self.define(e, vs[i] if vs else v, how if vs else ("unpack" if how == "value" else how))
        elif isinstance(t, ast.Starred):
            self.define(t.value, v, "unpack")

    @staticmethod
    def paired(ts, v):
        """What each of the targets runs through, of zip, enumerate and tables."""
        if any(isinstance(t, ast.Starred) for t in ts):
            return None
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and not any(isinstance(a, ast.Starred) for a in v.args):
            if v.func.id == "enumerate" and v.args and len(ts) == 2:
                return [(ts[0], ast.Constant(0)), (ts[1], v.args[0])]
            if v.func.id == "zip" and len(v.args) == len(ts):
                return list(zip(ts, v.args))
        if isinstance(v, (ast.Tuple, ast.List)) and v.elts and all(isinstance(x, (ast.Tuple, ast.List)) and len(x.elts) == len(ts) for x in v.elts):
            return [(t, ast.Tuple([x.elts[i] for x in v.elts], ast.Load())) for i, t in enumerate(ts)]
        return None

    def kinds(self, e, seen=frozenset()):
        k = self.kinds
        if e is None or isinstance(e, (ast.Constant, ast.Lambda, ast.JoinedStr)):
            return {"const"}
        if isinstance(e, ast.Name):
            if e.id in seen:
                return set()
            seen = seen | {e.id}
            r = set()
            if e.id in self.f.params:
                r.add("same")
            for v, how in self.defs.get(e.id, ()):
                if how == "unknown":
                    r.add("unknown")
                elif how == "aug":
                    r |= k(v.value, seen) | {"progress"}
                elif how == "element" and isinstance(v, (ast.Tuple, ast.List)):
                    # one after another
                    for x in v.elts:
                        r |= k(x, seen)
                else:
                    d = k(v, seen)
                    if (how == "alternative" or how in ("element", "unpack") and self.is_change(v)) and d & {"same", "progress", "nest", "unknown"}:
                        d = {"nest"}
                    if how in ("element", "unpack") and "same" in d:
                        d = d - {"same"} | {"progress"}
                    r |= d
            if r:
                return r
            p = self.f.parent
            while p is not None:
                if e.id in p.params or e.id in cg.assigned(p):
                    return {"same"}
                p = p.parent
            return {"const"}
        if isinstance(e, ast.Attribute):
            d = k(e.value, seen)
            if e.attr in ("a", "b"):
                return {"nest"} if d & {"same", "progress", "nest", "unknown"} else d
            if isinstance(e.value, ast.Name) and self.f.params and e.value.id == self.f.params[0] and self.f.cls is not None:
                return {"field"}
            if d & {"same", "field"}:
                return d - {"same", "field"} | {"progress"}
            return d
        if isinstance(e, ast.Subscript):
            d = k(e.value, seen)
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
                return d  # an entry of a record
            if self.is_change(e.value) and not isinstance(e.slice, ast.Slice) and d & {"same", "progress", "nest", "unknown"}:
                return {"nest"}  # an alternative
            s = k(e.slice, seen) if not isinstance(e.slice, ast.Slice) else set().union(*[k(x, seen) for x in (e.slice.lower, e.slice.upper, e.slice.step) if x is not None])
            if d & {"same", "field"}:
                d = d - {"same", "field"} | {"progress"}
            return d | ({"halve"} if "halve" in s else set())
        if isinstance(e, ast.BinOp):
            d = k(e.left, seen) | k(e.right, seen)
            if isinstance(e.op, (ast.FloorDiv, ast.Div, ast.RShift)):
                return {"halve"}
            if "same" in d and isinstance(e.op, (ast.Add, ast.Sub)):
                num = [x for x in (e.left, e.right) if isinstance(x, ast.Constant) and isinstance(x.value, (str, bytes))]
                return d - {"same"} | ({"grow"} if num else {"progress"})
            return d
        if isinstance(e, ast.Call):
            args = list(e.args) + [x.value for x in e.keywords]
            d = set().union(set(), *[{"nest"} if self.is_change(a) and isinstance(e.func, ast.Name) and e.func.id in cg.WRAPPERS | {"getattr"} else k(a, seen) for a in args])
            name = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ""
            if isinstance(e.func, ast.Attribute):
                d |= k(e.func.value, seen)
            if name == "path_to":
                return {"path"}
            if name in ("next", "pop", "popleft", "popitem", "slice", "islice", "get", "fetchone"):
                return d - {"same", "field"} | ({"progress"} if d & {"same", "field"} else set())
            if name in ("iter", "tuple", "list", "reversed", "enumerate", "zip", "sorted", "str", "bytes", "cast", "copy", "chain"):
                return d
            if name in ("len", "isinstance", "type", "repr", "hash", "id", "range"):
                return {"const"}
            if name == "getattr" and self.is_change(e.args[0] if e.args else None):
                return {"nest"}
            # the result of some other call
            return d - {"same", "field"} | ({"unknown"} if d & {"same", "field", "progress"} else set())
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            d = set().union(*[k(c.iter, seen) for c in e.generators])
            cut = any(c.ifs for c in e.generators)
            return d | ({"progress"} if cut and "same" in d else set())
        if isinstance(e, (ast.Compare, ast.UnaryOp)) and not isinstance(getattr(e, "op", None), (ast.USub, ast.UAdd)):
            return {"const"}
        if isinstance(e, ast.Starred) and self.is_change(e.value):
            return {"nest"}
        r = set()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                r |= k(c, seen)
        return r or {"const"}


def steps_itself(f):
    """Moves on without its arguments showing it: through a counter of an
    enclosing function or an iterator or container it takes from."""
    own_locals = cg.assigned(f) - set(f.params)
    for n in f.own():
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id not in own_locals and any(isinstance(m, (ast.Nonlocal, ast.Global)) and n.target.id in m.names for m in f.own()):
            return True
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id == "next" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id not in own_locals:
                return True
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "popleft", "popitem") and isinstance(n.func.value, ast.Name) and n.func.value.id not in own_locals:
                return True
    return False


def classify(g, e, origins):
    """What one call of a cycle does to what is recursed over."""
    o = origins.setdefault(e.src, Origin(g, e.src))
    kinds = set()
    for a in e.args:
        kinds |= o.kinds(a)
    if e.receiver is not None:
        r = o.kinds(e.receiver)
        if "field" in r:  # a part of self
            r = r - {"field"} | {"progress"}
        kinds |= r
    kinds.discard("field")
    return kinds


def label(g, comp, edges_all):
    """The public functions by which callers get into a cycle; they name it
    whatever its private helpers are called."""
    def public(f):
        return f.parent is None and not any(p.startswith("_") and not p.startswith("__") for p in f.qual.split("."))

    comp = set(comp)
    pub = sorted(f.name for f in comp if public(f))
    if pub:
        return pub
    seen, todo, found = set(comp), list(comp), set()
    while todo:
        f = todo.pop()
        for e in edges_all:
            if e.dst is f and e.src not in seen:
                seen.add(e.src)
                if public(e.src):
                    found.add(e.src.name)
                else:
                    todo.append(e.src)
        if f.parent is not None and f.parent not in seen:
            seen.add(f.parent)
            if public(f.parent):
                found.add(f.parent.name)
            else:
                todo.append(f.parent)
    return sorted(found) or sorted(f.name for f in comp)


def judge(ctx, g, comp, edges, certain, cyclic=frozenset()):
    """A strongly connected part of the call graph."""
    inside = [e for e in edges if e.src in comp and e.dst in comp]
    origins = {}
    kinds = {id(e): classify(g, e, origins) for e in inside}
    # going down into the alternatives of a change ends with the nesting of
    # changes in each other
    rest = [e for e in inside if not ("nest" in kinds[id(e)] and not kinds[id(e)] & {"progress", "unknown", "halve"})]
    subs = cg.components(list(comp), rest)
    if not subs:
        for f in comp:
            ctx.good("bounded by the nesting of changes", f.name)
        return
    for sub in subs:
        es = [e for e in rest if e.src in sub and e.dst in sub]
        names = [f.name for f in sub]
        allk = set().union(*[kinds[id(e)] for e in es])
        moving = [e for e in es if "progress" in kinds[id(e)] or (steps_itself(e.src) and not kinds[id(e)] & {"halve", "path", "unknown"})]
        tree = any(base(f.mod) in TREE for f in sub)
        links_only = tree and all("progress" not in kinds[id(e)] or linked(e) for e in es)
        from_path = any("path" in classify(g, e, origins) for e in edges if e.dst in sub and e.src not in sub) or "path" in allk
        where = f"{base(sub[0].mod)}.py:{es[0].node.lineno}" if hasattr(es[0].node, "lineno") else sub[0].mod
        where = "src/gaspra/" + where
        labels = entry_labels(g, sub, edges, cyclic)
        if not certain or not moving or allk & {"halve"} or links_only or from_path:
            why = ("calls matched by the name of the method only" if not certain else "its depth is that of the tree of versions" if links_only or from_path else
                   "its arguments are halved" if "halve" in allk else "nothing shows that its arguments move along the input")
            for n in labels:
                ctx.undecided("recursion", n, f"the calls of {', '.join(names)} form a cycle; {why}")
            continue
        m = moving[0]
        for n in labels:
            ctx.violation("recursion", n, f"{n} nests once per element of its input: {m.src.qual} calls {m.dst.qual}({', '.join(ast.unparse(a) for a in m.args)})"
                          + (f" on {ast.unparse(m.receiver)}" if m.receiver is not None else ""), where, [f"{e.src.name} -> {e.dst.name} line {getattr(e.node, 'lineno', '?')}" for e in es])


def linked(e):
    """The step follows a link from one node to another (by attribute)."""
    return not any(isinstance(n, ast.Subscript) or (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "next") or
                   (isinstance(n, ast.BinOp)) for a in e.args for n in ast.walk(a))


def entry_labels(g, sub, edges, cyclic=frozenset()):
    """Names of a cycle that survive the extraction of helpers: methods that
    go down the parts of their own object are named by their class, others by
    the functions callers enter them by."""
    inside = [e for e in edges if e.src in sub and e.dst in sub]
    if all(f.cls is not None for f in sub) and any(e.receiver is not None for e in inside):
        return sorted({f"{f.mod}.{f.cls.qual}" for f in sub})
    names = label(g, sub, edges)
    entered = {e.dst.name for e in edges if e.dst in sub and e.src not in sub}
    names = [n for n in names if n in entered] or names
    known = {k.split(":", 1)[1] for p, k in known_findings() if p == "C13" and k.startswith("recursion:")}
    if not set(names) & known:
        # the recursion of a known finding moved into a helper of its function
        moved = sorted({e.src.name for e in edges if e.dst in sub and e.src not in sub and e.src.name in known and e.src not in cyclic and e.src.mod == e.dst.mod})
        names = moved or names
    return names


# -- lazy values wrapped around themselves

def lazy_rule(ctx, g):
    generators = {f for f in g.functions if not isinstance(f.node, ast.Lambda) and f.is_generator()}
    for f in g.functions:
        if base(f.mod) in SKIP:
            continue
        for loop in f.own():
            if not isinstance(loop, (ast.For, ast.While)):
                continue
            bad = False
            for n in (x for s in loop.body for x in ast.walk(s)):
                if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name)):
                    continue
                name, v = n.targets[0].id, n.value
                why = wraps(g, f, v, name, generators)
                if why and carried(loop, n, name):
                    bad = True
                    if base(f.mod) in TREE:
                        ctx.undecided("lazy nesting", f"{f.name}.{name}", f"{f.qual} wraps {name} in {why} once per step down the tree of versions")
                        continue
                    ctx.violation("lazy nesting", f"{f.name}.{name}", f"{f.qual}: each round of the loop wraps {name} once more in {why}; taking from it nests once per round",
                                  f"src/gaspra/{base(f.mod)}.py:{n.lineno}")
            if not bad:
                ctx.good("no lazy value wrapped in itself by a loop", f"{f.name}:{loop.lineno}")


def carried(loop, assign, name):
    """The value comes from the round before: not bound by the loop itself
    before it is wrapped."""
    bound = isinstance(loop, ast.For) and any(isinstance(t, ast.Name) and t.id == name for t in ast.walk(loop.target))
    if bound:
        return False
    for s in loop.body:
        if any(x is assign for x in ast.walk(s)):
            return True
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
            return False
    return True


def wraps(g, f, v, name, generators):
    def mentions(e):
        return any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(e))

    if isinstance(v, ast.GeneratorExp) and mentions(v.generators[0].iter):
        return "a generator expression"
    if isinstance(v, ast.Lambda) and any(isinstance(x, ast.Call) and mentions(x.func) for x in ast.walk(v)):
        return "a function"
    if isinstance(v, ast.Call):
        t = g.target(f, v.func)
        fname = v.func.id if isinstance(v.func, ast.Name) else v.func.attr if isinstance(v.func, ast.Attribute) else ""
        direct = [a for a in v.args if (isinstance(a, ast.Name) and a.id == name) or (isinstance(a, (ast.Starred,)) and False) or wraps(g, f, a, name, generators)]
        if direct and t in generators:
            return f"{fname}()"
        if direct and t is None and fname in LAZY and not (isinstance(v.func, ast.Attribute) and fname not in LAZY):
            return f"{fname}()"
    return None


# -- comparisons and copies that follow links

def structure_rule(ctx, g):
    recursive = {}
    for k in g.classes.values():
        deco = [d for d in k.node.decorator_list if "dataclass" in ast.unparse(d)]
        rec = [n for n, ts in k.fields.items() if k in ts]
        if rec:
            eq = bool(deco) and not any("eq=False" in ast.unparse(d) for d in deco) and g.method(k, "__eq__") is None
            recursive[k] = (rec, eq)
    if not recursive:
        return
    counted = {k: unique_fields(g, k) for k in recursive}
    for f in g.functions:
        if base(f.mod) in SKIP:
            continue
        v = None
        for n in f.own():
            tests = []
            if isinstance(n, ast.Compare):
                tests = [(x, y) for op, x, y in zip(n.ops, [n.left] + n.comparators, n.comparators) if isinstance(op, (ast.Eq, ast.NotEq, ast.In, ast.NotIn))]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("remove", "index", "count"):
                tests = [(a, a) for a in n.args]
            elif isinstance(n, ast.Call) and (ast.unparse(n.func) in ("copy.deepcopy", "deepcopy", "pickle.dumps")):
                v = v if v is not None else g.variables(f)
                ks = [k for a in n.args for k in g.types(f, v, a) if k in recursive]
                for k in ks:
                    ctx.violation("structure", f"{f.name}:{k.qual}", f"{f.qual}: copying a {k.qual} follows {', '.join(recursive[k][0])} from one to the next, nesting once per link",
                                  f"src/gaspra/{base(f.mod)}.py:{n.lineno}")
            for x, y in tests:
                v = v if v is not None else g.variables(f)
                for k in set(g.types(f, v, x)) & set(recursive):
                    if isinstance(x, ast.Constant) or isinstance(y, ast.Constant):
                        continue
                    rec, eq = recursive[k]
                    if not eq:
                        ctx.good("comparison does not follow links", f"{f.name}:{k.qual}")
                        continue
                    order = [m.target.id for m in k.node.body if isinstance(m, ast.AnnAssign) and isinstance(m.target, ast.Name) and "compare=False" not in ast.unparse(m)]
                    before = order[: min([order.index(r) for r in rec if r in order], default=len(order))]
                    if not [r for r in rec if r in order] or set(before) & counted[k]:
                        ctx.good("comparison does not follow links", f"{f.name}:{k.qual}")
                    elif not before:
                        ctx.violation("structure", f"{f.name}:{k.qual}", f"{f.qual}: comparing two {k.qual} compares {rec[0]} first and so nests once per link", f"src/gaspra/{base(f.mod)}.py:{n.lineno}")
                    else:
                        ctx.undecided("structure", f"{f.name}:{k.qual}", f"{f.qual} compares two {k.qual} by their fields; whether one of {', '.join(before)} differs first is not known")


def unique_fields(g, k):
    """Fields which every construction takes from a counter."""
    got = None
    for f in g.functions:
        for n in f.own():
            if isinstance(n, ast.Call) and g.target(f, n.func) is k:
                here = {kw.arg for kw in n.keywords if kw.arg and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "next" for x in ast.walk(kw.value))}
                got = here if got is None else got & here
    return got or set()


def check(ctx):
    it = ctx.interp()
    trees = {m: t for m, t in it.trees.items() if base(m) not in SKIP}
    if len(trees) < 5:
        raise Anchor("the modules of the package were not found")
    g = cg.Graph(trees)
    for mod, names in (("suffix_automaton", ("build", "find_lcs")), ("multiple_strings", ("find_lcs",)), ("changesets", ("find_changeset", "diff")), ("merge", ("merge",)), ("diff_to_lines", ("to_line_diff",))):
        for n in names[:1]:
            ctx.fn(it, mod, n, required=False)
    ctx.visited |= {f.name for f in g.functions}
    certain = [e for e in g.edges if e.certain]
    comps = cg.components(g.functions, certain)
    cyc = {f for c in comps for f in c}
    for f in g.functions:
        if f not in cyc:
            ctx.good("not on a cycle of calls", f.name)
    ctx.good("calls resolved", f"{len(certain)} calls", len(certain))
    for c in comps:
        judge(ctx, g, set(c), certain, True, cyc)
    # cycles closed only by calls matched by name
    for c in cg.components(g.functions, g.edges):
        if not any(set(c) <= set(d) or set(d) & set(c) for d in comps):
            judge(ctx, g, set(c), g.edges, False, cyc)
    lazy_rule(ctx, g)
    structure_rule(ctx, g)
