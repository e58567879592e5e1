"""C11: results are reproducible."""
import ast

from . import effects
from .effects import *

EXPLAIN = (
    "Effect analysis: every public operation of search, diff, merge, line view, tokenizers, serialization and version storage is evaluated by abstract interpretation. Calls on the way that give "
    "something else in every process (random numbers, clocks, object identities, hashes, environment, process data) are violations. Expressions whose value is a set of several elements with "
    "hashes that differ between processes are recorded, and a rule over the place where the value is used decides whether its order can reach a result: iteration into lists, tuples, texts or "
    "generators, unpacking, popping, loops that append, number, yield or keep elements are violations; membership, sizes, sorting, unions and loops without an ordered effect are not."
)

IMPURE = ("random.", "time.", "datetime.", "uuid.", "secrets.", "os.urandom", "os.getpid", "os.environ", "os.getenv", "os.getcwd", "os.listdir", "os.scandir", "glob.", "platform.", "socket.",
          "sys.argv", "getpass.", "locale.", "tempfile.", "id", "hash", "threading.get_ident", "os.cpu_count", "sys.getsizeof", "gc.", "sys.hash_info", "sys.getrefcount", "os.times")
PURE_ANYWAY = ("datetime.timedelta", "time.struct_time", "datetime.date", "random.Random")
INSENSITIVE = {"sorted", "len", "set", "frozenset", "any", "all", "sum", "bool", "min", "max", "isinstance", "type", "print", "Counter", "issubset", "issuperset", "isdisjoint", "union", "intersection",
               "difference", "symmetric_difference", "update", "copy", "discard", "add"}
SENSITIVE = {"list", "tuple", "enumerate", "zip", "map", "filter", "iter", "next", "join", "extend", "chain", "str", "repr", "fromkeys", "from_iterable", "islice", "reversed", "deque", "dict", "format", "accumulate", "reduce", "extendleft"}


def impure(path):
    return any(path == p or path.startswith(p) and p.endswith(".") or p in ("os.environ",) and path.startswith(p) for p in IMPURE) and path not in PURE_ANYWAY


def parents(tree, cache={}):
    p = cache.get(id(tree))
    if p is None:
        p = {}
        for n in ast.walk(tree):
            for m in ast.iter_child_nodes(n):
                p[id(m)] = n
        cache[id(tree)] = p
    return p


def callee(n):
    return n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""


def names(n):
    return {m.id for m in ast.walk(n) if isinstance(m, ast.Name)}


def stored(n):
    return {m.id for m in ast.walk(n) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)}


def ordered_use(node, ps):
    """True: the order of the set can reach a result; False: it cannot; None:
    not decided."""
    p = ps.get(id(node))
    if isinstance(p, ast.Call):
        if node is p.func:
            return False
        c = callee(p)
        if c in INSENSITIVE:
            if c in ("sorted", "min", "max") and any(k.arg == "key" for k in p.keywords):
                k = next(k.value for k in p.keywords if k.arg == "key")
                return True if isinstance(k, ast.Name) and k.id == "len" else None
            return False
        if c in SENSITIVE:
            if isinstance(p.func, ast.Name) and c in ("list", "tuple", "iter", "chain", "map", "filter", "reversed"):
                return ordered_value(p, ps)
            return True
        return None  # passed on; uses of the parameter are recorded themselves
    if isinstance(p, ast.Starred):
        return True
    if isinstance(p, ast.Attribute):
        g = ps.get(id(p))
        return p.attr == "pop" and isinstance(g, ast.Call) and g.func is p
    if isinstance(p, ast.comprehension) and p.iter is node:
        return ordered_value(ps[id(p)], ps)
    if isinstance(p, (ast.For, ast.AsyncFor)) and p.iter is node:
        return ordered_loop(p, ps)
    if isinstance(p, ast.Assign) and isinstance(p.targets[0], (ast.Tuple, ast.List)) and p.value is node:
        return True
    if isinstance(p, ast.YieldFrom):
        return True
    if isinstance(p, ast.FormattedValue):
        return True
    return False


def ordered_value(n, ps):
    """The value of the expression is in the order of a set."""
    if isinstance(n, ast.SetComp):
        return False
    p = ps.get(id(n))
    if isinstance(p, ast.Call) and n is not p.func:
        c = callee(p)
        if c in INSENSITIVE:
            return ordered_use(n, ps)
        return True
    if isinstance(p, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops):
        return False
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
        return None
    return True


def ordered_loop(loop, ps):
    inner = names(loop.target) | stored(ast.Module(loop.body, []))
    f = loop
    while not isinstance(f, (ast.FunctionDef, ast.Lambda, ast.Module)):
        f = ps[id(f)]
    inside = set(map(id, ast.walk(loop)))
    used_outside = {m.id for m in ast.walk(f) if isinstance(m, ast.Name) and id(m) not in inside}
    r = False
    for n in ast.walk(ast.Module(loop.body, [])):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, ast.Call) and callee(n) in ("append", "extend", "insert", "write", "appendleft"):
            return True
        if isinstance(n, ast.Return) and n.value is not None and names(n.value) & inner:
            return True
        if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and any(isinstance(m, (ast.List, ast.Tuple, ast.JoinedStr)) or isinstance(m, ast.Constant) and isinstance(m.value, (str, bytes)) for m in ast.walk(n.value)):
            return True
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Subscript):
                    base = names(t.value)
                    if n.value is not None and (base & names(n.value) and any(isinstance(m, ast.Call) and callee(m) == "len" for m in ast.walk(n.value))):
                        return True
                    if n.value is not None and names(n.value) & (inner - names(loop.target)):
                        r = None
                elif isinstance(t, ast.Name) and t.id in used_outside and n.value is not None and names(n.value) & names(loop.target):
                    return True
    return r


def judge(ctx, r):
    ctx.good("reproducible", r.name, len(r.results))
    for e, st, path in r.events.values():
        if e[0] == "ext" and impure(e[1]) or e[0] == "impure" and impure(e[1]):
            w = e[-1]
            if "__hash__" in w:
                continue
            ctx.violation("reproducible", f"{e[1]} {w.split(' in ')[-1]}", f"{r.name} uses {e[1]}, which differs between processes", "src/" + w, path)
        elif e[0] == "mut" and e[3] == "set.pop" :
            ctx.violation("reproducible", f"pop {e[4]}", f"{r.name} takes an arbitrary element out of a set", "src/" + e[4], path)
    for node, mod, fn, path in r.sets.values():
        ps = parents(r.it.trees[mod])
        u = ordered_use(node, ps)
        w = f"src/{mod.replace('.', '/')}.py:{node.lineno} in {fn}"
        if u:
            ctx.violation("order", f"set in {fn}: {ast.unparse(node)[:60]}", f"{r.name}: the order of the set {ast.unparse(node)[:60]}, which differs between processes, reaches a result", w, path)
        elif u is None:
            ctx.undecided("order", f"set in {fn}: {ast.unparse(node)[:60]}", "the order of a set may reach a result")
        else:
            ctx.good("order", f"set in {fn}: {ast.unparse(node)[:60]}")


def check(ctx):
    it = ctx.interp()
    for e in it.init.events():
        if e[0] in ("ext", "impure") and impure(e[1]):
            ctx.violation("import", e[1], f"importing the package uses {e[1]}, which differs between processes", "src/" + e[-1])
    ctx.good("import", "import of the package", len(it.mods))
    Run.watch_sets = True
    effects.run(ctx, judge, "reproducible")
