"""Abstract values, sequence parts and the abstract state."""
from .num import Atom, Lin, Num, ZERO, ONE

NOLAB = frozenset()


class V:
    __slots__ = ("_k", "_h")

    def _init(self, *k):
        self._k = k
        self._h = hash((type(self).__name__,) + k)

    def __eq__(self, o):
        return self is o or (
            type(self) is type(o) and self._h == o._h and self._k == o._k
        )

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h


class C(V):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v
        self._init(type(v).__name__, v)

    def __repr__(self):
        return repr(self.v)


class I(V):
    __slots__ = ("lin",)

    def __init__(self, lin):
        self.lin = Lin.of(lin)
        self._init(self.lin)

    def __repr__(self):
        return repr(self.lin)


class U(V):
    """An opaque pure term."""

    __slots__ = ("op", "args", "ty", "labels")

    def __init__(self, op, args=(), ty=None, labels=NOLAB):
        self.op, self.args, self.ty = op, tuple(args), ty
        self.labels = frozenset(labels)
        self._init(op, self.args, ty, self.labels)

    def __repr__(self):
        a = ", ".join(map(repr, self.args))
        return f"{self.op}({a})" if self.args else str(self.op)


class S(V):
    """A sequence: kind is 'str', 'bytes', 'tuple' or 'list' (the latter only
    inside list objects)."""

    __slots__ = ("kind", "parts")

    def __init__(self, kind, parts=()):
        self.kind, self.parts = kind, tuple(parts)
        self._init(kind, self.parts)

    def __repr__(self):
        return f"{self.kind}<" + "+".join(map(repr, self.parts)) + ">"


class SL(V):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step
        self._init(lo, hi, step)

    def __repr__(self):
        return f"slice({self.lo!r},{self.hi!r})"


class Ref(V):
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id
        self._init(id)

    def __repr__(self):
        return f"@{self.id}"


class Rec(V):
    """Template of an instance (element of a container of unknown length)."""

    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, tuple(fields)
        self._init(cls, self.fields)

    def __repr__(self):
        return f"{self.cls.name}(" + ", ".join(f"{k}={v!r}" for k, v in self.fields) + ")"


class Fn(V):
    __slots__ = ("node", "name", "mod", "env", "defaults", "kwdefaults", "cls", "gen", "flags", "qual")

    def __init__(self, node, name, mod, env, defaults, kwdefaults, gen, qual, flags=()):
        self.node, self.name, self.mod, self.env = node, name, mod, env
        self.defaults, self.kwdefaults = tuple(defaults), tuple(kwdefaults)
        self.gen, self.qual, self.flags = gen, qual, frozenset(flags)
        self.cls = None
        self._init(id(node), env, self.defaults, self.kwdefaults, self.flags)

    def __repr__(self):
        return f"<fn {self.mod}.{self.qual}>"


class Bound(V):
    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_
        self._init(fn, self_)

    def __repr__(self):
        return f"<bound {self.fn!r} of {self.self!r}>"


class Bi(V):
    """Builtin function or type."""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name
        self._init(name)

    def __repr__(self):
        return f"<builtin {self.name}>"


class Ext(V):
    """Something defined outside the package, by dotted path."""

    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path
        self._init(path)

    def __repr__(self):
        return f"<ext {self.path}>"


class Meth(V):
    """Method of a builtin object, bound."""

    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name
        self._init(obj, name)

    def __repr__(self):
        return f"<method {self.name} of {self.obj!r}>"


class Mod(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name
        self._init(name)

    def __repr__(self):
        return f"<module {self.name}>"


class UnionT(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)
        self._init(self.items)


class Py(V):
    """A callable implemented by the analysis: f(interp, st, args, kw, fr) ->
    list of (state, value)."""

    __slots__ = ("name", "f", "data")

    def __init__(self, name, f, data=()):
        self.name, self.f, self.data = name, f, data
        self._init(name, id(f), data)

    def __repr__(self):
        return f"<py {self.name}>"


class Cls(V):
    __slots__ = ("name", "bases", "mod", "env", "node", "fields", "nt", "dc", "qual", "slots")

    def __init__(self, name, bases, mod, env, node, qual):
        self.name, self.bases, self.mod, self.env, self.node = name, tuple(bases), mod, env, node
        self.fields = None  # dataclass/namedtuple: list of (name, default or None, kind)
        self.nt = False
        self.dc = None  # dict of dataclass options
        self.qual = qual
        self._init(id(self))

    def __repr__(self):
        return f"<class {self.name}>"


class Raise:
    """An exception (or, with sig, the unwinding of a generator) as a result."""

    __slots__ = ("exc", "sig", "node", "fn")

    def __init__(self, exc, node=None, sig=None, fn=None):
        self.exc, self.node, self.sig, self.fn = exc, node, sig, fn

    def __repr__(self):
        return f"Raise({self.exc!r}@{getattr(self.node, 'lineno', '?')})"


# ---------------------------------------------------------------- parts


class Base:
    """An opaque sequence; elem says what its elements are:
    'char', 'byte', 'tok' (opaque tokens), 'tmpl' (templates) or a function
    (st, index) -> value."""

    __slots__ = ("op", "args", "kind", "labels", "len", "elem", "tmpl", "name", "meta", "_h")

    def __init__(self, name, kind, labels=NOLAB, length=None, elem=None, tmpl=(), op=None, args=(), meta=None):
        self.name, self.kind, self.labels = name, kind, frozenset(labels)
        self.len = length if length is not None else Lin.of(Atom(f"len({name})", 0))
        self.elem = elem or {"str": "char", "bytes": "byte"}.get(kind, "tok")
        self.tmpl = tuple(tmpl)
        self.op, self.args, self.meta = op, args, meta

    def whole(self):
        return Sl(self, ZERO, self.len)

    def seq(self, kind=None):
        return S(kind or self.kind, (self.whole(),))

    def __repr__(self):
        return self.name


class Part(V):
    pass


class Lit(Part):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v
        self._init(v)

    def __repr__(self):
        return repr(self.v)


class One(Part):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v
        self._init(v)

    def __repr__(self):
        return f"[{self.v!r}]"


class Sl(Part):
    __slots__ = ("base", "lo", "hi")

    def __init__(self, base, lo, hi):
        self.base, self.lo, self.hi = base, lo, hi
        self._init(base, lo, hi)

    def __repr__(self):
        return f"{self.base!r}[{self.lo!r}:{self.hi!r}]"


class IB(Part):
    """n-byte big-endian encoding of an integer in range."""

    __slots__ = ("lin", "n")

    def __init__(self, lin, n):
        self.lin, self.n = lin, n
        self._init(lin, n)

    def __repr__(self):
        return f"int{self.n}({self.lin!r})"


class JL(Part):
    """Lines lo..hi of a split text, each followed by the separator."""

    __slots__ = ("base", "lo", "hi")

    def __init__(self, base, lo, hi):
        self.base, self.lo, self.hi = base, lo, hi
        self._init(base, lo, hi)

    def __repr__(self):
        return f"lines({self.base!r}[{self.lo!r}:{self.hi!r}])"


class Cat(Part):
    """Concatenation of all elements of a container slice, i.e. join(S)."""

    __slots__ = ("base", "lo", "hi")

    def __init__(self, base, lo, hi):
        self.base, self.lo, self.hi = base, lo, hi
        self._init(base, lo, hi)

    def __repr__(self):
        return f"cat({self.base!r}[{self.lo!r}:{self.hi!r}])"


_lenatoms = {}


def part_len(p):
    if isinstance(p, Lit):
        return Lin(len(p.v))
    if isinstance(p, One):
        return ONE
    if isinstance(p, Sl):
        return p.hi - p.lo
    if isinstance(p, IB):
        return Lin(p.n)
    r = _lenatoms.get(p)
    if r is None:
        r = _lenatoms[p] = Lin.of(Atom(f"len({p!r})", 0))
    return r


def parts_len(parts):
    r = ZERO
    for p in parts:
        r = r + part_len(p)
    return r


_bases = {}


def derived(op, args, kind, labels=NOLAB, length=None, elem=None, tmpl=(), name=None):
    """Interned base: the same operation on the same arguments is the same
    sequence."""
    key = (op, args, kind, length)
    b = _bases.get(key)
    if b is None:
        b = Base(name or f"{op}({', '.join(map(repr, args))})", kind, labels, length, elem, tmpl, op, args)
        _bases[key] = b
    return b


def labels_of(v, st=None, seen=None):
    """Taint labels of a value (through the heap if st is given)."""
    if isinstance(v, U):
        r = set(v.labels)
        for a in v.args:
            if isinstance(a, (V, Base)):
                r |= labels_of(a, st, seen)
        return r
    if isinstance(v, Base):
        r = set(v.labels)
        for t in v.tmpl:
            r |= labels_of(t[0] if isinstance(t, tuple) else t, st, seen)
        for a in v.args:
            if isinstance(a, (V, Base)):
                r |= labels_of(a, st, seen)
        return r
    if isinstance(v, S):
        r = set()
        for p in v.parts:
            r |= labels_of(p, st, seen)
        return r
    if isinstance(v, One):
        return labels_of(v.v, st, seen)
    if isinstance(v, (Sl, JL, Cat)):
        return labels_of(v.base, st, seen)
    if isinstance(v, Rec):
        r = set()
        for _, x in v.fields:
            r |= labels_of(x, st, seen)
        return r
    if isinstance(v, SL):
        return labels_of(v.lo, st, seen) | labels_of(v.hi, st, seen)
    if isinstance(v, Ref) and st is not None:
        seen = seen if seen is not None else set()
        if v.id in seen:
            return set()
        seen.add(v.id)
        o = st.obj(v)
        r = set(o.labels)
        for x in o.f.values():
            if isinstance(x, V):
                r |= labels_of(x, st, seen)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, V):
                        r |= labels_of(y, st, seen)
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, V):
                                r |= labels_of(z, st, seen)
        return r
    return set()


# ---------------------------------------------------------------- state


_keys = {}


class Obj:
    __slots__ = ("kind", "cls", "f", "owner", "labels", "site", "_k")

    def __init__(self, kind, cls=None, f=None, owner="local", labels=NOLAB, site=None):
        self._k = None
        self.kind, self.cls, self.f = kind, cls, f if f is not None else {}
        self.owner, self.labels, self.site = owner, frozenset(labels), site

    def set(self, **kw):
        f = dict(self.f)
        f.update(kw)
        return Obj(self.kind, self.cls, f, self.owner, self.labels, self.site)

    def key(self):
        """A number that is the same for equal contents."""
        if self._k is None:
            k = (self.kind, self.cls, frozenset(self.f.items()))
            self._k = _keys.setdefault(k, len(_keys) + 1)
        return self._k

    def put(self, k, v):
        f = dict(self.f)
        f[k] = v
        return Obj(self.kind, self.cls, f, self.owner, self.labels, self.site)

    def __repr__(self):
        return f"{self.kind}{':' + self.cls.name if self.cls else ''}{self.f!r}"


_ids = [0]


class State:
    __slots__ = ("heap", "num", "facts", "trace", "imp", "base")

    def __init__(self, base=None):
        self.base = base if base is not None else {}
        self.heap = {}
        self.num = Num()
        self.facts = {}
        self.trace = None
        self.imp = NOLAB

    def copy(self):
        s = State.__new__(State)
        s.base, s.heap, s.num = self.base, dict(self.heap), self.num
        s.facts, s.trace, s.imp = dict(self.facts), self.trace, self.imp
        return s

    def obj(self, r):
        id = r.id if isinstance(r, Ref) else r
        o = self.heap.get(id)
        return o if o is not None else self.base[id]

    def put(self, r, o):
        self.heap[r.id if isinstance(r, Ref) else r] = o

    def alloc(self, o):
        _ids[0] += 1
        self.heap[_ids[0]] = o
        return Ref(_ids[0])

    sink = None

    def event(self, *e):
        self.trace = (self.trace, e)
        if State.sink is not None:
            State.sink(self, e)

    def events(self, since=None):
        r = []
        t = self.trace
        while t is not None and t is not since:
            r.append(t[1])
            t = t[0]
        r.reverse()
        return r

    def vague(self, why):
        if why not in self.imp:
            self.imp = self.imp | {why}

    # numeric refinement; these return False if the state becomes empty
    def assume_ge0(self, lin):
        n = self.num.add_ge0(lin)
        if n is None:
            return False
        self.num = n
        return True

    def assume_eq0(self, lin):
        n = self.num.add_eq0(lin)
        if n is None:
            return False
        self.num = n
        return True

    def assume_ne0(self, lin):
        n = self.num.add_ne0(lin)
        if n is None:
            return False
        self.num = n
        return True
