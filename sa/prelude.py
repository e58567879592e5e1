"""Functions of the standard library in terms of what is interpreted.

This text is read by the analysis like the package's own modules; it is not
executed.  LIB names what stands for what."""

SOURCE = '''
def cycle(iterable):
    saved = list(iterable)
    while saved:
        for element in saved:
            yield element

def count(start=0, step=1):
    n = start
    while True:
        yield n
        n += step

def forever(value):
    while True:
        yield value

def takewhile(predicate, iterable):
    for x in iterable:
        if not predicate(x):
            break
        yield x

def dropwhile(predicate, iterable):
    dropping = True
    for x in iterable:
        if dropping and predicate(x):
            continue
        dropping = False
        yield x

def filterfalse(predicate, iterable):
    for x in iterable:
        if not (x if predicate is None else predicate(x)):
            yield x

def starmap(function, iterable):
    for args in iterable:
        yield function(*args)

def compress(data, selectors):
    for d, s in zip(data, selectors):
        if s:
            yield d

def accumulate(iterable, func=None, *, initial=None):
    total = initial
    empty = initial is None
    if not empty:
        yield total
    for element in iterable:
        if empty:
            total = element
            empty = False
        elif func is None:
            total = total + element
        else:
            total = func(total, element)
        yield total

def pairwise(iterable):
    first = True
    a = None
    for b in iterable:
        if not first:
            yield (a, b)
        first = False
        a = b

def islice_to(iterable, stop):
    if stop > 0:
        n = 0
        for element in iterable:
            yield element
            n += 1
            if n >= stop:
                break

def islice_from(iterable, start, stop):
    n = 0
    if stop is None or stop > 0:
        for element in iterable:
            if n >= start and (stop is None or n < stop):
                yield element
            n += 1
            if stop is not None and n >= stop:
                break

def islice(iterable, *args):
    if len(args) == 1:
        if args[0] is None:
            return iter(iterable)
        return islice_to(iterable, args[0])
    return islice_from(iterable, args[0] or 0, args[1])

def groupby(iterable, key=None):
    group = []
    current = None
    for x in iterable:
        k = x if key is None else key(x)
        if group and k != current:
            yield (current, group)
            group = []
        group.append(x)
        current = k
    if group:
        yield (current, group)

def zip_longest(a, b, fillvalue=None):
    a = list(a)
    b = list(b)
    for i in range(max(len(a), len(b))):
        yield (a[i] if i < len(a) else fillvalue, b[i] if i < len(b) else fillvalue)

def product(first, second):
    second = list(second)
    for a in first:
        for b in second:
            yield (a, b)

def reduce(function, iterable, *initial):
    empty = not initial
    value = initial[0] if initial else None
    for element in iterable:
        if empty:
            value = element
            empty = False
        else:
            value = function(value, element)
    if empty:
        raise TypeError("reduce() of empty iterable with no initial value")
    return value

def map2(function, a, b):
    for x, y in zip(a, b):
        yield function(x, y)

def map3(function, a, b, c):
    for x, y, z in zip(a, b, c):
        yield function(x, y, z)

def add(a, b): return a + b
def sub(a, b): return a - b
def mul(a, b): return a * b
def floordiv(a, b): return a // b
def mod(a, b): return a % b
def eq(a, b): return a == b
def ne(a, b): return a != b
def lt(a, b): return a < b
def le(a, b): return a <= b
def gt(a, b): return a > b
def ge(a, b): return a >= b
def is_(a, b): return a is b
def is_not(a, b): return a is not b
def not_(a): return not a
def truth(a): return bool(a)
def contains(a, b): return b in a
def getitem(a, b): return a[b]
def neg(a): return -a
'''

NAME = "%lib"

LIB = {f"itertools.{n}": n for n in ("cycle", "count", "takewhile", "dropwhile", "filterfalse", "starmap", "compress", "accumulate", "pairwise", "islice", "groupby", "zip_longest", "product")}
LIB |= {f"operator.{n}": n for n in ("add", "sub", "mul", "floordiv", "mod", "eq", "ne", "lt", "le", "gt", "ge", "is_", "is_not", "not_", "truth", "contains", "getitem", "neg")}
LIB |= {"operator.concat": "add", "functools.reduce": "reduce"}

# what is not modelled of these leaves nothing certain
OPAQUE = ("itertools.", "functools.", "collections.", "operator.", "bisect.", "heapq.", "math.", "contextlib.")
