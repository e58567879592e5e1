"""Properties of constant regular expressions, read off their syntax."""
import re

try:
    from re import _parser as sre, _constants as K
except ImportError:  # pragma: no cover
    import sre_parse as sre
    import sre_constants as K

from .values import C, I, U, Ext

_cache = {}


def pattern(rx):
    """(pattern, flags) of a regular expression value, or None."""
    if not (isinstance(rx, U) and rx.op == "regex" and rx.args):
        return None
    from .lib_text import const_arg

    p = const_arg(rx.args[0])
    if p is None or not isinstance(p[0], (str, bytes)):
        return None
    flags = 0
    for f in rx.args[1:]:
        n = flag(f)
        if n is None:
            return None
        flags |= n
    return p[0], flags


def flag(f):
    if isinstance(f, I) and f.lin.const:
        return f.lin.c
    if isinstance(f, Ext) and f.path.startswith("re."):
        v = getattr(re, f.path.split(".")[-1], None)
        return int(v) if isinstance(v, int) else None
    if isinstance(f, U) and f.op == "op|":
        a, b = (flag(x) for x in f.args)
        return None if a is None or b is None else a | b
    return None


def context_free(items):
    """No assertions and no references to groups."""
    for op, av in items:
        if op in (K.ASSERT, K.ASSERT_NOT, K.AT, K.GROUPREF, K.GROUPREF_EXISTS) or str(op) in ("ATOMIC_GROUP", "POSSESSIVE_REPEAT"):
            return False
        if op is K.BRANCH:
            if not all(context_free(x) for x in av[1]):
                return False
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            if not context_free(av[2]):
                return False
        elif op is K.SUBPATTERN:
            if not context_free(av[3]):
                return False
    return True


def total(p, flags=0):
    """Is every text the concatenation of the (non-empty) matches?
    -> True, (False, character that is not matched) or None."""
    key = (p, flags)
    if key not in _cache:
        _cache[key] = _total(p, flags)
    return _cache[key]


def _total(p, flags):
    try:
        tree = sre.parse(p, flags)
        rx = re.compile(p, flags)
    except Exception:
        return None
    empty = tree.getwidth()[0] < 1
    for n in range(256 if isinstance(p, bytes) else 0x110000):
        if 0xD800 <= n < 0xE000:
            continue
        c = bytes([n]) if isinstance(p, bytes) else chr(n)
        m = rx.match(c)
        if m is None or not m[0]:
            # nothing of this one-character text is found
            return False, c
    if empty or not context_free(tree):
        return None
    return True
