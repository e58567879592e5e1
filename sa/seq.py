"""The sequence domain: normalization, slicing and element access of
concatenations of slices of opaque bases."""
from .num import Atom, Lin, ZERO, ONE
from .values import (
    Base, C, Cat, I, IB, JL, Lit, One, S, Sl, U, V, Ref, NOLAB,
    derived, labels_of, part_len, parts_len,
)

EMPTY = {"str": "", "bytes": b"", "tuple": (), "list": []}


def lit(v):
    return S("str" if isinstance(v, str) else "bytes", (Lit(v),) if v else ())


def as_seq(v):
    """View a value as a sequence S if it is one (not through the heap)."""
    if isinstance(v, S):
        return v
    if isinstance(v, C) and isinstance(v.v, (str, bytes)):
        return lit(v.v)
    if isinstance(v, C) and isinstance(v.v, tuple):
        return S("tuple", [One(cval(x)) for x in v.v])
    return None


def cval(x):
    if isinstance(x, bool) or x is None or isinstance(x, (str, bytes, float)):
        return C(x)
    if isinstance(x, int):
        return I(x)
    if isinstance(x, tuple):
        return S("tuple", [One(cval(y)) for y in x])
    return C(x)


def simp(s):
    """S with only literal text -> constant."""
    if isinstance(s, S) and s.kind in ("str", "bytes"):
        if not s.parts:
            return C(EMPTY[s.kind])
        if len(s.parts) == 1 and isinstance(s.parts[0], Lit):
            return C(s.parts[0].v)
    return s


def slen(s):
    return parts_len(s.parts)


def split_info(base):
    """(source, separator, index) if base is a line of a split text."""
    if base.op == "line":
        return base.args
    return None


def norm_parts(num, parts):
    out = []
    for p in parts:
        if isinstance(p, Lit):
            if not p.v:
                continue
        elif isinstance(p, (Sl, JL, Cat)):
            lo, hi = num.norm(p.lo), num.norm(p.hi)
            if lo == hi or num.is0(hi - lo) is True:
                continue
            p = type(p)(p.base, lo, hi)
            # text of all pieces of a split element list etc.
        elif isinstance(p, IB):
            lin = num.norm(p.lin)
            if lin.const and 0 <= lin.c < 256 ** p.n:
                p = Lit(lin.c.to_bytes(p.n, "big"))
            else:
                p = IB(lin, p.n)
        out.append(p)
        while len(out) > 1:
            q = _merge(num, out[-2], out[-1])
            if q is None:
                break
            out[-2:] = q
            if len(out) >= 1 and isinstance(out[-1], (Sl, JL)) and num.is0(out[-1].hi - out[-1].lo) is True:
                out.pop()
                break
    # a text that was split and is completely put together again
    return tuple(_rejoin(num, out))


def _whole(num, p):
    return num.is0(p.lo) is True and num.is0(p.hi - p.base.len) is True


def as_slice(p):
    """A single element taken out of an opaque tuple, as a slice of it."""
    if isinstance(p, Sl):
        return p if p.base.kind in ("tuple", "list") and p.base.elem == "tok" else None
    if isinstance(p, One) and isinstance(p.v, U) and p.v.op == "at":
        b, i = p.v.args
        if b.kind in ("tuple", "list") and b.elem == "tok":
            return Sl(b, i.lin, i.lin + 1)
    return None


def _merge(num, a, b):
    if isinstance(a, Lit) and isinstance(b, Lit):
        # the separator after a line stays separate from what follows
        return [Lit(a.v + b.v)]
    if type(a) is type(b) and isinstance(a, (Sl, JL, Cat)) and a.base is b.base:
        if num.is0(b.lo - a.hi) is True:
            return [type(a)(a.base, a.lo, b.hi)]
    if isinstance(b, One):
        c = as_slice(b)
        if c is not None:
            d = as_slice(a)
            if d is not None and d.base is c.base and num.is0(c.lo - d.hi) is True:
                return [Sl(d.base, d.lo, c.hi)]
    elif isinstance(a, One) and isinstance(b, Sl):
        d = as_slice(a)
        if d is not None and d.base is b.base and num.is0(b.lo - d.hi) is True:
            return [Sl(d.base, d.lo, b.hi)]
    if isinstance(a, Sl) and a.base.op == "line" and isinstance(b, Lit) and _whole(num, a):
        src, i = a.base.args
        sep = src.meta
        if sep and b.v[: len(sep)] == sep:
            rest = b.v[len(sep):]
            j = JL(src, i.lin, i.lin + 1)
            return [j, Lit(rest)] if rest else [j]
    if isinstance(a, JL) and isinstance(b, JL) and a.base is b.base:
        if num.is0(b.lo - a.hi) is True:
            return [JL(a.base, a.lo, b.hi)]
    if isinstance(a, JL) and isinstance(b, Sl) and b.base.op == "line" and _whole(num, b):
        src, i = b.base.args
        # everything up to and including the last line is the text from there
        if src is a.base and num.is0(i.lin - a.hi) is True and num.is0(a.hi + 1 - src.len) is True:
            if num.is0(a.lo) is True:
                return list(src.args[0].parts)
    return None


def _rejoin(num, out):
    res = []
    for p in out:
        # a single line that is the only one: the text itself
        if isinstance(p, Sl) and p.base.op == "line" and _whole(num, p):
            src, i = p.base.args
            if num.is0(src.len - 1) is True and num.is0(i.lin) is True:
                res.extend(src.args[0].parts)
                continue
        res.append(p)
    return res


def normalize(num, s):
    return S(s.kind, norm_parts(num, s.parts))


def concat(num, a, b):
    return S(a.kind, norm_parts(num, a.parts + b.parts))


def same_parts(num, a, b):
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        if p == q:
            continue
        if type(p) is not type(q):
            return False
        if isinstance(p, (Sl, JL, Cat)):
            if p.base is not q.base or num.is0(p.lo - q.lo) is not True or num.is0(p.hi - q.hi) is not True:
                return False
        elif isinstance(p, IB):
            if p.n != q.n or num.is0(p.lin - q.lin) is not True:
                return False
        elif isinstance(p, One):
            if isinstance(p.v, I) and isinstance(q.v, I):
                if num.is0(p.v.lin - q.v.lin) is not True:
                    return False
            elif isinstance(p.v, S) and isinstance(q.v, S):
                if not same(num, p.v, q.v):
                    return False
            else:
                return False
        else:
            return False
    return True


def same(num, a, b):
    """Definitely equal."""
    return a.kind == b.kind and same_parts(num, norm_parts(num, a.parts), norm_parts(num, b.parts))


def expand_ib(st, p, k, interp):
    """Split an IB after k bytes."""
    q, r = interp.divmod(st, p.lin, 256 ** (p.n - k))
    return IB(q, k), IB(r, p.n - k)


def part_split(st, p, pos, interp):
    """Split a part at pos (0 < pos < len)."""
    if isinstance(p, Sl):
        return Sl(p.base, p.lo, p.lo + pos), Sl(p.base, p.lo + pos, p.hi)
    if isinstance(p, Lit) and pos.const:
        return Lit(p.v[: pos.c]), Lit(p.v[pos.c:])
    if isinstance(p, IB) and pos.const:
        return expand_ib(st, p, pos.c, interp)
    kind = "bytes" if isinstance(p, IB) or (isinstance(p, Lit) and isinstance(p.v, bytes)) else "str"
    if isinstance(p, (JL, Cat)) and p.base.meta is not None:
        kind = "bytes" if isinstance(p.base.meta, bytes) else "str"
    b = derived("text", (p,), kind, labels_of(p), part_len(p))
    return Sl(b, ZERO, pos), Sl(b, pos, b.len)


def split_at(st, parts, pos, interp):
    """-> list of (state, left parts, right parts); 0 <= pos <= len."""
    left = []
    parts = list(parts)
    i = 0
    num = st.num
    pos = num.norm(pos)
    res = []
    while i < len(parts):
        if num.is0(pos) is True:
            break
        p = parts[i]
        L = part_len(p)
        s = num.sign(pos - L)
        if s is None:
            alt = st.copy()
            if alt.assume_ge0(L - 1 - pos):
                res += _finish_split(alt, left, parts[i:], pos, interp)
            if not st.assume_ge0(pos - L):
                return res
            num = st.num
            s = True
        if s:
            left.append(p)
            pos = num.norm(pos - L)
            i += 1
        else:
            return res + _finish_split(st, left, parts[i:], pos, interp)
    return res + [(st, tuple(left), tuple(parts[i:]))]


def _finish_split(st, left, parts, pos, interp):
    p = parts[0]
    z = st.num.is0(pos)
    res = []
    if z is None and isinstance(p, Sl) and p.base.meta == "plain":
        pass  # the piece before may be empty
    elif z is None:
        alt = st.copy()
        if alt.assume_eq0(pos):
            res.append((alt, tuple(left), tuple(parts)))
        if not st.assume_ge0(pos - 1):
            return res
    elif z:
        return [(st, tuple(left), tuple(parts))]
    a, b = part_split(st, p, pos, interp)
    res.append((st, tuple(left) + (a,), (b,) + tuple(parts[1:])))
    return res


def clamp(st, lin, n):
    """Python's slice bound normalization -> list of (state, Lin)."""
    out = []
    sgn = st.num.sign(lin)
    states = []
    if sgn is None:
        alt = st.copy()
        if alt.assume_ge0(Lin(-1) - lin):
            states.append((alt, True))
        if st.assume_ge0(lin):
            states.append((st, False))
    else:
        states.append((st, not sgn))
    for s, neg in states:
        if neg:
            x = lin + n
            z = s.num.sign(x)
            if z is None:
                alt = s.copy()
                if alt.assume_ge0(Lin(-1) - x):
                    out.append((alt, ZERO))
                if s.assume_ge0(x):
                    out.append((s, x))
            else:
                out.append((s, x if z else ZERO))
        else:
            z = s.num.sign(n - lin)
            if z is None:
                alt = s.copy()
                if alt.assume_ge0(lin - n - 1):
                    out.append((alt, n))
                if s.assume_ge0(n - lin):
                    out.append((s, lin))
            else:
                out.append((s, lin if z else n))
    return out


def slice_seq(st, s, lo, hi, interp):
    """s[lo:hi] with Lin or None bounds -> list of (state, S)."""
    n = slen(s)
    res = []
    los = [(st, ZERO)] if lo is None else clamp(st, lo, n)
    for s1, a in los:
        his = [(s1, n)] if hi is None else clamp(s1, hi, n)
        for s2, b in his:
            z = s2.num.sign(b - a)
            if z is None:
                alt = s2.copy()
                if alt.assume_ge0(a - b - 1):
                    res.append((alt, S(s.kind, ())))
                if not s2.assume_ge0(b - a):
                    continue
            elif z is False:
                res.append((s2, S(s.kind, ())))
                continue
            for s3, l, _ in split_at(s2, s.parts, b, interp):
                for s4, _, r in split_at(s3, l, a, interp):
                    res.append((s4, S(s.kind, norm_parts(s4.num, r))))
    return res
