"""C24: one tokenizer never mixes text and bytes."""
from .tokenizing import *

EXPLAIN = (
    "Abstract interpretation of every tokenizer class: a text of one kind is encoded and then one of the other kind, for all four combinations of empty and non-empty opaque "
    "texts. Every path of the second call must raise and leave the whole reachable state of the tokenizer as it was; afterwards texts of the first kind must still be "
    "accepted and those of the other kind still refused. Decoding (of the whole, of nothing and of single numbers) must give the kind that was encoded."
)


def check(ctx):
    it = ctx.interp()
    jobs = []
    for n, _ in tokenizers(ctx, it):
        for kind in ("str", "bytes"):
            jobs.append(("kinds", one, n, kind))
    ctx.parallel(jobs)


def snapshot(st, v, seen=None, depth=0):
    """Everything reachable from a value, independent of addresses."""
    seen = {} if seen is None else seen
    if isinstance(v, Ref):
        if v.id in seen:
            return ("same", seen[v.id])
        seen[v.id] = len(seen)
        o = st.obj(v)
        if o.kind not in ("inst", "dict", "list", "set"):
            return (o.kind, v.id)
        r = []
        for k, x in sorted(o.f.items(), key=lambda e: str(e[0])):
            r.append((k, snapshot(st, x, seen, depth + 1)))
        return (o.kind, tuple(r))
    if isinstance(v, S):
        return ("seq", v.kind, tuple(snapshot(st, p.v, seen) if isinstance(p, One) else p for p in v.parts))
    if isinstance(v, tuple):
        return tuple(snapshot(st, x, seen) for x in v)
    return v


def one(ctx, name, kind):
    it = interp(ctx)
    fr = top_frame(it)
    cls = dict(tokenizers(ctx, it))[name]
    where = where_fn(it.lookup(it.init, cls, "encode"))
    other = "bytes" if kind == "str" else "str"

    def bad(st, rule, msg):
        if exact(st):
            ctx.violation(rule, f"{name}:{kind}", f"{name}: {msg}", where, path_of(st))
        else:
            ctx.undecided(rule, f"{name}:{kind}", msg)

    def any_text(k, what, n):
        if what == "empty":
            return S(k, ())
        a, b = word(n + "1", k, 1), word(n + "2", k, 1)
        ws = [a, b]
        return text(k, a, EOLS[k][0], b)

    def refused(st, o, t, what):
        """-> states after the refusal"""
        before = snapshot(st, o)
        out = []
        for s, r in method(it, st.copy(), o, "encode", [simp(t)], fr):
            if not isinstance(r, Raise):
                bad(s, "refuse", f"{t.kind} is accepted {what}")
                continue
            if snapshot(s, o) != before:
                bad(s, "unchanged", f"refusing {t.kind} {what} changes the tokenizer")
                continue
            ctx.good("refuse", f"{name} {t.kind} {what}")
            out.append(s)
        return out

    for w1 in ("text", "empty"):
        for w2 in ("text", "empty"):
            st = it.start()
            ws = {}
            for n in ("a", "b", "c"):
                ws[n] = any_text(kind, w1 if n == "a" else "text", n)
            allw = [p.base for n in ws for p in ws[n].parts if isinstance(p, Sl)]
            distinct(st, *allw)
            x = any_text(other, w2, "x")
            distinct(st, *[p.base for p in x.parts if isinstance(p, Sl)])
            st, o = make(it, st, cls, fr)
            desc = f"({w2}) after {kind} ({w1})"
            for s, v in method(it, st, o, "encode", [simp(ws["a"])], fr):
                if isinstance(v, Raise):
                    bad(s, "accept", f"{kind} ({w1}) is refused by a new tokenizer ({it.exc_name(s, v)})")
                    continue
                decoded_kind(ctx, it, fr, s, o, v, name, kind, where, bad)
                for y in refused(s, o, x, desc):
                    decoded_kind(ctx, it, fr, y, o, v, name, kind, where, bad)
                    for z, r in method(it, y, o, "encode", [simp(ws["b"])], fr):
                        if isinstance(r, Raise):
                            bad(z, "accept", f"{kind} is refused after {kind} ({w1}), and {other} that was refused ({it.exc_name(z, r)})")
                            continue
                        ctx.good("accept", f"{name} {kind}")
                        decoded_kind(ctx, it, fr, z, o, r, name, kind, where, bad)
                        for u in refused(z, o, x, f"({w2}) after two texts of kind {kind}"):
                            pass
    ctx.absorb(it)


def decoded_kind(ctx, it, fr, st, o, v, name, kind, where, bad):
    xs = [("what was encoded", v), ("no tokens", S("tuple", ()))]
    q = M.seqv(it, st, v)
    if q is not None and q.kind in ("str", "bytes"):
        xs[1] = ("no tokens", S(q.kind, ()))
    ex = M.explicit(q) if q is not None and q.kind == "tuple" else None
    if ex:
        xs.append(("a single token", S("tuple", [One(ex[0])])))
    for what, x in xs:
        for s, r in method(it, st.copy(), o, "decode", [x], fr):
            if isinstance(r, Raise):
                bad(s, "decode", f"{what} cannot be decoded ({it.exc_name(s, r)})")
                continue
            d = M.seqv(it, s, r)
            if d is not None and d.kind == kind:
                ctx.good("decode", f"{name} {kind} {what}")
            elif d is not None or isinstance(r, (I, C, Ref)):
                bad(s, "decode", f"{what} is decoded to {describe(r)} where {kind} was encoded")
            else:
                ctx.undecided("decode", f"{name}:{kind}", f"{what} is decoded to {describe(r)}")
