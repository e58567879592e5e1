"""C22: tokenizers reproduce the text exactly."""
from .tokenizing import *

EXPLAIN = (
    "Abstract interpretation of encode and decode of every tokenizer class. Texts are put together from opaque pieces of unknown length (words), all sorts of line ends "
    "and other fixed characters, in strings and in bytes; the pieces are also adjacent, so that a regular expression may cut a text anywhere. Whether an expression matches "
    "every character of every text is decided on its syntax and all characters. What decode returns for the result of encode, as a whole and cut in two at "
    "each place, must be the same sequence of parts as the text."
)


def texts(kind, n=0):
    """(name, function of the words -> text, number of words)"""
    r = [("empty", 0, lambda: ()), ("a word", 1, lambda a: (a,)), ("adjacent pieces", 2, lambda a, b: (a, b)),
         ("three adjacent pieces", 3, lambda a, b, c: (a, b, c)), ("a repeated piece", 2, lambda a, b: (a, b, a))]
    for e in EOLS[kind]:
        r += [(f"{e!r}", 0, lambda e=e: (e,)), (f"words separated by {e!r}", 3, lambda a, b, c, e=e: (a, e, b, e, c)),
              (f"lines ending in {e!r}", 2, lambda a, b, e=e: (a, e, b, e)), (f"{e!r} at the start", 1, lambda a, e=e: (e, a)),
              (f"repeated lines with {e!r}", 1, lambda a, e=e: (a, e, a, e, a)), (f"empty lines with {e!r}", 2, lambda a, b, e=e: (a, e, e, b, e, e))]
    nl = EOLS[kind][0]
    r.append(("a symbol alone", 0, lambda: (nl[:0] + nl,)))
    for k in range(0, 128, 8):
        c = "".join(map(chr, range(k, k + 8)))
        c = c if kind == "str" else c.encode()
        r.append((f"characters {k} to {k + 7}", 0, lambda c=c: (c,)))
    c = "\u00e9\u4e2d\U0001f600\u00df"
    c = c if kind == "str" else c.encode()
    r.append(("characters beyond ASCII", 0, lambda: (c,)))
    return r


def check(ctx):
    it = ctx.interp()
    jobs = []
    for n, _ in tokenizers(ctx, it):
        for kind in ("str", "bytes"):
            jobs.append(("reproduce", one, n, kind))
    ctx.parallel(jobs)


def one(ctx, name, kind):
    it = interp(ctx)
    fr = top_frame(it)
    cls = dict(tokenizers(ctx, it))[name]
    for what, n, f in texts(kind):
        st = it.start()
        ws = [word(f"P{k}", kind, 1) for k in range(n)]
        distinct(st, *ws)
        roundtrip(ctx, it, fr, cls, name, kind, st, what, text(kind, *f(*ws)))
    for c in list(ctx.gaps):
        if isinstance(c, str) and kind == "bytes":
            c = c.encode()
        if isinstance(c, str) == (kind == "str"):
            roundtrip(ctx, it, fr, cls, name, kind, it.start(), f"the character {c!r}", text(kind, c))
    ctx.absorb(it)


def roundtrip(ctx, it, fr, cls, name, kind, st, what, t):
    where = where_fn(it.lookup(it.init, cls, "decode"))
    st, o = make(it, st, cls, fr)
    for s, v in method(it, st, o, "encode", [simp(t)], fr):
        if isinstance(v, Raise):
            fail(ctx, it, s, v, f"{name}:{kind}", f"{name}.encode fails on {kind} ({what})")
            continue
        cases = [(s, [v])]
        q = M.seqv(it, s, v)
        ex = M.explicit(q) if q is not None and q.kind in ("tuple", "list") else None
        if ex is not None and len(ex) <= 12:
            cases = [(s.copy(), [S("tuple", [One(e) for e in ex[:k]]), S("tuple", [One(e) for e in ex[k:]])]) for k in range(1, len(ex))] + cases
        for c, vs in cases:
            cur = [(c, S(kind, ()))]
            for x in vs:
                nxt = []
                for y, acc in cur:
                    for z, r in method(it, y, o, "decode", [x], fr):
                        if isinstance(r, Raise):
                            fail(ctx, it, z, r, f"{name}:{kind}", f"{name}.decode fails on {kind} ({what})")
                            continue
                        d = M.seqv(it, z, r)
                        if d is None or d.kind != kind or isinstance(r, Ref):
                            if exact(z, r) and type_known(it, z, r):
                                ctx.violation("reproduce", f"{name}:{kind}", f"{name}.decode gives {describe(r)} for {kind} ({what})", where, path_of(z))
                            else:
                                ctx.undecided("reproduce", f"{name}:{kind}:{what}", f"decode gives {describe(r)}")
                            continue
                        nxt.append((z, S(kind, M.norm_parts(z.num, acc.parts + d.parts))))
                cur = nxt
            for y, acc in cur:
                r = same_text(y, simp(acc), t, it)
                if r is True:
                    ctx.good("reproduce" if len(vs) == 1 else "pieces", f"{name} {kind} {what}")
                elif r is False:
                    ctx.violation("reproduce" if len(vs) == 1 else "pieces", f"{name}:{kind}",
                                  f"{name} turns {describe(t)} into {describe(acc)}" + (" when it is decoded in two pieces" if len(vs) > 1 else "") + f" ({what})", where, path_of(y))
                else:
                    ctx.undecided("reproduce", f"{name}:{kind}:{what}", f"decode gives {describe(acc)}")


def type_known(it, st, v):
    return not isinstance(v, U) or v.ty is not None


def fail(ctx, it, s, v, key, msg):
    w, x, _ = raise_where(it, s, v)
    if exact(s):
        ctx.violation("fails", f"{key}:{x}", f"{msg}: {x}", w, path_of(s))
    else:
        ctx.undecided("fails", key, f"{msg}: {x}")
