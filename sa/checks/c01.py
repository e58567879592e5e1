"""C01: compact integers round-trip."""
from .util import *

EXPLAIN = (
    "Interval analysis with exact linear forms: the writer is evaluated on one abstract integer of the whole range, each of its "
    "return paths gives a byte string of fixed-width pieces together with the value interval of the path; the reader is evaluated "
    "on that string followed by an opaque byte string, and has to return a linear form equal to the integer and exactly the opaque rest. "
    "One obligation per pair of writer path and reader path."
)


def round_trip(ctx, enc, dec, hi):
    it = ctx.interp()
    fe, fd = ctx.fn(it, "serialize", enc), ctx.fn(it, "serialize", dec)
    fr = top_frame(it)
    st = it.start()
    v = Lin.of(Atom("value", 0, hi))
    R = base("rest", "bytes")
    n = 0
    for s, b in it.call(st, fe, [I(v)], {}, fr, None):
        if isinstance(b, Raise):
            if exact(s) and feasible(s):
                w, name, _ = raise_where(it, s, b)
                ctx.violation("write", f"{enc}:{name}", f"{enc} raises {name} for an integer of the range", w, path_of(s))
            continue
        q = M.seqv(it, s, b)
        if q is None or q.kind != "bytes":
            if exact(s, b):
                ctx.violation("write", f"{enc}:kind", f"{enc} returns {describe(b)} instead of bytes", where_fn(fe))
            else:
                ctx.undecided("write", enc, f"returns {describe(b)}")
            continue
        if any(isinstance(p, Sl) for p in q.parts):
            ctx.undecided("write", enc, f"writes something not modelled: {describe(b)}")
            continue
        stream = simp(concat(s.num, q, R.seq()))
        for t, r in it.call(s, fd, [stream], {}, fr, None):
            n += 1
            if isinstance(r, Raise):
                if exact(t) and feasible(t):
                    w, name, _ = raise_where(it, t, r)
                    ctx.violation("read", f"{dec}:{name}", f"{dec} raises {name} on what {enc} wrote ({describe(q)})", w, path_of(t))
                else:
                    ctx.undecided("read", dec, "may raise: " + ", ".join(t.imp))
                continue
            xs = items(it, t, r)
            if not xs or len(xs) != 2:
                ctx.undecided("read", dec, f"returns {describe(r)}")
                continue
            l = M.int_lin(it, t, xs[0])
            rest = M.seqv(it, t, xs[1])
            eqv = l is not None and t.num.is0(l - v) is True
            eqr = rest is not None and seq.same(t.num, rest, R.seq())
            if eqv and eqr:
                ctx.good("round-trip", f"{enc} -> {dec}: {describe(q)}")
            elif not exact(t, xs[0], xs[1]):
                ctx.undecided("round-trip", f"{enc}/{dec}", f"value {describe(xs[0])}, rest {describe(xs[1])}")
            elif feasible(t):
                what = "value" if not eqv else "rest"
                got = xs[0] if not eqv else xs[1]
                ctx.violation("round-trip", f"{enc}/{dec}:{what}", f"written as {describe(q)}, {dec} reads {what} {describe(got)}", where_fn(fd), path_of(t))
    ctx.absorb(it)


def check(ctx):
    ctx.part("round-trip", round_trip, ctx, "vserialize_int", "vdeserialize_int", 2 ** 64 - 1)
    it = ctx.interp()
    if ctx.fn(it, "serialize", "serialize_int", False) is not None and ctx.fn(it, "serialize", "deserialize_int", False) is not None:
        ctx.part("round-trip", round_trip, ctx, "serialize_int", "deserialize_int", 2 ** 32 - 1)
