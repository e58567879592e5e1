"""C02: truncated or out-of-range input is rejected."""
from .util import *

EXPLAIN = (
    "The readers are evaluated on an opaque byte string of any length (loops to a fixpoint). On every path that returns or yields a value, "
    "the upper bound of every range of the byte string that was read on the way must be provably at most its length, and a reader of a whole "
    "changeset may only end when nothing is left. The writers are evaluated on the two ranges of integers outside their format; every path must raise."
)


def fits(ctx, it, st, evs, name, what):
    """Every range read on a path that gives a value lies inside."""
    last = max((i for i, e in enumerate(evs) if e[0] == "join"), default=-1)
    for i, e in enumerate(evs):
        if e[0] != "slice":
            continue
        if i < last and it.inside.get(id(e)):
            # what was known of the numbers may have been lost in the join
            ctx.good("inside", f"{name}: range read before paths were joined")
            continue
        _, q, lo, hi, where = e
        n = slen(q)
        for b, side in ((lo, "start"), (hi, "stop")):
            if b is None:
                continue
            if st.num.ge0(n - b) is True:
                ctx.good("inside", f"{name}: {side} of a range read at {where.split(' in ')[-1]}")
                continue
            if i < last or not exact(st) or st.num.ge0(b) is None:
                ctx.undecided("inside", f"{name}: {where}", f"cannot bound {b!r} by {n!r}")
                continue
            x = st.copy()
            if x.assume_ge0(b - n - 1) and feasible(x):
                ctx.violation("inside", f"{name}:{what}", f"{name} {what} a value computed from bytes up to {b!r} while the byte string may have only {n!r}", "src/" + where, path_of(st))
            else:
                ctx.good("inside", f"{name}: {side} of a range read")


def watch(it):
    """Decide the ranges read on a path before it is joined with another."""
    it.inside = {}
    it.held = []

    def hook(st):
        t = st.trace
        while t is not None and t[1][0] != "loop":
            e = t[1]
            if e[0] == "slice" and id(e) not in it.inside:
                n = slen(e[1])
                it.held.append(e)
                it.inside[id(e)] = all(b is None or st.num.ge0(n - b) is True for b in e[2:4])
            t = t[0]

    it.join_hook = hook


def read_int(ctx, name):
    it = ctx.interp()
    watch(it)
    f = ctx.fn(it, "serialize", name)
    B = base("stream", "bytes")
    for s, r in it.call(it.start(), f, [B.seq()], {}, top_frame(it), None):
        if isinstance(r, Raise):
            if feasible(s):
                ctx.good("refuses", f"{name} raises {it.exc_name(s, r)}")
            continue
        fits(ctx, it, s, s.events(), name, "returns")
    ctx.absorb(it)


def since_loop(st):
    r = []
    t = st.trace
    while t is not None and t[1][0] != "loop":
        r.append(t[1])
        t = t[0]
    return r[::-1]


def read_changeset(ctx):
    it = ctx.interp()
    watch(it)
    f = ctx.fn(it, "serialize", "deserialize_changeset")
    fr = top_frame(it)
    B = base("stream", "bytes")
    st = it.start()

    def left(s, env):
        """The parts of the stream that are still held."""
        r = []
        for k, v in s.obj(env).f.items():
            q = M.seqv(it, s, v) if isinstance(v, V) and k[:1] not in "%_" else None
            if q is not None and q.kind == "bytes" and len(q.parts) <= 1:
                if not q.parts or isinstance(q.parts[0], Lit):
                    continue
                p = q.parts[0]
                if isinstance(p, Sl) and s.num.is0(p.hi - p.base.len) is True and derives(p.base, B):
                    r.append((k, q))
        return r

    def derives(b, B):
        return b is B or "stream" in b.labels or b.name.startswith("stream")

    for s, g in it.call(st, f, [B.seq()], {}, fr, None):
        if isinstance(g, Raise):
            ctx.good("refuses", "deserialize_changeset raises")
            continue

        def body(x, e):
            fits(ctx, it, x, since_loop(x), "deserialize_changeset", "yields")
            return [(x, None)]

        env = s.obj(g).f.get("env") if isinstance(g, Ref) and s.obj(g).kind == "gen" else None
        for x, sig in it.iterate(s, g, body, fr, None):
            if sig is not None:
                ctx.good("refuses", "deserialize_changeset raises")
                continue
            fits(ctx, it, x, since_loop(x), "deserialize_changeset", "ends having used")
            if env is None:
                continue
            got = []
            ints = False
            for k, v in x.obj(env).f.items():
                if not isinstance(v, V) or k[:1] == "%":
                    continue
                l = M.int_lin(it, x, v)
                if l is not None and x.num.is0(B.len - l) is True:
                    ints = True
                q = M.seqv(it, x, v)
                if q is not None and q.kind == "bytes":
                    got.append((k, q))
            a0 = f.node.args.args[0].arg if isinstance(f, Fn) and f.node.args.args else None
            named = [q for k, q in got if k == a0]
            if ints or any(x.num.is0(slen(q)) is True for q in named):
                ctx.good("complete", "deserialize_changeset ends only at the end of the byte string")
            elif named and exact(x) and feasible(x) and named[0].parts and not (isinstance(named[0].parts[0], Sl) and named[0].parts[0].base is B and x.num.is0(named[0].parts[0].lo) is True):
                ctx.violation("complete", "deserialize_changeset", f"deserialize_changeset ends normally with {describe(named[0])} unread", where_fn(f), path_of(x))
            else:
                ctx.undecided("complete", "deserialize_changeset", "cannot tell how much of the byte string was used")
    ctx.absorb(it)


def out_of_range(ctx, name, hi):
    for lo_, hi_, what in ((None, -1, "negative"), (hi + 1, None, f"above {hi}")):
        it = ctx.interp()
        f = ctx.fn(it, "serialize", name)
        v = Lin.of(Atom("value", lo_, hi_))
        for s, r in it.call(it.start(), f, [I(v)], {}, top_frame(it), None):
            if isinstance(r, Raise):
                ctx.good("range", f"{name} refuses {what}")
            elif exact(s, r) and feasible(s):
                ctx.violation("range", f"{name}:{what}", f"{name} writes {describe(r)} for an integer that is {what}", where_fn(f), path_of(s))
            elif feasible(s):
                ctx.undecided("range", f"{name}:{what}", f"returns {describe(r)}")
        ctx.absorb(it)


def check(ctx):
    ctx.part("read", read_int, ctx, "vdeserialize_int")
    ctx.part("range", out_of_range, ctx, "vserialize_int", 2 ** 64 - 1)
    it = ctx.interp()
    if ctx.fn(it, "serialize", "deserialize_int", False) is not None:
        ctx.part("read", read_int, ctx, "deserialize_int")
    if ctx.fn(it, "serialize", "serialize_int", False) is not None:
        ctx.part("range", out_of_range, ctx, "serialize_int", 2 ** 32 - 1)
    ctx.part("changeset", read_changeset, ctx)
