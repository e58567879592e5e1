"""Builtin functions."""
import ast

from .num import Atom, Lin, ZERO, ONE
from .values import *
from .values import V, Raise
from . import seq
from .seq import as_seq, lit, simp, slen, cval, concat, norm_parts
from .join import fresh_base, elem_templates, generalise
from . import models as M
from . import sets, prelude

NONE, TRUE, FALSE = C(None), C(True), C(False)


def L():
    from . import lib

    return lib


def each_seq(interp, st, v, fr, node, f):
    """f(state, S) on the materialised iterable."""
    out = []
    for x, q in interp.to_seq(st, v, fr, node):
        if isinstance(q, Raise):
            out.append((x, q))
        else:
            out += f(x, q)
    return out


def quick_gen(interp, st, v, fr, node):
    """The elements of a generator expression as an element-wise image."""
    if isinstance(v, Ref) and st.obj(v).kind == "gen":
        o = st.obj(v)
        fn = o.f.get("fn")
        if fn is not None and isinstance(fn.node, ast.GeneratorExp) and o.f.get("done") == FALSE:
            e = fn.node
            if len(e.generators) == 1 and not e.generators[0].ifs:
                from .interp import Fr

                env = o.f["env"]
                it = st.obj(env).f["%it"]
                fr2 = Fr(fn, env.id, fn.mod, (frozenset(), frozenset(), frozenset()), None, fr.stack if fr else (), (fr.envs if fr else ()) + (env.id,))
                t = st.copy()
                r = interp.map_seq(t, it, e.generators[0].target, e.elt, fr2, node)
                if r is not None and not any(isinstance(p, One) and isinstance(p.v, Ref) and False for _, q in r for p in q.parts):
                    for x, _ in r:
                        x.put(v, x.obj(v).set(done=TRUE))
                    return r
    return None


def seqs(interp, st, v, fr, node):
    r = quick_gen(interp, st, v, fr, node)
    if r is not None:
        return r
    return interp.to_seq(st, v, fr, node)


def bi_len(interp, st, args, kw, fr, node):
    v = args[0]
    q = M.seqv(interp, st, v)
    if q is not None:
        return [(st, I(st.num.norm(slen(q))))]
    if isinstance(v, Ref):
        o = st.obj(v)
        if o.kind == "dict":
            s = M.dict_view(interp, st, v, "keys")
            return [(st, I(slen(s)))]
        if o.kind == "inst":
            if o.cls.nt:
                return [(st, I(len(o.cls.fields)))]
            m = interp.lookup(st, o.cls, "__len__")
            if isinstance(m, Fn):
                return interp.call(st, Bound(m, v), [], {}, fr, node)
            if M.has_ext_base(interp, o.cls):
                return [(st, U("len", (v,), "int"))]
        if o.kind == "ext":
            return [(st, interp.fresh("len", "int"))]
        return [(st, interp.exc(st, "TypeError", node, fr, "len()"))]
    if isinstance(v, U):
        if isinstance(v.ty, str) and v.ty in ("int", "bool", "float", "NoneType", "slice"):
            return [(st, interp.exc(st, "TypeError", node, fr, "len()"))]
        if st.facts.get(("none", v)) is True:
            return [(st, interp.exc(st, "TypeError", node, fr, "len(None)"))]
        b = derived("items", (v,), "list", v.labels)
        return [(st, I(b.len))]
    return [(st, interp.exc(st, "TypeError", node, fr, "len()"))]


def bi_list(interp, st, args, kw, fr, node):
    if not args:
        return [(st, L().alloc_list(interp, st, (), node))]
    out = []
    for x, q in seqs(interp, st, args[0], fr, node):
        if isinstance(q, Raise):
            out.append((x, q))
        else:
            out.append((x, L().alloc_list(interp, x, M.token_parts(q), node)))
    return out


def bi_tuple(interp, st, args, kw, fr, node):
    if not args:
        return [(st, S("tuple"))]
    out = []
    for x, q in seqs(interp, st, args[0], fr, node):
        out.append((x, q if isinstance(q, Raise) else S("tuple", norm_parts(x.num, M.token_parts(q)))))
    return out


def bi_set(interp, st, args, kw, fr, node):
    if not args:
        return [(st, st.alloc(Obj("set", None, {"seq": S("list")}, interp.owner, site=node)))]
    out = []
    for x, q in seqs(interp, st, args[0], fr, node):
        if isinstance(q, Raise):
            out.append((x, q))
            continue
        bad = None
        for p in q.parts:
            if isinstance(p, One):
                bad = bad or M.unhashable(interp, x, p.v, fr, node)
        if bad is not None:
            out.append((x, bad))
            continue
        ex = M.explicit(q)
        ds = sets.dedupe(interp, x, ex, fr, node)
        if ds is not None:
            w = S("list", [One(e) for e in ds])
        else:
            b = derived("set", (S("list", M.token_parts(q)),), "list", labels_of(q), None, "tmpl", elem_templates(interp, x, M.token_parts(q)))
            w = b.seq()
        out.append((x, x.alloc(Obj("set", None, {"seq": S("list", w.parts)}, interp.owner, site=node))))
    return out


def bi_dict(interp, st, args, kw, fr, node):
    d = st.alloc(Obj("dict", None, {"ents": (), "rest": NONE}, interp.owner, site=node))
    cur = [(st, d)]
    if args:
        a = args[0]
        if isinstance(a, Ref) and st.obj(a).kind == "dict":
            cur = [(s, d) for s, _ in M.dict_update(interp, st, d, a, fr, node)]
        elif isinstance(a, Ref) and st.obj(a).kind == "inst" or isinstance(a, U):
            st.put(d, st.obj(d).set(rest=U("mapping", (a,), None, labels_of(a, st))))
        else:
            cur = []
            for x, q in seqs(interp, st, a, fr, node):
                cur += [(x, q)] if isinstance(q, Raise) else M.dict_from_pairs(interp, x, q, fr, node)
    out = []
    for s, v in cur:
        if not isinstance(v, Raise):
            for k, x in kw.items():
                M.dict_set(interp, s, v, C(k), x, fr, node, quiet=True)
        out.append((s, v))
    return out


def bi_str(interp, st, args, kw, fr, node):
    if not args:
        return [(st, C(""))]
    if len(args) > 1 or kw:
        q = M.seqv(interp, st, args[0])
        if q is not None and q.kind == "bytes":
            from .lib_text import text_method

            return text_method(interp, st, q, "decode", args[1:], kw, fr, node)
    return [(x, simp(v) if isinstance(v, S) else v) for x, v in M.to_str(interp, st, args[0], fr, node)]


def bi_bytes(interp, st, args, kw, fr, node):
    if not args:
        return [(st, C(b""))]
    v = args[0]
    q = M.seqv(interp, st, v)
    if q is not None and q.kind == "str":
        if len(args) > 1 or kw:
            from .lib_text import text_method

            return text_method(interp, st, q, "encode", args[1:], kw, fr, node)
        return [(st, interp.exc(st, "TypeError", node, fr, "bytes(str)"))]
    if q is not None and q.kind == "bytes":
        return [(st, v)]
    l = M.int_lin(interp, st, v)
    if l is not None:
        return [(st, derived("zeros", (I(l),), "bytes", (), l).seq())]

    def f(x, q):
        out = []
        parts = []
        cur = x
        for p in M.token_parts(q):
            if isinstance(p, One):
                lin = M.int_lin(interp, cur, p.v)
                if lin is None:
                    if isinstance(p.v, U):
                        parts.append(derived("byteof", (p.v,), "bytes", p.v.labels, ONE).whole())
                        continue
                    return [(cur, interp.exc(cur, "TypeError", node, fr, "bytes()"))]
                for bad, cond in ((lin, -lin - 1), (lin, lin - 256)):
                    if cur.num.sign(cond) is not False:
                        b = cur.copy()
                        if b.assume_ge0(cond):
                            out.append((b, interp.exc(b, "ValueError", node, fr)))
                        if not cur.assume_ge0(-cond - 1):
                            return out
                parts.append(IB(lin, 1))
            elif isinstance(p, Sl) and p.base.op == "chars" and p.base.args[0].kind == "bytes":
                parts.append(Sl(p.base.args[0], p.lo, p.hi))
            else:
                b = derived("bytesof", (p,), "bytes", labels_of(p), part_len(p))
                parts.append(b.whole())
        out.append((cur, simp(S("bytes", norm_parts(cur.num, parts)))))
        return out

    return each_seq(interp, st, v, fr, node, f)


def bi_int(interp, st, args, kw, fr, node):
    if not args:
        return [(st, I(0))]
    v = args[0]
    l = M.int_lin(interp, st, v)
    if l is not None:
        return [(st, I(l))]
    if isinstance(v, C) and isinstance(v.v, float):
        return [(st, I(int(v.v)))]
    if isinstance(v, C) and isinstance(v.v, (str, bytes)):
        try:
            return [(st, I(int(v.v, args[1].lin.c if len(args) > 1 else 10)))]
        except Exception:
            return [(st, interp.exc(st, "ValueError", node, fr))]
    if isinstance(v, U) and v.op == "ratio":
        num, k = v.args[0].lin, v.args[1].lin.c
        out = []
        for x, b in interp.decide(st, num):
            if b:
                out.append((x, I(interp.divmod(x, num, k)[0])))
            else:
                q, _ = interp.divmod(x, -num, k)
                out.append((x, I(-q)))
        return out
    if isinstance(v, (C, Ref, Fn, SL)) and not (isinstance(v, Ref) and st.obj(v).kind in ("inst", "ext")):
        return [(st, interp.exc(st, "TypeError", node, fr, "int()"))]
    u = U("int", tuple(args), "int", labels_of(v, st))
    return [(st, u)]


def bi_float(interp, st, args, kw, fr, node):
    l = M.int_lin(interp, st, args[0]) if args else None
    if l is not None:
        return [(s, U("ratio", (I(v), I(Lin(1))), "float")) for s, v in M.to_float(interp, st, l)]
    return pure("float", "float")(interp, st, args, kw, fr, node)


def bi_bool(interp, st, args, kw, fr, node):
    if not args:
        return [(st, FALSE)]
    v = args[0]
    if isinstance(v, U) and (v.ty is None or v.ty == "bool"):
        if v.ty == "bool":
            return [(st, v)]
        if interp.truth_hook:
            interp.truth_hook(st, v, fr, node)
        return [(st, U("bool", (v,), "bool"))]
    return [(x, b if isinstance(b, Raise) else C(b)) for x, b in interp.truth(st, v, fr, node)]


def bi_range(interp, st, args, kw, fr, node):
    ls = [M.int_lin(interp, st, a) for a in args]
    if any(l is None for l in ls):
        if any(not isinstance(a, U) for a, l in zip(args, ls) if l is None):
            return [(st, interp.exc(st, "TypeError", node, fr, "range()"))]
        return [(st, fresh_base("list", (), None, "range").seq())]
    lo, hi, step = (ZERO, ls[0], ONE) if len(ls) == 1 else (ls[0], ls[1], ONE) if len(ls) == 2 else ls
    step = st.num.norm(step)
    if not step.const or step.c == 0:
        return [(st, fresh_base("list", (), None, "range").seq())]
    k = step.c
    out = []
    span = hi - lo if k > 0 else lo - hi
    for x, b in interp.decide(st, span - 1):
        if not b:
            out.append((x, S("tuple")))
            continue
        n = span
        if abs(k) != 1:
            n = interp.divmod(x, span + abs(k) - 1, abs(k))[0]
        n = x.num.norm(n)
        if n.const and n.c <= max(8, interp.unroll):
            out.append((x, U("range", (S("list", [One(I(lo + k * j)) for j in range(n.c)]),), "range")))
            continue
        b = derived("range", (I(lo), I(hi), I(k)), "list", (), n, lambda interp, s, c, j: [(s, I(c.args[0].lin + j * c.args[2].lin.c))])
        out.append((x, U("range", (b.seq(),), "range")))
    return out


def bi_enumerate(interp, st, args, kw, fr, node):
    start = M.int_lin(interp, st, args[1] if len(args) > 1 else kw.get("start", I(0)))
    v, err = M.view(interp, st, args[0], fr, node)
    if err is not None:
        return [(st, err)]
    if isinstance(v, S):
        parts, off = [], start
        for p in M.token_parts(v):
            if isinstance(p, One):
                parts.append(One(S("tuple", (One(I(off)), One(p.v)))))
            else:
                d = off - p.lo
                b = derived("enumerate", (p.base, I(d)), "list", p.base.labels, p.base.len, lambda interp, s, c, j: [
                    (x, S("tuple", (One(I(j + c.args[1].lin)), One(e)))) for x, e in interp.elem(s, c.args[0], j)])
                parts.append(Sl(b, p.lo, p.hi))
            off = off + part_len(p)
        return [(st, iter_obj(st, S("list", norm_parts(st.num, parts))))]

    def run(interp, s, handler, fr2, n2):
        slot = s.alloc(Obj("env", None, {"i": I(start)}, "iter"))

        def body(x, e):
            i = x.obj(slot).f["i"]
            x.put(slot, x.obj(slot).set(i=I(i.lin + 1)))
            return [(y, ("exc", w) if isinstance(w, Raise) else None) for y, w in handler(x, S("tuple", (One(i), One(e))))]

        return [(y, NONE if sig is None else sig[1]) for y, sig in interp.iterate(s, v, body, fr, node)]

    return [(st, py_gen(interp, st, "enumerate", run))]


def py_gen(interp, st, name, run):
    return st.alloc(Obj("gen", None, {"py": Py(name, run), "done": FALSE}, interp.owner))


def iter_obj(st, q):
    return st.alloc(Obj("iter", None, {"seq": q}, "local"))


def endless_items(interp, st, a):
    """(name, values) of an endless iterable of the standard library that was
    not taken from yet, or None."""
    if not isinstance(a, Ref) or st.obj(a).kind != "gen":
        return None
    o = st.obj(a)
    f = o.f.get("fn")
    if not isinstance(f, Fn) or f.mod != prelude.NAME or f.name not in ("count", "forever", "cycle") or len(st.obj(o.f["env"]).f) > 4:
        return None
    e = st.obj(o.f["env"]).f
    if f.name == "count":
        ls = [M.int_lin(interp, st, e[k]) for k in ("start", "step")]
        if None in ls or not st.num.norm(ls[1]).const:
            return None
        return ("count", I(ls[0]), I(st.num.norm(ls[1])))
    if f.name == "forever":
        return ("forever", e["value"])
    q = M.seqv(interp, st, e["iterable"])
    ex = None if q is None or M.explicit(q) is None else M.explicit(q)
    return None if not ex else ("cycle",) + tuple(ex)


def item_of(st, q, j):
    if q[0] == "count":
        return I(q[1].lin + j * q[2].lin.c)
    if q[0] == "forever" or len(q) == 2:
        return q[1]
    n = st.num.norm(j)
    if n.const:
        return q[1 + n.c % (len(q) - 1)]
    st.vague("one of several values in turn")
    return q[1]


def bi_zip(interp, st, args, kw, fr, node):
    if L().flatten_stars(st, args) is None:
        b = fresh_base("list", (), None, "zip")
        st.vague("zip of an unknown number of arguments")
        return [(st, b.seq())]
    args = L().flatten_stars(st, args)
    cur = [(st, [])]
    out = []
    endless = [endless_items(interp, st, a) for a in args]
    if all(endless) and args:
        st.vague("zip of endless iterables")
        return [(st, fresh_base("list", (), None, "zip").seq())]
    for k, a in enumerate(args):
        nxt = []
        for x, qs in cur:
            if endless[k]:
                nxt.append((x, qs + [endless[k]]))
                continue
            for y, q in seqs(interp, x, a, fr, node):
                if isinstance(q, Raise):
                    out.append((y, q))
                else:
                    nxt.append((y, qs + [S("list", M.token_parts(q))]))
        cur = nxt
    for x, qs in cur:
        if not qs:
            out.append((x, S("list")))
            continue
        # the shortest one
        fin = [q for q in qs if isinstance(q, S)]
        pend = [(x, slen(fin[0]))]
        for q in fin[1:]:
            nxt = []
            for y, n in pend:
                m = slen(q)
                if y.num.is0(m - n) is True:
                    nxt.append((y, n))
                    continue
                for z, b in interp.decide(y, m - n):
                    nxt.append((z, n if b else m))
            pend = nxt
        for y, n in pend:
            nn = y.num.norm(n)
            if all(M.explicit(q) is not None for q in fin):
                k = min(len(M.explicit(q)) for q in fin)
                exs = [M.explicit(q) if isinstance(q, S) else [item_of(y, q, Lin(j)) for j in range(k)] for q in qs]
                out.append((y, iter_obj(y, S("list", [One(S("tuple", [One(e[j]) for e in exs])) for j in range(k)]))))
                continue
            if nn.const and nn.c == 0:
                out.append((y, iter_obj(y, S("list"))))
                continue

            def at(interp, s, c, j, qs_=tuple(qs)):
                res = [(s, ())]
                for q in qs_:
                    if not isinstance(q, S):
                        res = [(t, ps + (One(item_of(t, q, j)),)) for t, ps in res]
                        continue
                    res = [(u, ps + (One(e),)) for t, ps in res for u, e in interp.element(t, q, j, fr, node)]
                return [(t, S("tuple", ps)) for t, ps in res]

            labs = set()
            for q in fin:
                labs |= labels_of(q, y)
            b = derived("zip", tuple(q if isinstance(q, S) else S("tuple", [One(v) for v in q[1:]] + [One(C(q[0]))]) for q in qs), "list", labs, n, at)
            out.append((y, iter_obj(y, b.seq())))
    return out


def bi_reversed(interp, st, args, kw, fr, node):
    v = args[0]
    if isinstance(v, Ref) and st.obj(v).kind in ("gen", "chain", "mapit", "filterit", "iter", "set") and "view" not in st.obj(v).f:
        return [(st, interp.exc(st, "TypeError", node, fr, "reversed()"))]
    return each_seq(interp, st, v, fr, node, lambda x, q: [(x, iter_obj(x, S("list", M.reverse_seq(interp, S("list", M.token_parts(q))).parts)))])


def sort_explicit(interp, st, ex, key, rev, fr, node):
    """-> [(state, sorted values or Raise)] by insertion, or None."""
    if rev not in (TRUE, FALSE):
        return None
    cs = [M.as_seq(x) for x in ex]
    if key == NONE and all(isinstance(x, I) and x.lin.const for x in ex):
        return [(st, sorted(ex, key=lambda x: x.lin.c, reverse=rev == TRUE))]
    from .lib_text import const_text

    if key == NONE and all(q is not None and q.kind in ("str", "bytes") and const_text(q) is not None for q in cs) and len({q.kind for q in cs}) == 1:
        ts = [const_text(q) for q in cs]
        return [(st, [ex[k] for k in sorted(range(len(ex)), key=lambda k: ts[k], reverse=rev == TRUE)])]
    if len(ex) > 4:
        return None
    cur, out = [(st, [])], []
    if key == NONE:
        cur = [(st, [(x, x) for x in ex])]
    else:
        for x in ex:
            nxt = []
            for s, ks in cur:
                for t, k in interp.call(s, key, [x], {}, fr, node):
                    (out.append((t, k)) if isinstance(k, Raise) else nxt.append((t, ks + [(k, x)])))
            cur = nxt
    for s, ks in cur:
        todo = [(s, [], ks)]
        while todo:
            s, done, rest = todo.pop()
            if not rest:
                out.append((s, [x for _, x in done]))
                continue
            item = rest[0]
            # position from the right; stable
            work = [(s, len(done))]
            while work:
                t, k = work.pop()
                if k == 0:
                    todo.append((t, [item] + done, rest[1:]))
                    continue
                a, b = (item[0], done[k - 1][0]) if rev == FALSE else (done[k - 1][0], item[0])
                for u, r in M.order(interp, t, ast.Lt(), a, b, fr, node):
                    if isinstance(r, Raise):
                        out.append((u, r))
                    elif r:
                        work.append((u, k - 1))
                    else:
                        todo.append((u, done[:k] + [item] + done[k:], rest[1:]))
    return out


def bi_sorted(interp, st, args, kw, fr, node):
    st.event("order", "sorted", args[0], interp.where(node, fr))
    v = args[0]
    key = kw.get("key", NONE)

    def f(x, q):
        ex = M.explicit(q)
        if ex is not None and len(ex) <= 1:
            return [(x, L().alloc_list(interp, x, q.parts, node))]
        if ex is not None:
            r = sort_explicit(interp, x, ex, key, kw.get("reverse", FALSE), fr, node)
            if r is not None:
                return [(y, vs if isinstance(vs, Raise) else L().alloc_list(interp, y, tuple(One(e) for e in vs), node)) for y, vs in r]
        x.vague("sorted")
        ts = elem_templates(interp, x, M.token_parts(q))
        b = derived("sorted", (S("list", M.token_parts(q)), key, kw.get("reverse", FALSE)), "list", labels_of(q, x), slen(q), "tmpl", ts)
        return [(x, L().alloc_list(interp, x, (b.whole(),), node))]

    return each_seq(interp, st, v, fr, node, f)


def minmax(which):
    op = ast.Lt() if which == "min" else ast.Gt()

    def pick(interp, st, vals, key, fr, node):
        """The first of the least/greatest of some values."""
        cur = [(st, vals[0], None)]
        if key is not None:
            cur = [(x, vals[0], k) for x, k in interp.call(st, key, [vals[0]], {}, fr, node)]
        for b in vals[1:]:
            nxt = []
            for x, a, k in cur:
                if isinstance(a, Raise) or isinstance(k, Raise):
                    nxt.append((x, a, k))
                    continue
                for y, k2 in interp.call(x, key, [b], {}, fr, node) if key is not None else [(x, None)]:
                    if isinstance(k2, Raise):
                        nxt.append((y, b, k2))
                        continue
                    l, r = (k2, k) if key is not None else (b, a)
                    for z, t in M.order(interp, y, op, l, r, fr, node):
                        nxt.append((z, t, None) if isinstance(t, Raise) else (z, b, k2) if t else (z, a, k))
            cur = nxt
        return [(x, k if isinstance(k, Raise) else a) for x, a, k in cur]

    def f(interp, st, args, kw, fr, node):
        key = kw.get("key")
        if key is not None and isinstance(key, C) and key.v is None:
            key = None
        if len(args) > 1:
            return pick(interp, st, list(args), key, fr, node)

        def g(x, q):
            ex = M.explicit(q)
            if ex is not None and ex and len(ex) <= 6:
                return pick(interp, x, list(ex), key, fr, node)
            out = []
            for y, e in interp.decide0(x, slen(q)):
                if e:
                    out.append((y, kw["default"] if "default" in kw else interp.exc(y, "ValueError", node, fr, which + "()")))
                    continue
                y.vague(which + " of a sequence")
                a = fresh_int(interp, which)
                y.assume_ge0(a)
                y.assume_ge0(slen(q) - 1 - a)
                out += interp.element(y, q, a, fr, node)
            return out

        return each_seq(interp, st, args[0], fr, node, g)

    return f


def fresh_int(interp, name):
    interp.uid += 1
    return Lin.of(Atom(f"{name}#{interp.uid}"))


def bi_sum(interp, st, args, kw, fr, node):
    out = []
    for x, q in seqs(interp, st, args[0], fr, node):
        if isinstance(q, Raise):
            out.append((x, q))
            continue
        tot = M.int_lin(interp, x, args[1]) if len(args) > 1 else ZERO
        for p in M.token_parts(q):
            if isinstance(p, One) and M.int_lin(interp, x, p.v) is not None and tot is not None:
                tot = tot + M.int_lin(interp, x, p.v)
            elif isinstance(p, Sl):
                u = U("sum", (S("list", (p,)),), "int", p.base.labels)
                l = M.int_lin(interp, x, u)
                tot = tot + l if tot is not None else None
                # every term is a length or another non-negative number
                i = Atom("i")
                t = x.copy()
                il = Lin.of(i)
                if t.assume_ge0(il - p.lo) and t.assume_ge0(p.hi - il - 1):
                    es = interp.elem(t, p.base, il)
                    ls = [(y, M.int_lin(interp, y, e)) for y, e in es if not isinstance(e, Raise)]
                    if ls and all(l2 is not None and y.num.ge0(l2) for y, l2 in ls):
                        x.assume_ge0(l)
            else:
                tot = None
        if tot is None:
            out.append((x, interp.fresh("sum", None, labels_of(q))))
        else:
            out.append((x, I(tot)))
    return out


def anyall(isall):
    def f(interp, st, args, kw, fr, node):
        def body(x, e):
            r = []
            for y, b in interp.truth(x, e, fr, node):
                if isinstance(b, Raise):
                    r.append((y, ("exc", b)))
                elif b is not isall:
                    r.append((y, ("found",)))
                else:
                    r.append((y, None))
            return r

        out = []
        for y, sig in interp.iterate(st, args[0], body, fr, node):
            if sig is None:
                out.append((y, C(isall)))
            elif sig[0] == "found":
                out.append((y, C(not isall)))
            else:
                out.append((y, sig[1]))
        return out

    return f


def bi_isinstance(interp, st, args, kw, fr, node):
    return [(x, C(b)) for x, b in interp.isinstance_(st, args[0], args[1])]


def bi_issubclass(interp, st, args, kw, fr, node):
    a = args[0]
    if isinstance(a, Cls):
        ts = args[1].items if isinstance(args[1], UnionT) else [p.v for p in args[1].parts] if isinstance(args[1], S) else [args[1]]
        return [(st, C(any(interp.as_type(t) in [interp.as_type(c) for c in interp.mro(a)] for t in ts)))]
    return [(st, U("issubclass", tuple(args), "bool"))]


def bi_type(interp, st, args, kw, fr, node):
    v = args[0]
    t = interp.type_of(st, v)
    if t is not None and not (isinstance(v, U) and isinstance(v.ty, tuple)):
        return [(st, t)]
    if isinstance(v, U):
        for k, val in st.facts.items():
            if k[0] == "isa" and k[1] == v and val is True and isinstance(k[2], str) and k[2] in ("int", "str", "bytes", "tuple", "list", "dict", "set", "slice"):
                return [(st, Bi(k[2]))]
        return [(st, U("type", (v,), None, v.labels))]
    return [(st, U("type", (v,)))]


def bi_getattr(interp, st, args, kw, fr, node):
    if isinstance(args[1], C):
        out = []
        for x, v in interp.getattr(st, args[0], args[1].v, fr, node):
            if isinstance(v, Raise) and len(args) > 2 and interp.exc_name(x, v) == "AttributeError":
                out.append((x, args[2]))
            else:
                out.append((x, v))
        return out
    return [(st, interp.fresh("getattr", None, labels_of(args[0], st) | {"unk"}))]


def bi_hasattr(interp, st, args, kw, fr, node):
    if isinstance(args[1], C) and not isinstance(args[0], U):
        return [(x, C(not isinstance(v, Raise))) for x, v in interp.getattr(st, args[0], args[1].v, fr, node)]
    return [(x, C(b)) for x, b in interp.fork(st, ("hasattr", args[0], args[1]))]


def bi_setattr(interp, st, args, kw, fr, node):
    if isinstance(args[1], C):
        return interp.setattr(st, args[0], args[1].v, args[2], fr, node)
    interp.mutated(st, args[0], "setattr", fr, node)
    return [(st, NONE)]


def bi_print(interp, st, args, kw, fr, node):
    f = kw.get("file", NONE)
    if isinstance(f, Ref) and st.obj(f).kind == "ext":
        from .lib_ext import ext_method

        parts = []
        for a in args:
            if not type(a).__name__ == "Star":
                parts.append(a)
        cur = [(st, [])]
        for a in parts:
            cur = [(y, ss + [s]) for x, ss in cur for y, s in M.to_str(interp, x, a, fr, node)]
        out = []
        for x, ss in cur:
            sep = as_seq(kw.get("sep", C(" ")))
            q = S("str")
            for n, s in enumerate(ss):
                if n and sep is not None:
                    q = concat(x.num, q, sep)
                if isinstance(s, Raise):
                    continue
                q = concat(x.num, q, as_seq(s))
            e = as_seq(kw.get("end", C("\n")))
            if e is not None:
                q = concat(x.num, q, e)
            out += [(y, v if isinstance(v, Raise) else NONE) for y, v in ext_method(interp, x, f, "write", [simp(q)], {}, fr, node)]
        return out
    st.event("ext", "print", tuple(a for a in args if isinstance(a, V)), tuple(sorted(kw)), interp.where(node, fr))
    return [(st, NONE)]


def bi_ord(interp, st, args, kw, fr, node):
    v = args[0]
    q = M.seqv(interp, st, v)
    if isinstance(v, U) and v.op == "chr":
        return [(st, v.args[0])]
    if q is not None and q.parts and len(q.parts) == 1:
        p = q.parts[0]
        if isinstance(p, Lit) and len(p.v) == 1:
            return [(st, I(p.v[0] if isinstance(p.v, bytes) else ord(p.v)))]
        if isinstance(p, Sl) and p.base.op == "chr":
            return [(st, I(p.base.args[0].lin))]
        if isinstance(p, Sl) and p.base.op == "val" and isinstance(p.base.args[0], U) and p.base.args[0].op == "chr":
            return [(st, p.base.args[0].args[0])]
    if q is None and not isinstance(v, U):
        return [(st, interp.exc(st, "TypeError", node, fr, "ord()"))]
    u = U("ord", (v,), "int", labels_of(v, st))
    st.assume_ge0(M.int_lin(interp, st, u))
    return [(st, u)]


def bi_chr(interp, st, args, kw, fr, node):
    v = args[0]
    if isinstance(v, U) and v.op == "ord":
        return [(st, v.args[0])]
    l = M.int_lin(interp, st, v)
    if l is None and not isinstance(v, U):
        return [(st, interp.exc(st, "TypeError", node, fr, "chr()"))]
    if l is not None:
        l = st.num.norm(l)
        if l.const and 0 <= l.c < 0x110000:
            return [(st, C(chr(l.c)))]
        # ord(c) as a number
        for u, a in interp.__dict__.get("int_atoms", {}).items():
            if u.op == "ord" and l == Lin.of(a):
                return [(st, u.args[0])]
        b = derived("chr", (I(l),), "str", labels_of(v), ONE)
        return [(st, S("str", (b.whole(),)))]
    return [(st, derived("chr", (v,), "str", labels_of(v), ONE).seq())]


def bi_iter(interp, st, args, kw, fr, node):
    if len(args) > 1:
        return [(st, interp.fresh("iter", labels={"unk"}))]
    v, err = M.view(interp, st, args[0], fr, node)
    if err is not None:
        return [(st, err)]
    if isinstance(v, S):
        return [(st, iter_obj(st, v))]
    return [(st, v)]


def bi_next(interp, st, args, kw, fr, node):
    v = args[0]
    if isinstance(v, Ref) and st.obj(v).kind == "iter":
        q = st.obj(v).f["seq"]
        out = []
        for x, e in interp.decide0(st, slen(q)):
            if e:
                out.append((x, args[1] if len(args) > 1 else interp.exc(x, "StopIteration", node, fr)))
                continue
            for y, val in interp.element(x, q, ZERO, fr, node):
                for z, r in seq.slice_seq(y, q, ONE, None, interp):
                    z.put(v, z.obj(v).set(seq=r))
                    out.append((z, val))
        return out
    if isinstance(v, Ref) and st.obj(v).kind == "gen":
        # taken one by one: an opaque sequence of values
        o = st.obj(v)
        if o.owner in ("module", "input"):
            interp.mutated(st, v, "next", fr, node)
        r = interp.gen_step(st, v, fr, node)
        if r is not None:
            return [(x, (args[1] if len(args) > 1 else interp.exc(x, "StopIteration", node, fr)) if e is None else e) for x, e in r]
        if "py" not in o.f and not o.labels & {"endless"}:
            st.vague("next() of a generator")
        stop = st.copy()
        out = [(st, interp.fresh("next", None, o.labels | {"unk"} if "py" in o.f else o.labels))]
        if o.labels & {"endless"}:
            return out
        out.append((stop, args[1] if len(args) > 1 else interp.exc(stop, "StopIteration", node, fr)))
        return out
    if isinstance(v, (C, I, S)) or isinstance(v, Ref) and st.obj(v).kind in ("list", "dict", "set"):
        return [(st, interp.exc(st, "TypeError", node, fr, "next()"))]
    if isinstance(v, U):
        interp.mutated(st, v, "next", fr, node)
        return [(st, interp.fresh("next", None, v.labels))]
    return [(st, interp.fresh("next", None, {"unk"}))]


def bi_map(interp, st, args, kw, fr, node):
    if len(args) in (3, 4) and not any(type(a).__name__ == "Star" for a in args):
        return interp.call(st, interp.attr_of(prelude.NAME, f"map{len(args) - 1}"), args, kw, fr, node)
    if len(args) != 2:
        return None
    v, err = M.view(interp, st, args[1], fr, node)
    if err is not None:
        return [(st, err)]
    if isinstance(args[0], Bi) and args[0].name in ("ord", "chr", "len", "str") and isinstance(v, S) and node is not None:
        # a function without effects: the same as [f(x) for x in v]
        x = st.copy()
        env = x.alloc(Obj("env", None, {"__parent__": C(fr.env), "%comp": TRUE, "%f": args[0]}))
        fr2 = type(fr)(fr.fn, env.id, fr.mod, (frozenset(), fr.globals, fr.nonlocals), fr.handler, fr.stack, (fr.envs + (env.id,))[-6:])
        elt = ast.fix_missing_locations(ast.copy_location(ast.Call(ast.Name("%f", ast.Load()), [ast.Name("%x", ast.Load())], []), node))
        r = interp.map_seq(x, v, ast.fix_missing_locations(ast.copy_location(ast.Name("%x", ast.Store()), node)), elt, fr2, node)
        if r is not None:
            return [(y, iter_obj(y, q)) for y, q in r]
    return [(st, st.alloc(Obj("mapit", None, {"fn": args[0], "of": v}, interp.owner)))]


def bi_filter(interp, st, args, kw, fr, node):
    v, err = M.view(interp, st, args[1], fr, node)
    if err is not None:
        return [(st, err)]
    return [(st, st.alloc(Obj("filterit", None, {"fn": args[0], "of": v}, interp.owner)))]


def bi_abs(interp, st, args, kw, fr, node):
    l = M.int_lin(interp, st, args[0])
    if l is None:
        return [(st, U("abs", tuple(args), None, labels_of(args[0], st)))]
    return [(x, I(l if b else -l)) for x, b in interp.decide(st, l)]


def bi_divmod(interp, st, args, kw, fr, node):
    a, b = (M.int_lin(interp, st, x) for x in args)
    if a is not None and b is not None:
        b = st.num.norm(b)
        if b.const and b.c > 0:
            q, r = interp.divmod(st, a, b.c)
            return [(st, S("tuple", (One(I(q)), One(I(r)))))]
    return [(st, S("tuple", (One(interp.fresh("div")), One(interp.fresh("mod")))))]


def bi_slice(interp, st, args, kw, fr, node):
    a = list(args)
    if len(a) == 1:
        a = [NONE] + a
    while len(a) < 3:
        a.append(NONE)
    return [(st, SL(*a))]


def bi_open(interp, st, args, kw, fr, node):
    from .lib_ext import open_

    return open_(interp, st, args, kw, fr, node)


def bi_callable(interp, st, args, kw, fr, node):
    v = args[0]
    if isinstance(v, (Fn, Bound, Cls, Bi, Py, Meth)):
        return [(st, TRUE)]
    if isinstance(v, (C, I, S)):
        return [(st, FALSE)]
    return [(x, C(b)) for x, b in interp.fork(st, ("callable", v))]


def pure(name, ty=None):
    def f(interp, st, args, kw, fr, node):
        labs = set()
        for a in args:
            labs |= labels_of(a, st)
        if name in ("hash", "id"):
            st.event("impure", name, interp.where(node, fr))
        if ty == "str":
            return [(st, derived(name, tuple(args), "str", labs).seq())]
        return [(st, U(name, tuple(args), ty, labs))]

    return f


def bi_repr(interp, st, args, kw, fr, node):
    return pure("repr", "str")(interp, st, args, kw, fr, node)


BI = {
    "len": bi_len, "list": bi_list, "tuple": bi_tuple, "set": bi_set, "frozenset": bi_set, "dict": bi_dict, "str": bi_str,
    "bytes": bi_bytes, "int": bi_int, "bool": bi_bool, "range": bi_range, "enumerate": bi_enumerate, "zip": bi_zip,
    "reversed": bi_reversed, "sorted": bi_sorted, "min": minmax("min"), "max": minmax("max"), "sum": bi_sum,
    "any": anyall(False), "all": anyall(True), "isinstance": bi_isinstance, "issubclass": bi_issubclass, "type": bi_type,
    "getattr": bi_getattr, "hasattr": bi_hasattr, "setattr": bi_setattr, "print": bi_print, "ord": bi_ord, "chr": bi_chr,
    "iter": bi_iter, "next": bi_next, "map": bi_map, "filter": bi_filter, "abs": bi_abs, "divmod": bi_divmod,
    "slice": bi_slice, "open": bi_open, "callable": bi_callable, "repr": bi_repr, "ascii": bi_repr, "hash": pure("hash", "int"),
    "id": pure("id", "int"), "round": pure("round"), "float": bi_float, "format": pure("format", "str"),
    "hex": pure("hex", "str"), "bin": pure("bin", "str"), "object": lambda i, st, a, k, fr, n: [(st, i.fresh("object", "object"))],
}
