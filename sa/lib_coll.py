"""Methods of list, dict and set."""
from .num import Atom, Lin, ZERO, ONE
from .values import *
from .values import V, Raise
from . import seq
from .seq import as_seq, lit, simp, slen, cval, concat, norm_parts
from .join import fresh_base, elem_templates
from . import models as M
from . import sets

NONE, TRUE, FALSE = C(None), C(True), C(False)


def each_seq(interp, st, v, fr, node, f):
    from .lib_bi import seqs

    out = []
    for x, q in seqs(interp, st, v, fr, node):
        if isinstance(q, Raise):
            out.append((x, q))
        else:
            out += f(x, q)
    return out


def list_method(interp, st, o, name, args, kw, fr, node):
    ob = st.obj(o)
    q = ob.f["seq"]
    if name == "append":
        interp.mutated(st, o, "append", fr, node, args[0])
        st.put(o, st.obj(o).set(seq=S("list", norm_parts(st.num, q.parts + (One(args[0]),)))))
        return [(st, NONE)]
    if name == "extend":
        def f(x, w):
            interp.mutated(x, o, "extend", fr, node, args[0])
            cur = x.obj(o).f["seq"]
            x.put(o, x.obj(o).set(seq=S("list", norm_parts(x.num, cur.parts + M.token_parts(w)))))
            return [(x, NONE)]

        return each_seq(interp, st, args[0], fr, node, f)
    if name == "insert":
        out = []
        l = M.int_lin(interp, st, args[0])
        if l is None:
            return [(st, interp.exc(st, "TypeError", node, fr))]
        interp.mutated(st, o, "insert", fr, node, args[1])
        for x, a in seq.clamp(st, l, slen(q)):
            for y, lft, rgt in seq.split_at(x, q.parts, a, interp):
                y.put(o, y.obj(o).set(seq=S("list", norm_parts(y.num, lft + (One(args[1]),) + rgt))))
                out.append((y, NONE))
        return out
    if name == "pop":
        idx = args[0] if args else I(-1)
        interp.mutated(st, o, "pop", fr, node)
        return M.list_remove_at(interp, st, o, idx, fr, node)
    if name == "appendleft":
        return list_method(interp, st, o, "insert", [I(0), args[0]], kw, fr, node)
    if name == "popleft":
        return list_method(interp, st, o, "pop", [I(0)], kw, fr, node)
    if name == "clear":
        interp.mutated(st, o, "clear", fr, node)
        st.put(o, st.obj(o).set(seq=S("list")))
        return [(st, NONE)]
    if name == "copy":
        return [(st, st.alloc(Obj("list", None, {"seq": q}, interp.owner, ob.labels, node)))]
    if name == "reverse":
        interp.mutated(st, o, "reverse", fr, node)
        st.put(o, st.obj(o).set(seq=S("list", M.reverse_seq(interp, q).parts)))
        return [(st, NONE)]
    if name == "sort":
        interp.mutated(st, o, "sort", fr, node)
        ex = M.explicit(q)
        if ex is not None and len(ex) > 1:
            from .lib_bi import sort_explicit

            r = sort_explicit(interp, st, ex, kw.get("key", NONE), kw.get("reverse", FALSE), fr, node)
            if r is not None:
                out = []
                for y, vs in r:
                    if not isinstance(vs, Raise):
                        y.put(o, y.obj(o).set(seq=S("list", [One(e) for e in vs])))
                        vs = NONE
                    out.append((y, vs))
                return out
        if ex is None or len(ex) > 1:
            st.vague("sort")
        ts = elem_templates(interp, st, q.parts)
        b = derived("sorted", (q, kw.get("key", NONE), kw.get("reverse", FALSE)), "list", labels_of(q, st), slen(q), "tmpl", ts)
        st.put(o, st.obj(o).set(seq=b.seq()))
        return [(st, NONE)]
    if name == "remove":
        interp.mutated(st, o, "remove", fr, node, args[0])
        ex = M.explicit(q)
        out = []
        if ex is not None and len(ex) <= 8:
            pend = [st]
            for n, v in enumerate(ex):
                nxt = []
                for s in pend:
                    for t, r in M.eq(interp, s, v, args[0], fr, node):
                        if isinstance(r, Raise):
                            out.append((t, r))
                        elif r:
                            t.put(o, t.obj(o).set(seq=S("list", q.parts[:n] + q.parts[n + 1:])))
                            out.append((t, NONE))
                        else:
                            nxt.append(t)
                pend = nxt
            return out + [(s, interp.exc(s, "ValueError", node, fr)) for s in pend]
        bad = st.copy()
        ex = sets.known(interp, st, q, fr, node)
        if ex is not None and name != "pop":
            ms = [sets.member(interp, st, [e], args[0], fr, node) for e in ex]
            if None not in ms:
                if name == "remove" and True not in ms:
                    return [(st, interp.exc(st, "KeyError", node, fr))]
                st.put(o, st.obj(o).set(seq=S("list", [One(e) for e, m in zip(ex, ms) if not m])))
                return [(st, NONE)]
        if name == "pop" and ex is not None and len(ex) < 2:
            if not ex:
                return [(st, interp.exc(st, "KeyError", node, fr))]
            st.put(o, st.obj(o).set(seq=S("list")))
            return [(st, ex[0])]
        ts = elem_templates(interp, st, q.parts)
        st.put(o, st.obj(o).set(seq=fresh_base("list", labels_of(q, st), ts, "removed").seq()))
        return [(st, NONE), (bad, interp.exc(bad, "ValueError", node, fr))]
    if name in ("index", "count"):
        from .lib import tuple_method

        return tuple_method(interp, st, S("tuple", q.parts), name, args, kw, fr, node)
    if name == "__len__":
        return [(st, I(slen(q)))]
    if name == "__iter__":
        return [(st, o)]
    if name == "__getitem__":
        return interp.getitem(st, o, args[0], fr, node)
    if name == "__setitem__":
        return interp.setitem(st, o, args[0], args[1], fr, node)
    if name == "__contains__":
        return [(x, b if isinstance(b, Raise) else C(b)) for x, b in M.contains(interp, st, o, args[0], fr, node)]
    st.vague("list." + name)
    return [(st, interp.fresh("list." + name, labels={"unk"}))]


def set_method(interp, st, o, name, args, kw, fr, node):
    ob = st.obj(o)
    q = ob.f["seq"]
    if name == "add":
        r = M.unhashable(interp, st, args[0], fr, node)
        if r is not None:
            return [(st, r)]
        interp.mutated(st, o, "add", fr, node, args[0])
        out = []
        for x, b in M.in_seq(interp, st, q, args[0], fr, node):
            if isinstance(b, Raise):
                out.append((x, b))
                continue
            if not b:
                x.put(o, x.obj(o).set(seq=S("list", norm_parts(x.num, q.parts + (One(args[0]),)))))
            out.append((x, NONE))
        return out
    if name in ("union", "update", "intersection", "difference", "symmetric_difference", "intersection_update", "difference_update"):
        upd = name.endswith("update")

        def f(x, w):
            cur = x.obj(o).f["seq"]
            ws = S("list", M.token_parts(w))
            ex = sets.algebra(interp, x, "union" if name == "update" else name.replace("_update", ""), cur, ws, fr, node)
            if ex is not None:
                r = S("list", [One(e) for e in ex])
            elif name in ("union", "update"):
                if not ws.parts:
                    r = cur
                elif not cur.parts and M.explicit(ws) is not None and len(ws.parts) <= 1:
                    r = ws
                else:
                    both = S("list", norm_parts(x.num, cur.parts + ws.parts))
                    b = derived("set", (both,), "list", labels_of(both, x), None, "tmpl", elem_templates(interp, x, both.parts))
                    r = b.seq()
            else:
                ts = elem_templates(interp, x, cur.parts)
                b = derived("set." + name, (cur, ws), "list", labels_of(cur, x), None, "tmpl", ts)
                r = b.seq()
            if upd:
                interp.mutated(x, o, name, fr, node)
                x.put(o, x.obj(o).set(seq=r))
                return [(x, NONE)]
            return [(x, x.alloc(Obj("set", None, {"seq": r}, interp.owner)))]

        if not args:
            return [(st, NONE if upd else st.alloc(Obj("set", None, {"seq": q}, interp.owner)))]
        if len(args) > 1 and not any(type(a).__name__ == "Star" for a in args):
            # one after the other
            cur = set_method(interp, st, o, name, args[:1], kw, fr, node)
            for a in args[1:]:
                cur = [z for y, v in cur for z in ([(y, v)] if isinstance(v, Raise) else set_method(interp, y, o if upd else v, name, [a], kw, fr, node))]
            return cur
        return each_seq(interp, st, args[0], fr, node, f)
    if name in ("discard", "remove", "pop", "clear"):
        interp.mutated(st, o, name, fr, node)
        if name == "clear":
            st.put(o, st.obj(o).set(seq=S("list")))
            return [(st, NONE)]
        ex = sets.known(interp, st, q, fr, node)
        if ex is not None and name != "pop":
            ms = [sets.member(interp, st, [e], args[0], fr, node) for e in ex]
            if None not in ms:
                if name == "remove" and True not in ms:
                    return [(st, interp.exc(st, "KeyError", node, fr))]
                st.put(o, st.obj(o).set(seq=S("list", [One(e) for e, m in zip(ex, ms) if not m])))
                return [(st, NONE)]
        if name == "pop" and ex is not None and len(ex) < 2:
            if not ex:
                return [(st, interp.exc(st, "KeyError", node, fr))]
            st.put(o, st.obj(o).set(seq=S("list")))
            return [(st, ex[0])]
        ts = elem_templates(interp, st, q.parts)
        st.put(o, st.obj(o).set(seq=fresh_base("list", labels_of(q, st), ts, "set").seq()))
        if name == "pop":
            st.event("order", "set.pop", o, interp.where(node, fr))
        return [(st, NONE if name != "pop" else interp.fresh("set.pop", labels=labels_of(q, st)))]
    if name == "copy":
        return [(st, st.alloc(Obj("set", None, {"seq": q}, interp.owner)))]
    if name == "__len__":
        return [(st, I(slen(q)))]
    if name in ("issubset", "issuperset", "isdisjoint"):
        def rel(x, w):
            r = sets.relation(interp, x, name, q, S("list", M.token_parts(w)), fr, node)
            if r is not None:
                return [(x, C(r))]
            return [(x, U("set." + name, (q,) + tuple(a for a in args if not isinstance(a, Ref)), "bool", labels_of(q, x)))]

        if len(args) == 1 and M.seqv(interp, st, args[0]) is not None:
            return each_seq(interp, st, args[0], fr, node, rel)
        return [(st, U("set." + name, (q,) + tuple(a for a in args if not isinstance(a, Ref)), "bool", labels_of(q, st)))]
    st.vague("set." + name)
    return [(st, interp.fresh("set." + name, labels={"unk"}))]


def dict_method(interp, st, o, name, args, kw, fr, node):
    ob = st.obj(o)
    if name == "get":
        default = args[1] if len(args) > 1 else NONE
        r = M.unhashable(interp, st, args[0], fr, node)
        if r is not None:
            return [(st, r)]
        return [(s, v if v is not None else default) for s, v in M.dict_find(interp, st, o, args[0], fr, node)]
    if name in ("items", "keys", "values"):
        q = M.dict_view(interp, st, o, name)
        return [(st, st.alloc(Obj("list", None, {"seq": S("list", q.parts), "view": TRUE}, "local")))]
    if name == "pop":
        return M.dict_del(interp, st, o, args[0], fr, node, args[1] if len(args) > 1 else None)
    if name == "setdefault":
        default = args[1] if len(args) > 1 else NONE
        out = []
        for s, v in M.dict_find(interp, st, o, args[0], fr, node):
            if v is not None:
                out.append((s, v))
            else:
                for t, r in M.dict_set(interp, s, o, args[0], default, fr, node):
                    out.append((t, r if isinstance(r, Raise) else default))
        return out
    if name == "update":
        interp.mutated(st, o, "update", fr, node)
        cur = [(st, NONE)]
        if args:
            cur = M.dict_update(interp, st, o, args[0], fr, node)
        for s, _ in cur:
            for k, v in kw.items():
                M.dict_set(interp, s, o, C(k), v, fr, node, quiet=True)
        return cur
    if name == "clear":
        interp.mutated(st, o, "clear", fr, node)
        st.put(o, st.obj(o).set(ents=(), rest=NONE))
        return [(st, NONE)]
    if name == "copy":
        return [(st, st.alloc(Obj("dict", None, dict(ob.f), interp.owner)))]
    if name == "__len__":
        return [(st, I(slen(M.dict_view(interp, st, o, "keys"))))]
    if name == "__contains__":
        return [(s, C(v is not None)) for s, v in M.dict_find(interp, st, o, args[0], fr, node)]
    if name == "__getitem__":
        return interp.getitem(st, o, args[0], fr, node)
    if name == "__setitem__":
        return interp.setitem(st, o, args[0], args[1], fr, node)
    if name == "popitem":
        interp.mutated(st, o, "popitem", fr, node)
        st.vague("dict.popitem")
        return [(st, interp.fresh("popitem", labels={"unk"}))]
    st.vague("dict." + name)
    return [(st, interp.fresh("dict." + name, labels={"unk"}))]
