"""C26: manifests store every file against its counterpart in the base."""
import ast

from .util import *
from ..report import Anchor

TECHNIQUE = "abstract interpretation of the source with opaque tags and contents and a model of the version store"
EXPLAIN = (
    "Adding and reading manifests is evaluated by abstract interpretation on a model of the version store: names, tags and contents are opaque, each file of the manifest is unchanged, changed, "
    "already stored, added or missing in the base. After every path, the calls made on the store have to be exactly: each tag of the manifest that was not stored yet, once, with the "
    "contents recorded for it, on the tag the base manifest names for a file name that has this tag (or on nothing if there is none), and after all of them the manifest itself on the base manifest. Reading back a stored manifest "
    "has to give the same names and tags; JSON and the text codec are terms that cancel only if the writing and the reading side agree."
)

MODEL = '''
class ModelVersions:
    def add(self, tag, version, existing_head=None): pass
    def get(self, tag): pass
    def __contains__(self, tag): pass
    def version_info(self, tag): pass
'''

# name -> (tag in the base or None, tag in the manifest or None)
SITUATIONS = [
    ("an empty manifest without a base", None, {}),
    ("a manifest without a base", None, {"f": "f0", "g": "g0"}),
    ("a manifest without a base, one file stored", None, {"f": "old", "g": "g0"}),
    ("a manifest without a base, the same tag twice", None, {"f": "f0", "g": "f0"}),
    ("a changed file", {"f": "f0"}, {"f": "f1"}),
    ("an unchanged file", {"f": "f0"}, {"f": "f0"}),
    ("a changed and an unchanged file", {"f": "f0", "g": "g0"}, {"g": "g0", "f": "f1"}),
    ("an added file", {"f": "f0"}, {"f": "f1", "g": "g1"}),
    ("an added file before the others", {"f": "f0"}, {"g": "g1", "f": "f1"}),
    ("a missing file", {"f": "f0", "g": "g0"}, {"g": "g1"}),
    ("all files replaced", {"f": "f0"}, {"g": "g1"}),
    ("an empty base", {}, {"f": "f0"}),
    ("an empty manifest", {"f": "f0"}, {}),
    ("two changed files in another order", {"f": "f0", "g": "g0"}, {"g": "g1", "f": "f1"}),
    ("a file that is stored elsewhere", {"f": "f0"}, {"f": "old"}),
    ("two files changed to the same contents", {"f": "f0", "g": "g0"}, {"f": "f1", "g": "f1"}),
    ("files that change places", {"f": "f0", "g": "g0"}, {"f": "g0", "g": "f0"}),
    ("three files", {"f": "f0", "g": "g0", "h": "h0"}, {"f": "f1", "g": "g0", "h": "h1"}),
]


class Model:
    def __init__(self, ctx):
        self.ctx = ctx
        it = self.it = ctx.interp(load=False)
        it.trees["gaspra.model_"] = ast.parse(MODEL)
        it.load_all(("gaspra.dot_dump",))
        it.owner = "local"
        it.unroll = 24
        it.max_states = 4000
        self.cls = it.attr_of("gaspra.model_", "ModelVersions")
        for n in ("add", "get", "__contains__", "version_info"):
            it.overrides[id(it.lookup(it.init, self.cls, n).node)] = getattr(self, "v_" + n.strip("_"))
        self.fr = top_frame(it)
        st = self.st = it.start()
        names = ["f0", "f1", "g0", "g1", "h0", "h1", "old", "base", "new", "stranger"]
        self.tags = {n: U("tag:" + n, (), None) for n in names}
        self.names = {n: U("name:" + n, (), None) for n in "fgh"}
        for group in (self.tags, self.names):
            for a in group.values():
                st.facts[("none", a)] = False
                for b in group.values():
                    if a is not b:
                        st.facts[M.eqkey(a, b)] = False
        self.back = {v: k for k, v in list(self.tags.items()) + list(self.names.items())}
        st.facts[("V",)] = ()

    def args(self, f, args, kw):
        names = [a.arg for a in f.node.args.args]
        r = dict(zip(names, args))
        r.update(kw)
        return r

    def stored(self, st, t, fr, node, k):
        out, pend = [], [st]
        for n, v in st.facts[("V",)]:
            nxt = []
            for s in pend:
                for x, r in M.eq(self.it, s, n, t, fr, node):
                    (out.extend(k(x, v)) if r is True else nxt.append(x))
            pend = nxt
        for s in pend:
            out += k(s, None)
        return out

    def v_add(self, it, st, f, args, kw, fr, node):
        v = self.args(f, args, kw)
        st.event("add", v["tag"], v["version"], v.get("existing_head", NONE), it.where(node, fr))
        st.facts[("V",)] += ((v["tag"], v["version"]),)
        return [(st, NONE)]

    def v_get(self, it, st, f, args, kw, fr, node):
        return self.stored(st, self.args(f, args, kw)["tag"], fr, node, lambda s, v: [(s, NONE if v is None else v)])

    def v_contains(self, it, st, f, args, kw, fr, node):
        return self.stored(st, self.args(f, args, kw)["tag"], fr, node, lambda s, v: [(s, FALSE if v is None else TRUE)])

    def v_version_info(self, it, st, f, args, kw, fr, node):
        return self.stored(st, self.args(f, args, kw)["tag"], fr, node, lambda s, v: [(s, NONE if v is None else U("info", (v,)))])

    def mapping(self, st, d, owner="input"):
        ents = tuple((self.names[k], self.tags[v]) for k, v in d.items())
        return st.alloc(Obj("dict", None, {"ents": ents, "rest": NONE}, owner))

    def contents(self, t):
        return derived("content", (self.tags[t],), "bytes", name=f"content({t})").seq()

    def store(self, st, what, rule):
        """The model object."""
        return st.alloc(Obj("inst", self.cls, {}, "local"))


def doc(m, st, d, f):
    """The stored form of a manifest."""
    outs = [(s, v) for s, v in m.it.call(st.copy(), f, [m.mapping(st, d)], {}, m.fr, None)]
    return outs


def entries(it, st, v):
    if isinstance(v, Ref) and st.obj(v).kind == "dict" and st.obj(v).f["rest"] in (NONE, None):
        return {k: x for k, x in st.obj(v).f["ents"] if x is not None}
    return None


def decided(s, *vs):
    """JSON put together by hand is not decided if its pieces are escaped."""
    if not exact(s, *vs):
        return False
    for v in vs:
        if isinstance(v, U) and v.op == "json.loads":
            q = as_seq(v.args[0])
            if q is None:
                return False
            pieces = [p for p in q.parts if not isinstance(p, Lit)]
            if len(q.parts) > 1 and all(isinstance(p, Sl) and p.base.op and p.base.op.startswith("json.dumps") for p in pieces):
                return False
    return True


def reading(ctx, k):
    what, base_, man = SITUATIONS[k]
    m = Model(ctx)
    it = m.it
    add = ctx.fn(it, "manifest", "add_manifest")
    get = ctx.fn(it, "manifest", "get_manifest")
    write, read = ctx.fn(it, "manifest", "manifest_to_doc"), ctx.fn(it, "manifest", "doc_to_manifest")
    st = m.st
    vs = st.alloc(Obj("inst", m.cls, {}, "local"))
    bad = lambda s, rule, key, msg, w, *vals: (
        ctx.violation(rule, f"{what}:{key}", f"{what}: {msg}", w, path_of(s)) if decided(s, *vals) and feasible(s) else ctx.undecided(rule, f"{what}:{key}", msg))
    # the document
    arg = m.mapping(st, man)
    for s, d in it.call(st.copy(), write, [arg], {}, m.fr, None):
        if isinstance(d, Raise):
            bad(s, "document", "raise", f"writing fails with {it.exc_name(s, d)}", where_fn(write))
            continue
        for s, v in it.call(s, read, [d], {}, m.fr, None):
            if not feasible(s):
                continue
            e = entries(it, s, v) if not isinstance(v, Raise) else None
            if e == dict(entries(it, st, arg)):
                ctx.good("document", what)
            else:
                bad(s, "document", "differs", "the document does not read back as the same names and tags" + (f" ({it.exc_name(s, v)})" if isinstance(v, Raise) else f" but as {describe(v)}"), where_fn(read), *([v] if not isinstance(v, Raise) else []))
    # adding
    store = [(m.tags["old"], m.contents("old"))]
    base_doc = None
    if base_ is not None:
        barg = m.mapping(st, base_)
        outs = [(s, d) for s, d in it.call(st, write, [barg], {}, m.fr, None) if not isinstance(d, Raise)]
        if len(outs) != 1:
            ctx.undecided("adding", what, "the document of the base is not decided")
            return
        st, base_doc = outs[0]
        store += [(m.tags[t], m.contents(t)) for t in dict.fromkeys(base_.values()) if t != "old"]
        store.append((m.tags["base"], base_doc))
    st.facts[("V",)] = tuple(store)
    arg = m.mapping(st, man)
    contents = st.alloc(Obj("dict", None, {"ents": tuple((m.tags[t], m.contents(t)) for t in m.tags if t not in ("base", "new")), "rest": NONE}, "input"))
    before = {t for t, _ in store}
    outs = it.call(st, add, [m.tags["new"], arg, vs, contents, m.tags["base"] if base_ is not None else NONE], {}, m.fr, None)
    w = where_fn(add)
    for s, r in outs:
        if not feasible(s):
            continue
        if isinstance(r, Raise):
            rw, x, _ = raise_where(it, s, r)
            bad(s, "adding", x, f"adding fails with {x}", rw)
            continue
        calls = [e for e in s.events() if e[0] == "add"]
        expected = {m.tags[t] for t in man.values()} - before
        seen = set()
        ok = True
        for e in calls[:-1] if calls and calls[-1][1] == m.tags["new"] else calls:
            t = m.back.get(e[1])
            if e[1] == m.tags["new"]:
                bad(s, "order", "manifest first", "the manifest is stored before its files", "src/" + e[4])
                ok = False
            elif e[1] not in expected or e[1] in seen:
                bad(s, "adding", f"{t} again", f"{t or describe(e[1])} is stored although it is stored already or not part of the manifest", "src/" + e[4], e[1])
                ok = False
            else:
                heads = [m.tags[(base_ or {})[n]] if n in (base_ or {}) else NONE for n in man if man[n] == t]
                v = as_seq(e[2])
                if v is None or not seq.same(s.num, v, m.contents(t)):
                    bad(s, "contents", t, f"{t} is stored with {describe(e[2])}", "src/" + e[4], e[2])
                    ok = False
                if e[3] not in heads:
                    bad(s, "base", t, f"{t} is stored on {m.back.get(e[3], describe(e[3]))} instead of {' or '.join(m.back.get(h, 'nothing') for h in heads)}", "src/" + e[4], e[3])
                    ok = False
            seen.add(e[1])
        for t in sorted(m.back[t] for t in expected - seen):
            bad(s, "adding", f"{t} missing", f"{t} is not stored", w)
            ok = False
        if not calls or calls[-1][1] != m.tags["new"]:
            if m.tags["new"] not in seen:
                bad(s, "manifest", "missing", "the manifest is not stored", w)
            continue
        e = calls[-1]
        want = m.tags["base"] if base_ is not None else NONE
        if e[3] != want:
            bad(s, "manifest", "base", f"the manifest is stored on {m.back.get(e[3], describe(e[3]))} instead of {m.back.get(want, 'nothing')}", "src/" + e[4], e[3])
            ok = False
        if ok:
            ctx.good("adding", what, len(calls))
        for x, v in it.call(s, get, [vs, m.tags["new"]], {}, m.fr, None):
            if not feasible(x):
                continue
            g = entries(it, x, v) if not isinstance(v, Raise) else None
            if g == {m.names[n]: m.tags[t] for n, t in man.items()}:
                ctx.good("reading", what)
            else:
                bad(x, "reading", "differs", f"the manifest reads back as {describe(v) if not isinstance(v, Raise) else it.exc_name(x, v)}", where_fn(get), *([v] if not isinstance(v, Raise) else []))
    ctx.absorb(it)


def check(ctx):
    ctx.parallel([("manifest", reading, k) for k in range(len(SITUATIONS))])
