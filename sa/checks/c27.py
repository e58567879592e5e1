"""C27: displayed text is escaped exactly once and completely."""
from .cli import *

EXPLAIN = (
    "Abstract interpretation of every command line tool, for every combination of its options (up to two at once for the torture test), on model streams in which unchanged text, both sides of changes, one empty side and "
    "line-view changes with nested changes are opaque texts. Every text handed to the console or written to the output file is taken apart: on the console each piece that "
    "comes from an input or a file name must be inside exactly one call of rich.markup.escape and no constant of the program inside one may contain markup; "
    "in a file nothing is escaped. The pieces displayed must be, in order, all pieces of the model streams, the first side of a change before the second; "
    "with --git-compatible the markers around them must name the files the sides come from."
)


def check(ctx):
    it = ctx.interp()
    c = Cli(ctx)
    jobs = []
    for tool in c.entries:
        n = len(c.combinations(tool))
        k = 2 if tool != "gaspra-torture" else 8
        jobs += [("escape", part, tool, j, k) for j in range(k)]
    ctx.parallel(jobs)


def part(ctx, tool, j, k):
    c = Cli(ctx)
    it = c.it
    for combo in c.some_combinations(tool, j, k):
        # a single change first: code that distinguishes texts has many paths
        for v in VARIANTS:
            c.variants = (v,)
            n = run(ctx, c, tool, combo)
            if ctx.violations:
                return
        if n <= 64:
            c.variants = VARIANTS
            run(ctx, c, tool, combo)
    ctx.absorb(it)


def run(ctx, c, tool, combo):
    it = c.it
    where = where_fn(c.entries[tool])
    to_file = combo.get("--output", False)
    outs_ = c.run(tool, combo)
    for st, r in outs_:
        if isinstance(r, Raise):
            ctx.undecided("escape", f"{tool}:fails", "a run does not come to its end (see C29)")
            continue

        def bad(rule, what, msg, w=where):
            if exact(st):
                ctx.violation(rule, f"{tool}:{what}", f"{tool} with {show(combo)}: {msg}", w, path_of(st))
            else:
                ctx.undecided(rule, f"{tool}:{what}", msg)

        got, vague = {}, False
        seq_ = []
        outs = outputs(st)
        if not outs:
            bad("shown", "nothing", "nothing is displayed")
        for kind, writer, text, kw, w in outs:
            texts = [text] if kind == "file" else list(text)
            plain = kind == "file" or kind == "console.out" or kw.get("markup") == FALSE
            for t in texts:
                fl = flatten(it, st, t)
                seq_ += fl
                for what, v, n in fl:
                    if what == "other":
                        vague = True
                        ctx.undecided("escape", f"{tool}:{w}", f"not known what is displayed: {describe(v)}")
                        continue
                    if what == "lit":
                        if n and not plain and "[" in v:
                            bad("escape", f"markup in {show_fn(w)}", f"markup of the program is escaped: {v!r}", "src/" + w)
                        continue
                    site = f"{show_fn(w)} {what}"
                    if plain and n:
                        bad("escape", f"file {site}", f"{what} is escaped although it is not displayed as markup: {describe(v)}", "src/" + w)
                    elif not plain and n == 0:
                        bad("escape", f"raw {site}", f"{what} is displayed without being escaped: {describe(v)}", "src/" + w)
                    elif n > 1:
                        bad("escape", f"twice {site}", f"{what} is escaped {n} times: {describe(v)}", "src/" + w)
                    else:
                        ctx.good("escape", f"{tool} {site}")
                    if what == "text":
                        o = origin(v)
                        if o is None:
                            vague = True
                        got.setdefault(o, []).append(v)
        if vague:
            continue
        if combo.get("--git-compatible"):
            names(ctx, it, st, tool, combo, seq_, bad)
        wanted = {}
        for e in st.events():
            if e[0] in ("diffed", "merged"):
                what = "diff" if e[0] == "diffed" else "merge"
                k2 = tuple(x for x in e[1])
                wanted[(what, k2)] = (what, e[1])
        shown_lines = any(p.base.op == "line start" for ps in got.values() for p in ps)
        for o, (what, key) in wanted.items():
            if o not in got:
                bad("shown", f"{what} missing", f"a {what} is computed but not displayed")
                continue
            exp = c.expected(st, what, key, shown_lines)
            if got[o] != exp:
                bad("shown", what, f"the pieces of a {what} are not all displayed in order: {difference(got[o], exp)}")
            else:
                ctx.good("shown", f"{tool} {what} {'lines' if shown_lines else 'plain'} {'file' if to_file else 'console'}", len(exp))
        for o in got:
            if o not in wanted:
                ctx.undecided("shown", f"{tool}:{o and o[0]}", "pieces of something else are displayed")
    return len(outs_)


def names(ctx, it, st, tool, combo, xs, bad):
    """Each marker names the file its side comes from."""
    xs = merged_lits(xs)
    cur = []  # file names at markers, then the pieces that follow
    for k, (what, v, n) in enumerate(xs):
        if what == "lit":
            nxt = xs[k + 1] if k + 1 < len(xs) else None
            tail = v.rstrip(" ")
            for mark in ("<<<<<<<", ">>>>>>>"):
                if tail.endswith(mark):
                    cur.append((mark, nxt))
        elif what == "text":
            o = origin(v)
            if o is not None:
                cur.append(("text", o))
    # every conflict: marker, texts, marker
    last = None
    opened = None
    for what, x in cur:
        if what == "<<<<<<<":
            opened = x
            last = None
        elif what == "text":
            last = x
        elif opened is not None and last is not None:
            kind, key = last
            files = [contents_of(it, st, q) for q in key]
            if any(f is None for f in files):
                ctx.undecided("names", f"{tool}:{kind}", "the files compared are not known")
                continue
            into, frm = (files[1], files[0]) if kind == "diff" else (files[1], files[2])
            for y, f, m in ((opened, into, "<<<<<<<"), (x, frm, ">>>>>>>")):
                if y is None or y[0] != "name" or not same_name(y[1], f):
                    bad("names", f"{kind} {m}", f"{m} of a {kind} does not name {describe(f)} but {describe(y[1]) if y else 'nothing'}")
                else:
                    ctx.good("names", f"{tool} {kind} {m}")


def bare(v):
    if isinstance(v, S) and len(v.parts) == 1:
        v = v.parts[0]
    if isinstance(v, Sl):
        return bare(v.base.args[0]) if v.base.op in ("val", "os.path.basename") else v
    return v


def same_name(a, b):
    return bare(a) == bare(b)


def show_fn(w):
    return w.rsplit(" in ", 1)[-1]


def difference(got, exp):
    for k in range(max(len(got), len(exp))):
        a = got[k] if k < len(got) else None
        b = exp[k] if k < len(exp) else None
        if a != b:
            return f"at place {k} {describe(a)[:70] if a else 'nothing'} is displayed instead of {describe(b)[:70] if b else 'nothing'}"
    return "equal"
