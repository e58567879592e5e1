"""C29: every option combination works."""
from .cli import *

EXPLAIN = (
    "Abstract interpretation of every command line tool of the project, for every combination of its declared options (mutually exclusive ones never together), with opaque file "
    "contents, names and model diffs and merges. No path may raise: an option that is consulted but not declared for the tool, a missing function, wrong arguments or a value of "
    "the wrong type all do. The tokenizer that encodes and decodes must be the one the options name, the right files must be compared, the line view must be used exactly with "
    "--show-lines or --git-compatible, conflict markers exactly with --git-compatible, struck out text only with --strikeout and only in diffs, no colour tags in a file with --git-compatible, both diffs exactly with --diff and "
    "before the merge, and every markup tag that is closed must have been opened in the same call."
)


def check(ctx):
    it = ctx.interp()
    c = Cli(ctx)
    jobs = []
    for tool in c.entries:
        k = {"gaspra-diff": 2, "gaspra-torture": 8}.get(tool, 4)
        jobs += [("options", part, tool, j, k) for j in range(k)]
    ctx.parallel(jobs)


def part(ctx, tool, j, k):
    c = Cli(ctx)
    it = c.it
    toks = dict(c.toks)
    for combo in c.combinations(tool)[j::k]:
        for st, r in c.run(tool, combo):
            one(ctx, c, it, toks, tool, combo, st, r)
            if len(ctx.violations) > 5:
                return
    ctx.absorb(it)


def one(ctx, c, it, toks, tool, combo, st, r):
    where = where_fn(c.entries[tool])
    on = {n for n, v in combo.items() if v}

    def bad(rule, what, msg, w=where):
        if exact(st):
            ctx.violation(rule, f"{tool}:{what}", f"{tool} with {show(combo)}: {msg}", w, path_of(st))
        else:
            ctx.undecided(rule, f"{tool}:{what}", msg)

    if isinstance(r, Raise):
        w, name, msg = raise_where(it, st, r)
        name = name or it.exc_name(st, r)
        if name == "SystemExit":
            ctx.undecided("completes", tool, "a path ends the program")
            return
        bad("completes", f"{name} {msg}", f"{name}: {msg}", w or where)
        return
    ctx.good("completes", f"{tool}: {show(combo)}")

    # the tokenizer
    want = "SymbolTokenizer" if "--words" in on else "LineTokenizer" if "--lines" in on else "CharTokenizer"
    if want in toks:
        users = set()
        for e in st.events():
            if e[0] in ("tok.encode", "tok.decode"):
                o = st.obj(e[1])
                if o.cls != toks[want]:
                    bad("tokenizer", f"{e[0]} {o.cls.name}", f"{o.cls.name} is used instead of {want}", "src/" + e[3])
                users.add(e[1])
        if len(users) == 1:
            ctx.good("tokenizer", f"{tool} {want}")
        elif not users:
            ctx.undecided("tokenizer", tool, "no tokenizer is used")
        else:
            bad("tokenizer", "several", f"{len(users)} tokenizers with different numberings are used")

    # the files compared
    jobs = [("diff" if e[0] == "diffed" else "merge", e[1]) for e in st.events() if e[0] in ("diffed", "merged")]
    for what, key in jobs:
        names = [arg_name(contents_of(it, st, q)) if contents_of(it, st, q) is not None else None for q in key]
        ins = c.inputs(tool)
        if tool == "gaspra-diff" and len(ins) == 2:
            good = what == "diff" and names == ["original", "modified"]
        elif tool == "gaspra-merge" and len(ins) == 3:
            good = names == ["parent", "into_branch_head", "from_branch_head"] if what == "merge" else names in (["parent", "into_branch_head"], ["parent", "from_branch_head"])
        else:
            continue
        if good:
            ctx.good("files", f"{tool} {what}")
        elif None in names:
            ctx.undecided("files", f"{tool}:{what}", "the texts compared are not whole file contents")
        else:
            bad("files", f"{what} {names}", f"a {what} of {', '.join(names)}")
    kinds = [w for w, _ in jobs]
    if tool == "gaspra-diff":
        expect = {"diff": 1, "merge": 0}
    else:
        expect = {"diff": 2 if "--diff" in on else 0, "merge": 1}
    for w, n in expect.items():
        got = len({k for x, k in jobs if x == w})
        if got != n:
            bad("sections", f"{w}s {got}", f"{got} {w}s are made instead of {n}")
        else:
            ctx.good("sections", f"{tool} {w} {n}")

    # what is displayed
    lits, order, views, vague = [], [], set(), False
    last = None
    struck, pending = set(), False
    for kind, writer, text, kw, w in outputs(st):
        for t in [text] if kind == "file" else list(text):
            depth = 0
            for what, v, n in merged_lits(flatten(it, st, t)):
                if what == "other":
                    vague = True
                elif what == "lit":
                    lits.append(v)
                    if "strike" in v:
                        pending = True
                    if kind == "file" and "--git-compatible" in on and "--strikeout" not in on:
                        if tags(v):
                            bad("colour", show_where(w), f"the markup {tags(v)} is written to a file with --git-compatible", "src/" + w)
                        else:
                            ctx.good("colour", f"{tool} file")
                    if kind == "console.print" and n == 0 and kw.get("markup") != FALSE:
                        for tag in tags(v):
                            if tag.startswith("/"):
                                depth -= 1
                                if depth < 0:
                                    bad("tags", show_where(w), f"the tag [{tag}] closes nothing in the text printed by one call, which fails", "src/" + w)
                                    depth = 0
                            else:
                                depth += 1
                elif what == "text":
                    o = origin(v)
                    if o is not None:
                        if pending:
                            struck.add(o[0])
                        pending = False
                        views.add(v.base.op == "line start" or v.base.op == "line end")
                        if last != o:
                            order.append(o)
                            last = o
    if vague:
        ctx.undecided("display", tool, "not known what is displayed")
        return
    if not vague:
        ctx.good("tags", tool)
    for w, n in expect.items():
        got = len({o for o in order if o[0] == w})
        if got != n:
            bad("sections", f"displayed {w}s {got}", f"{got} {w}s are displayed instead of {n}")
    line = True in views
    want_lines = wants_lines(combo)
    if line != want_lines:
        bad("view", "lines" if line else "plain", "the line view is used" if line else "the line view is not used")
    else:
        ctx.good("view", f"{tool} {'lines' if line else 'plain'}")
    if tool != "gaspra-diff":
        ks = [o[0] for o in order]
        if ks and "merge" in ks and "diff" in ks[ks.index("merge"):]:
            bad("sections", "order", "the diffs are not all displayed before the merge")
    text = "\n".join(lits)
    markers = [m for m in ("<<<<<<<", "=======", ">>>>>>>") if m in text]
    git = "--git-compatible" in on
    if git and len(markers) < 3 or not git and markers:
        bad("markers", "git" if git else "other", f"conflict markers {markers} are displayed")
    else:
        ctx.good("markers", f"{tool} {'git' if git else 'colour'}")
    # struck out text
    if struck and "--strikeout" not in on:
        bad("strikeout", "unwanted", "text is struck out without --strikeout")
    elif "merge" in struck:
        bad("strikeout", "merge", "text of a merge is struck out")
    elif "--strikeout" in on and not git and "diff" in {o[0] for o in order} and not struck:
        bad("strikeout", "missing", "nothing is struck out with --strikeout")
    else:
        ctx.good("strikeout", f"{tool} {'on' if '--strikeout' in on else 'off'}")


def tags(v):
    """Markup tags in a constant of the program."""
    import re

    return [m for b, m in re.findall(r"(\\*)\[([a-z#/@][^\[\]]*?|/)\]", v) if len(b) % 2 == 0]


def show_where(w):
    return w.rsplit(" in ", 1)[-1]
