"""C28: inputs are read before the output file is touched; files are closed."""
from .cli import *

EXPLAIN = (
    "Abstract interpretation of every command line tool in which every operation outside the program (opening, reading, writing, printing) as well as the tokenizer, the diff, the "
    "merge and the line view may fail at every call. On every path: nothing is opened for reading or read once a file has been opened for writing, every file named on the command "
    "line as an input is read completely before that, and every file that was opened is closed when the tool ends, normally or not."
)


def check(ctx):
    it = ctx.interp()
    c = Cli(ctx)
    jobs = []
    for tool in c.entries:
        for out in (False, True):
            for rest in range(4):
                jobs.append(("files", part, tool, out, rest))
    ctx.parallel(jobs)


class Failing(Cli):
    """The models fail, too."""

    def risky(self, name, h):
        def f(it, st, fn, args, kw, fr, node):
            bad = st.copy()
            bad.event("fails", name, it.where(node, fr))
            return [(bad, it.exc(bad, "ValueError", node, fr, "failure of " + name))] + (h(it, st, fn, args, kw, fr, node) or [])

        return f

    def __init__(self, ctx):
        super().__init__(ctx, limit_s=200)
        it = self.it
        it.max_states = 20000
        for n in ("encode", "decode"):
            for _, c in self.toks:
                k = id(it.lookup(it.init, c, n).node)
                it.overrides[k] = self.risky(n, getattr(self, n))
        it.override("gaspra.changesets", "diff_token_sequences", self.risky("diff", self.x_diff))
        it.override("gaspra.merge", "merge_token_sequence", self.risky("merge", self.x_merge))
        it.override("gaspra.diff_to_lines", "to_line_diff", self.risky("line view", self.x_lines))
        it.ext_may_raise = True
        it.undecodable = True


def writing(mode):
    return isinstance(mode, C) and isinstance(mode.v, str) and any(x in mode.v for x in "wax+")


def part(ctx, tool, out, rest):
    c = Failing(ctx)
    it = c.it
    ends = set()
    for combo in c.combinations(tool)[rest::4]:
        if combo.get("--output", False) != out or sum(bool(combo.get(n)) for n in ("--words", "--lines", "--characters")) > 0:
            continue
        for st, r in c.run(tool, combo):
            one(ctx, c, it, tool, combo, st, r)
            if len(ctx.violations) > 5:
                return
    ctx.absorb(it)


def one(ctx, c, it, tool, combo, st, r):
    where = where_fn(c.entries[tool])
    failed = [e for e in st.events() if e[0] == "fails"]
    how = f"when {failed[-1][1]} fails at {failed[-1][2]}" if failed else "when nothing fails"

    def bad(rule, what, msg, w=where):
        if exact(st):
            ctx.violation(rule, f"{tool}:{what}", f"{tool} with {show(combo)}: {msg} {how}", w, path_of(st))
        else:
            ctx.undecided(rule, f"{tool}:{what}", msg)

    opened, closed, written = {}, set(), None
    read = set()
    for e in st.events():
        if e[0] == "open":
            opened[e[1]] = e
            if writing(e[3]):
                written = written or e
            elif written is not None:
                bad("before", f"open {fn_of(e[5])}", f"{describe(e[2])} is opened for reading after the output file was opened", "src/" + e[5])
        elif e[0] == "read":
            if written is not None:
                bad("before", f"read {fn_of(e[2])}", "an input is read after the output file was opened", "src/" + e[2])
            else:
                ctx.good("before", f"{tool} {fn_of(e[2])}")
            read.add(bare_name(opened[e[1]][2]) if e[1] in opened else None)
        elif e[0] == "close":
            closed.add(e[1])
    if written is not None:
        names = {n for n in c.inputs(tool)}
        if tool != "gaspra-torture" and not names <= read:
            bad("before", "unread", f"the output file is opened although {', '.join(sorted(names - read))} has not been read")
        n = sum(1 for e in st.events() if e[0] == "open" and writing(e[3]))
        if n > 1:
            bad("once", "output", "the output file is opened several times")
        else:
            ctx.good("once", tool)
    for o, e in opened.items():
        if o not in closed:
            bad("closed", f"{'output' if writing(e[3]) else 'input'} {fn_of(e[5])}", f"{describe(e[2])} is not closed", "src/" + e[5])
        else:
            ctx.good("closed", f"{tool} {fn_of(e[5])} {'fails' if failed else 'normal'}")


def bare_name(v):
    return arg_name(v)


def fn_of(w):
    return w.rsplit(" in ", 1)[-1]
