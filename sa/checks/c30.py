"""C30: files are read and written without altering the text."""
from .cli import *

EXPLAIN = (
    "Abstract interpretation of every command line tool, for every combination of its options (up to two at once for the torture test) and with input files that may or may not decode. What reaches the tokenizer must be "
    "exactly the whole contents of a file named on the command line, opened in text mode with a constant encoding, no lossy error handler and newline=\"\" (or in binary mode and "
    "decoded), so that nothing is translated and nothing depends on the locale; the output file must be opened in the same way. Everything displayed on the console must be printed "
    "without an added line end, without emoji replacement, highlighting, wrapping or cropping."
)


def check(ctx):
    it = ctx.interp()
    c = Cli(ctx)
    jobs = []
    for tool in c.entries:
        k = {"gaspra-diff": 2, "gaspra-torture": 8}.get(tool, 4)
        jobs += [("text", part, tool, j, k, False) for j in range(k)]
        jobs.append(("text", part, tool, 0, k, True))
    ctx.parallel(jobs)


def part(ctx, tool, j, k, undecodable):
    c = Cli(ctx)
    it = c.it
    it.undecodable = undecodable
    combos = c.some_combinations(tool, j, k)
    if undecodable:
        # the ways to read do not depend on how results are displayed
        combos = [x for x in combos if sum(x.values()) <= 1]
    for combo in combos:
        for st, r in c.run(tool, combo):
            one(ctx, c, it, tool, combo, st, r)
            if len(ctx.violations) > 5:
                return
    ctx.absorb(it)


def const(v):
    """(known, python value)"""
    if v is None or v == NONE:
        return True, None
    if isinstance(v, C):
        return True, v.v
    if isinstance(v, I) and v.lin.const is not None:
        return True, v.lin.const
    if isinstance(v, S) and not v.parts:
        return True, ""
    if isinstance(v, S) and len(v.parts) == 1 and isinstance(v.parts[0], Lit):
        return True, v.parts[0].v
    return False, None


def one(ctx, c, it, tool, combo, st, r):
    where = where_fn(c.entries[tool])

    def bad(rule, what, msg, w=where):
        if exact(st):
            ctx.violation(rule, f"{tool}:{what}", f"{tool} with {show(combo)}: {msg}", w, path_of(st))
        else:
            ctx.undecided(rule, f"{tool}:{what}", msg)

    fallback = any(e[0] == "fails" and e[1] == "decoding" for e in st.events())
    if isinstance(r, Raise):
        if fallback:
            w, name, msg = raise_where(it, st, r)
            bad("decodes", "any", f"{name}: {msg}: a file that is not in the first encoding cannot be read", w or where)
        else:
            ctx.undecided("text", f"{tool}:fails", "a run does not come to its end (see C29)")
        return
    if fallback:
        ctx.good("decodes", tool)
    files = {}
    for e in st.events():
        if e[0] != "open":
            continue
        _, ref, name, mode, opts, w = e
        files[ref] = e
        ok, m = const(mode)
        if not ok:
            ctx.undecided("opened", tool, "the mode of a file is not constant")
            continue
        out = any(x in m for x in "wax+")
        what = f"{'output' if out else 'input'} {fn_of(w)}"
        if "b" in m:
            ctx.good("opened", f"{tool} {what} binary")
            continue
        k1, enc = const(opts.get("encoding"))
        k2, nl = const(opts.get("newline"))
        k3, err = const(opts.get("errors"))
        if not (k1 and k2 and k3):
            ctx.undecided("opened", f"{tool}:{what}", "the way a file is opened is not constant")
            continue
        good = True
        if enc is None or enc == "locale":
            good = bad("opened", f"encoding {what}", f"{describe(name)} is opened in the encoding of the locale", "src/" + w)
        if nl not in (("", "\n") if out else ("", "\n", "\r", "\r\n")):
            good = bad("opened", f"newline {what}", f"{describe(name)} is opened with line ends translated", "src/" + w)
        if str(enc).lower().replace("_", "-") == "utf-8-sig":
            good = bad("opened", f"bom {what}", f"a byte order mark of {describe(name)} is {'added' if out else 'removed'}", "src/" + w)
        if err not in (None, "strict", "surrogateescape", "surrogatepass"):
            good = bad("opened", f"errors {what}", f"{describe(name)} is opened with errors={err!r}, which alters the text", "src/" + w)
        if out and enc is not None and str(enc).lower().replace("_", "-") not in UNIVERSAL:
            good = bad("opened", f"charset {what}", f"{describe(name)} is written in {enc}, which cannot hold every text", "src/" + w)
        if good:
            ctx.good("opened", f"{tool} {what} {enc}")
    encoded = 0
    for e in st.events():
        if e[0] == "tok.encode":
            encoded += 1
            f = contents_of(it, st, e[2])
            if f is not None:
                ctx.good("whole", f"{tool} {fn_of(e[3])}")
            else:
                q = M.seqv(it, st, e[2])
                if q is not None and "unk" not in labels_of(q, st):
                    bad("whole", fn_of(e[3]), f"the text compared is not the whole contents of a file as it was read: {describe(e[2])}", "src/" + e[3])
                else:
                    ctx.undecided("whole", f"{tool}:{fn_of(e[3])}", "not known what is compared")
    if not encoded:
        ctx.undecided("whole", tool, "nothing is encoded")
    consoles = {e[1]: e for e in st.events() if e[0] == "console"}
    for kind, ref, text, kw, w in outputs(st):
        if kind == "file":
            e = files.get(ref)
            if e is None:
                ctx.undecided("console", f"{tool}:{kind}", "text is written to something that was not opened")
                continue
            for what, v, n in flatten(it, st, text):
                if what == "other":
                    ctx.undecided("written", f"{tool}:{fn_of(w)}", f"not known what is written: {describe(v)}")
            ctx.good("written", f"{tool} {fn_of(w)}")
            continue
        if kind == "console.out":
            if const(kw.get("end"))[1] != "" or "end" not in kw:
                bad("console", f"end {fn_of(w)}", "a line end is added to the text", "src/" + w)
            continue
        if kind != "console.print":
            ctx.undecided("console", f"{tool}:{kind}", "another way of printing")
            continue
        ckw = dict(consoles[ref][2]) if ref in consoles else {}
        if len(text) > 1 and const(kw.get("sep"))[1] != "":
            bad("console", f"sep {fn_of(w)}", "the texts printed are separated by spaces", "src/" + w)

        def opt(n, default):
            """print()'s option, or the console's, or the default"""
            v = kw.get(n, ckw.get(n))
            if v is None or v == NONE:
                v = ckw.get(n)
            if v is None or v == NONE:
                return default
            ok, x = const(v)
            return x if ok else "?"

        ok, end = const(kw.get("end", C("\n")))
        probs = []
        if end != "":
            probs.append(("end", "a line end is added to the text"))
        if opt("emoji", True) is not False:
            probs.append(("emoji", "emoji codes in the text are replaced"))
        if opt("highlight", True) is not False:
            probs.append(("highlight", "the text is highlighted"))
        soft = opt("soft_wrap", False)
        if soft is not True:
            no_wrap, overflow, crop = opt("no_wrap", False), opt("overflow", "fold"), opt("crop", True)
            if not (no_wrap is True and overflow == "ignore" and crop is False):
                probs.append(("wrap", "long lines are wrapped or cropped"))
        for n in ("justify", "style", "width", "height"):
            if kw.get(n, NONE) != NONE and (n != "style"):
                probs.append((n, f"{n} changes the text"))
        for n, msg in probs:
            bad("console", f"{n} {fn_of(w)}", msg, "src/" + w)
        if not probs:
            ctx.good("console", f"{tool} {fn_of(w)}")


UNIVERSAL = ("utf-8", "utf8", "utf-16", "utf16", "utf-32", "utf32", "u8", "utf-16-le", "utf-16-be", "utf-32-le", "utf-32-be", "utf-7")


def fn_of(w):
    return w.rsplit(" in ", 1)[-1]
