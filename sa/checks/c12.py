"""C12: library calls touch nothing outside the process."""
from . import effects
from .effects import *

EXPLAIN = (
    "Effect analysis: every public operation of search, diff, merge, line view, tokenizers, serialization and in-memory version storage is evaluated by abstract interpretation, and "
    "every call that leaves the package is classified: opening files, printing, console output, starting processes or threads, sockets, databases, and changing interpreter or process "
    "settings (recursion limit, working directory, environment, locale, warning filters, random seed, signal handlers) are violations, also when they happen while the package is imported."
)

OUTSIDE = ("open", "print", "input", "os.", "subprocess.", "shutil.", "socket.", "sys.", "signal.", "threading.", "multiprocessing.", "pathlib.", "tempfile.", "sqlite3.", "urllib.", "http.",
           "gc.", "atexit.", "exit", "quit", "io.open", "locale.setlocale", "warnings.", "random.seed", "builtins.", "logging.basicConfig", "logging.info", "logging.debug", "logging.warning",
           "logging.error", "rich.", "webbrowser.", "ctypes.", "faulthandler.", "resource.", "time.sleep", "asyncio.", "concurrent.", "breakpoint", "pdb.")
HARMLESS = ("os.path.", "os.fspath", "os.sep", "os.linesep", "sys.getrecursionlimit", "sys.getsizeof", "sys.intern", "sys.exc_info", "sys.version", "sys.byteorder", "sys.maxsize", "sys._getframe",
            "sys.getdefaultencoding", "sys.modules", "pathlib.PurePath", "os.environ.get", "os.getenv", "os.getpid", "os.urandom", "rich.markup.", "gc.isenabled", "threading.Lock", "threading.RLock",
            "threading.local", "os.environ", "sys.flags", "sys.argv")


def harmful(path):
    return any(path == p or path.startswith(p) and p.endswith(".") for p in OUTSIDE) and not any(path == p or path.startswith(p) for p in HARMLESS)


def effect(e):
    """What the event does outside the process, or None."""
    if e[0] == "open":
        return "opens a file", e[-1]
    if e[0] == "connect":
        return "opens a database", e[-1]
    if e[0] in ("console", "console.print"):
        return "writes to the console", e[-1]
    if e[0] == "ext" and harmful(e[1]):
        return f"calls {e[1]}", e[-1]
    if e[0] == "mut" and isinstance(e[1], Ext):
        return f"changes {e[1].path}", e[4]
    return None


def judge(ctx, r):
    ctx.good("contained", r.name, len(r.results))
    for e, st, path in r.events.values():
        w = effect(e)
        if w is not None:
            ctx.violation("contained", f"{w[0]}: {w[1].split(' in ')[-1]}", f"{r.name} {w[0]}", "src/" + w[1], path)


def check(ctx):
    it = ctx.interp()
    for e in it.init.events():
        w = effect(e)
        if w is not None:
            ctx.violation("import", f"{w[0]}: {w[1].split(' in ')[0].split(':')[0]}", f"importing the package {w[0]}", "src/" + w[1])
    ctx.good("import", "import of the package", len(it.mods))
    effects.run(ctx, judge, "contained")
