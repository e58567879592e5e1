"""Obligations, verdicts, evidence."""
import json
import os
import pickle
import select
import sys
import time
import traceback

from .interp import Interp, Budget, Missing
from .values import V, Raise

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")


class Anchor(Exception):
    """Something the check starts from is not there."""


def known_findings():
    """{(property, key): text}"""
    r = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: "):
                head, _, text = line[7:].partition(" | ")
                prop, _, key = head.partition(" ")
                r[prop.removeprefix("property="), key.removeprefix("key=")] = text
    return r


class Ctx:
    def __init__(self, prop, tier="quick", limit_s=600):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.limit = limit_s
        self.ok = {}
        self.violations = {}
        self.undec = {}
        self.visited = set()
        self.loop_rounds = 0
        self.states = 0
        self.notes = []
        self.sites = {}

    # -- building blocks

    def interp(self, limit_s=150, load=True, skip=("gaspra.dot_dump",), **kw):
        it = Interp(limit_s=min(limit_s, max(5, self.t0 + self.limit - time.time())), **kw)
        if load:
            it.load_all(skip)
        it.owner = "local"
        return it

    def fn(self, it, mod, name, required=True):
        """A public function or class of the package (or method 'Cls.m')."""
        from .values import Fn, Cls

        v = it.attr_of(f"{it.package}.{mod}" if mod else it.package, name.split(".")[0])
        if v is not None and "." in name and isinstance(v, Cls):
            v = it.lookup(it.init, v, name.split(".")[1])
        if v is None and required:
            raise Anchor(f"{mod}.{name} does not exist")
        return v

    def good(self, rule, what, n=1):
        self.ok[rule] = self.ok.get(rule, 0) + n
        self.sites.setdefault(rule, set()).add(str(what))

    def violation(self, rule, what, message, where="", trace=()):
        key = f"{rule}:{what}"
        if key not in self.violations:
            self.violations[key] = {"rule": rule, "construct": str(what), "message": message, "where": where, "path": [str(t) for t in trace][:60]}

    def undecided(self, rule, what, why):
        self.undec.setdefault(f"{rule}:{what}", str(why))

    def absorb(self, it):
        self.visited |= it.visited
        self.loop_rounds += it.loop_rounds
        self.states += it.steps
        for u in it.undecided:
            self.undecided("engine", u, "construct not modelled")

    def parallel(self, jobs, procs=None):
        """Run groups of obligations [(rule, f, args...)] in child processes
        and merge what they found, in the order of the jobs."""
        procs = procs or min(8, os.cpu_count() or 1)
        if procs < 2 or len(jobs) < 2 or os.environ.get("VERIF_SERIAL"):
            for rule, f, *args in jobs:
                self.part(rule, f, self, *args)
            return
        sys.stdout.flush()
        sys.stderr.flush()
        todo = list(range(len(jobs)))
        running = {}
        got = {}
        while todo or running:
            while todo and len(running) < procs:
                k = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        sub = Ctx(self.prop, self.tier, self.limit)
                        sub.t0 = self.t0
                        rule, f, *args = jobs[k]
                        try:
                            sub.part(rule, f, sub, *args)
                        except Anchor as e:
                            sub.notes.append("ANCHOR " + str(e))
                        data = pickle.dumps((sub.ok, sub.violations, sub.undec, sub.visited, sub.loop_rounds, sub.states, sub.notes, sub.sites))
                        with os.fdopen(w, "wb") as fh:
                            fh.write(data)
                        code = 0
                    finally:
                        sys.stderr.flush()
                        os._exit(code)
                os.close(w)
                running[r] = (pid, k, [])
            ready, _, _ = select.select(list(running), [], [])
            for r in ready:
                b = os.read(r, 1 << 20)
                if b:
                    running[r][2].append(b)
                    continue
                os.close(r)
                pid, k, bufs = running.pop(r)
                os.waitpid(pid, 0)
                got[k] = b"".join(bufs)
        for k in range(len(jobs)):
            if not got[k]:
                self.undecided(jobs[k][0], f"part {k}", "the analysis process ended early")
                continue
            ok, vio, und, vis, lr, stt, notes, sites = pickle.loads(got[k])
            for r, n in ok.items():
                self.ok[r] = self.ok.get(r, 0) + n
            for key, v in vio.items():
                self.violations.setdefault(key, v)
            for key, v in und.items():
                self.undec.setdefault(key, v)
            self.visited |= vis
            self.loop_rounds += lr
            self.states += stt
            for n in notes:
                if n.startswith("ANCHOR "):
                    raise Anchor(n[7:])
                if n not in self.notes:
                    self.notes.append(n)
            for r, x in sites.items():
                self.sites.setdefault(r, set()).update(x)

    def part(self, rule, f, *args):
        """Run one group of obligations; what the analysis cannot finish is
        reported as undecided."""
        try:
            return f(*args)
        except Budget as e:
            self.undecided(rule, "analysis", f"budget exhausted ({e})")
        except Missing as e:
            self.undecided(rule, "anchor", f"missing {e}")
        except RecursionError:
            self.undecided(rule, "analysis", "nesting too deep")
        except Anchor:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            w = tb[-1]
            self.undecided(rule, "analysis", f"not analysable: {type(e).__name__}: {e} at {os.path.basename(w.filename)}:{w.lineno}")
            if os.environ.get("VERIF_DEBUG"):
                print("".join(traceback.format_tb(e.__traceback__)[-4:]), e, file=sys.stderr)
        return None


def run(prop, tier, module):
    sys.setrecursionlimit(20000)
    ctx = Ctx(prop, tier)
    status = None
    try:
        module.check(ctx)
    except Anchor as e:
        print(f"ERROR: {prop}: {e}", flush=True)
        status = 2
    known = known_findings()
    wall = time.time() - ctx.t0
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    new = []
    for key, v in sorted(ctx.violations.items()):
        if (prop, key) in known:
            print(f"KNOWN-FINDING: property={prop} {v['message']} [{v['where']}]")
        else:
            new.append((key, v))
    total = sum(ctx.ok.values())
    for k, w in sorted(ctx.undec.items()):
        print(f"UNDECIDED: {prop} {k}: {w}")
    replay = os.path.join(evdir, f"{prop}.violations.json")
    if os.path.exists(replay):
        os.remove(replay)
    if new:
        with open(replay, "w", encoding="utf-8") as f:
            json.dump([dict(v, key=k) for k, v in new], f, indent=1)
        for k, v in new:
            print(f"{v['where'] or '?'}: {v['message']} [rule {v['rule']}]")
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": getattr(module, "LEVEL", "other"),
        "coverage": {
            "explanation": module.EXPLAIN,
            "rules": {r: {"obligations_discharged": n, "constructs": sorted(ctx.sites.get(r, ()))[:60]} for r, n in sorted(ctx.ok.items())},
            "obligations": total + len(ctx.violations) + len(ctx.undec),
            "discharged": total,
            "undecided": ctx.undec,
            "violations": len(ctx.violations),
            "known_findings": len(ctx.violations) - len(new),
            "functions_analysed": sorted(ctx.visited),
            "evaluation_steps": ctx.states,
            "loop_rounds": ctx.loop_rounds,
            "notes": ctx.notes,
        },
        "wall_s": round(wall, 2),
    }
    with open(os.path.join(evdir, f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {total} obligations discharged, {len(ctx.undec)} undecided, {len(ctx.violations)} violated, "
          f"{len(ctx.visited)} functions, {wall:.1f} s")
    if new:
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if status:
        return status
    if total == 0 and not ctx.violations:
        if ctx.undec:
            print(f"{prop}: nothing could be decided")
            return 0
        print(f"ERROR: {prop}: nothing was analysed")
        return 2
    return 0
