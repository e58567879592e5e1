"""Writes MANIFEST.json from the checks that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

NA = {
    "C35": "Maximality of the match is a property of the values held by the automaton for every input string; no static argument in reach bounds it (needs an inductive proof about suffix automata).",
    "C36": "The set of paths of the automaton is a function of runtime values; needs an inductive proof of the construction, not a source-level analysis.",
    "C37": "Completeness of the list of occurrences depends on the suffix links built at run time; no sound static argument in reach.",
    "C38": "Amortized running time of the construction depends on the history of suffix links; no sound static bound in reach.",
    "C39": "The length of paths depends on the arithmetic of split decisions over whole histories; no static argument in reach bounds it.",
    "C40": "Whether a kill between two commits loses a version depends on the database's durability and on the order of several transactions; the code does not claim atomicity over them and static analysis cannot decide what sqlite recovers.",
}
TECH = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        f = os.path.join(HERE, "sa", "checks", i.lower() + ".py")
        if os.path.exists(f):
            m = importlib.import_module("sa.checks." + i.lower())
            checks.append({
                "property": i,
                "quick_cmd": f"python3 /verif/sa/run.py {i} quick",
                "thorough_cmd": f"python3 /verif/sa/run.py {i} thorough",
                "technique": getattr(m, "TECHNIQUE", "abstract interpretation of the source (static analysis)"),
                "level": getattr(m, "LEVEL", "other"),
                "level_note": m.EXPLAIN,
            })
        else:
            na.append({"property": i, "reason": NA.get(i, "No static decision procedure has been built for it yet.")})
    man = {
        "version": 1,
        "setup_cmd": "python3 -c \"import sys; assert sys.version_info >= (3, 11)\"",
        "checks": checks,
        "not_applicable": na,
        "notes": "All checks analyse /repo/src/gaspra from its current source with the analyser in /verif/sa (Python standard library only); nothing of the repository is executed.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


main()
