"""python3 sa/run.py C01 [quick|thorough]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
# the package under analysis has modules named like the standard library's
sys.path = [p for p in sys.path if not p.rstrip("/").endswith("gaspra")]


def main():
    from sa import report

    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("sa.checks." + prop.lower())
    return report.run(prop, tier, mod)


if __name__ == "__main__":
    import threading

    threading.stack_size(512 * 1024 * 1024)
    code = []
    t = threading.Thread(target=lambda: code.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(code[0] if code and code[0] is not None else 2)
