#!/usr/bin/env python3
"""check.py <property> [--replay FILE]: decide one property on /repo's working tree."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(ROOT, "lib"), os.path.join(ROOT, "checks")]
sys.dont_write_bytecode = True


def main():
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        d = json.load(open(f))
        mod = importlib.import_module(d["property"].lower())
        import hist
        H = hist.Hist("replay", 4) if getattr(mod, "NEEDS", "hist") == "hist" else mod.context()
        try:
            ok = mod.replay(H, d["case"])
        finally:
            H.close()
        print(f"replay of {d['property']} {d['key']}: " + ("reproduced" if ok else "NOT reproduced"))
        return 1 if ok else 0
    import build
    try:
        return importlib.import_module(sys.argv[1].lower()).main()
    except Exception:
        # what was found before the harness got stuck still counts
        import simlib
        if simlib.CURRENT is None or not simlib.CURRENT.viol:
            raise
        import traceback
        traceback.print_exc()
        return simlib.CURRENT.finish()
    finally:
        build.prune()


if __name__ == "__main__":
    sys.exit(main())
