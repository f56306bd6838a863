"""Concrete replays on the unpatched real code.

  python -m symex.replay --serve MODULE TIER SEED     (used by explore)
  python -m symex.replay FILE                          re-runs a violation file
"""
import importlib
import json
import os
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent


def main():
    sys.path.insert(0, str(ROOT))
    sys.path.insert(0, os.environ.get("ASPSIM_SRC", "/repo/src"))
    from symex import harness as H
    if sys.argv[1] == "--serve":
        modname, tier, seed = sys.argv[2], sys.argv[3], int(sys.argv[4])
        out = os.fdopen(os.dup(1), "w")
        os.dup2(2, 1)                      # whatever the code prints goes nowhere
        mod = importlib.import_module(modname)
        if hasattr(mod, "prepare_concrete"):
            mod.prepare_concrete()
        cases = mod.cases(tier)
        for line in sys.stdin:
            q = json.loads(line)
            r = H.run_concrete(mod, cases[q["case"]], q["inputs"], seed)
            out.write(json.dumps(r, default=str) + "\n")
            out.flush()
        return 0
    d = json.loads(Path(sys.argv[1]).read_text())
    mod = importlib.import_module(d["module"])
    if hasattr(mod, "prepare_concrete"):
        mod.prepare_concrete()
    cases = mod.cases(d["tier"])
    bad = 0
    for v in d["violations"]:
        r = H.run_concrete(mod, cases[v["case"]], v["inputs"], d["seed"])
        print(json.dumps({"case": v["case_desc"], "failed": r["failed"], "exc": r["exc"]}, indent=1, default=str))
        bad |= bool(r["failed"] or r["exc"])
    return int(bad)


if __name__ == "__main__":
    sys.exit(main())
