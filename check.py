"""python3 check.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE]"""

import argparse
import importlib
import json
import os
import sys
import traceback

if os.environ.pop("PYTHONHASHSEED", "") != "0":  # a seed has to lead to the same scenarios whenever it is used
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True

import vlib  # noqa: E402

AREAS = {
    "dist": ["C01", "C02", "C03"],
    "subproj": ["C04", "C05"],
    "parrun": ["C06", "C07", "C08", "C10"],
    "conc": ["C09"],
    "files": ["C11"],
    "native": ["C12", "C13", "C14", "C18"],
    "config": ["C15"],
    "cli": ["C16", "C17"],
    "worker": ["C20", "C21", "C22", "C23", "C24", "C25", "C27", "C28", "C30", "C31"],
    "cases": ["C25", "C26", "C27"],
    "raises": ["C29"],
    "collect": ["C32", "C33", "C40"],
    "ids": ["C34"],
    "main": ["C35", "C36", "C37", "C38", "C39", "C41"],
}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    areas = [k for k, v in AREAS.items() if a.prop in v]
    run = vlib.Run(a.prop, a.tier, a.seed)
    saved = json.load(open(a.replay)) if a.replay else None
    try:
        for area in areas:
            run.area = area
            if saved is None or saved["area"] == area:
                importlib.import_module(area).check(run, saved and saved["scenario"])
        return run.finish()
    except vlib.ToolError as e:
        print(f"TOOL ERROR: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
