#!/usr/bin/env python3
"""
check.py C01 [--tier quick|thorough] [--seed N]     search
check.py --replay FILE [--trace]                     replay one recorded violation
"""
import argparse
import os
import sys

PYTHON = "/opt/venv/bin/python"
if os.path.exists(PYTHON) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(PYTHON, [PYTHON] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from dst import runner  # noqa: E402

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--trace", action="store_true")
    ap.add_argument("--known", action="store_true")
    ap.add_argument("--group", type=int)
    ap.add_argument("--groups", type=int, default=8)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--stop", type=int, default=0)
    ap.add_argument("--deadline", type=float, default=100)
    a = ap.parse_args()
    if a.replay:
        sys.exit(runner.replay_main(a.replay, a.trace))
    if a.known:
        try:
            rc = runner.known_main(a.property, a.seed)
        except Exception:
            import traceback

            print("HARNESS ERROR in the known findings\n" + traceback.format_exc())
            rc = 2
        sys.stdout.flush()
        os._exit(rc)
    if a.group is not None:
        runner.group_main(a.property, a.tier, a.seed, a.group, a.groups, a.start, a.stop, a.deadline, 2)
        sys.stdout.flush()
        os._exit(0)
    sys.exit(runner.main(a.property, a.tier, a.seed))
