#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import os
import sys

VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and os.environ.get("RFV_PY") is None:
    # run with the interpreter the target is installed for.
    os.environ["RFV_PY"] = VENV
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(VENV, [VENV, "-W", "ignore"] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rfv import core  # noqa: E402

if __name__ == "__main__":
    p = argparse.ArgumentParser()
    p.add_argument("id", nargs="?")
    p.add_argument("--selftest", action="store_true")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    p.add_argument("--replay")
    a = p.parse_args()
    if a.selftest or not a.id:
        sys.exit(core.selftest())
    sys.exit(core.main(a.id, a.tier, a.seed, a.replay))
