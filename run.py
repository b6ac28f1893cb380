#!/usr/bin/env python
"""Checks of the properties of dliswriter.

run.py C01 [--tier quick|thorough] [--seed N]     exit 0: held, 1: VIOLATION, 2: inconclusive
run.py replay FILE                                re-run the case of a replay file
"""
import argparse
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("WELL_ID_DLISWRITER_VERIF") != "1":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["WELL_ID_DLISWRITER_VERIF"] = "1"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core  # noqa: E402


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "replay":
        return core.replay(sys.argv[2])
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    return core.check(a.property, a.tier, a.seed)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
