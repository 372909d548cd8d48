#!/opt/veriftools/pyvenv/bin/python
"""usage: check.py ID [--tier quick|thorough] [--only REGEX]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sx import runner
from harness import plan


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.exit(runner.check(a.id, plan.PLAN[a.id](), a.tier, seed, a.only, a.j))


main()
