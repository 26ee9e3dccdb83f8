#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [--runs N] [--workers N]"""
import argparse, importlib, os, sys, zlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from dst import harness


def load(pid):
    return importlib.import_module("dst.props." + pid.lower()).PROPERTY


if __name__ == "__main__":
    a = argparse.ArgumentParser()
    a.add_argument("property")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    a.add_argument("--replay")
    a.add_argument("--runs", type=int)
    a.add_argument("--workers", type=int)
    a = a.parse_args()
    prop = load(a.property)
    if a.runs is not None:
        prop.runs = {"quick": a.runs, "thorough": a.runs}
    sys.exit(harness.replay(prop, a.replay) if a.replay else harness.check(prop, a.tier, int(a.seed) if a.seed.lstrip('-').isdigit() else zlib.crc32(a.seed.encode()), a.workers))
