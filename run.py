#!/usr/bin/env python3
"""Entry point: run.py <PROPERTY> [--tier quick|thorough] [--seed N] | --replay FILE"""
import os
import sys

PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.environ.get("VERIF_PY") != "1":
    e = dict(os.environ, VERIF_PY="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], e)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import argparse
import importlib
import json


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true", help="import the engine and every check")
    ap.add_argument("--sub", help="run only this sub-check (debugging; evidence is not representative)")
    a = ap.parse_args()
    from pbt import core

    if a.selftest:
        d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "pbt", "checks")
        n = 0
        for f in sorted(os.listdir(d)):
            if f.startswith("p") and f.endswith(".py"):
                n += len(importlib.import_module("pbt.checks." + f[:-3]).SUBS)
        print("selftest ok: %d sub-checks" % n)
        return 0
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        mod = importlib.import_module("pbt.checks." + rp["property"].lower())
        sub = {s.name: s for s in mod.SUBS}[rp["sub"]]
        status, msg, _ = core.run_case(sub, rp["case"])
        print(status, msg)
        if status == "violation":
            print("VIOLATION property=%s replay=%s" % (rp["property"], a.replay))
            return 1
        return 0 if status in ("held", "discard") else 2
    mod = importlib.import_module("pbt.checks." + a.property.lower())
    if a.sub:
        mod.SUBS[:] = [s for s in mod.SUBS if s.name == a.sub]
    return core.run_check(mod, a.tier, a.seed)


if __name__ == "__main__":
    sys.exit(main())
