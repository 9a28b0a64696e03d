#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--repo DIR]

Decides one property of /verif/properties.jsonl for the source tree in /repo, from the source alone."""
import argparse
import json
import os
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from ntm import driver  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    rep = driver.run(a.property, a.repo, a.tier, a.jobs)
    rep.write_evidence(os.path.join(HERE, "evidence"), a.tier, int(os.environ.get("VERIF_SEED", "0") or 0), t0)
    return rep.announce(os.path.join(HERE, "replay"), os.path.join(HERE, "KNOWN_FINDINGS.txt"))


if __name__ == "__main__":
    sys.exit(main())
