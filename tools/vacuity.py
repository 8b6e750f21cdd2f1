#!/usr/bin/env python3
"""Vacuity check: with `assert(false)` placed at the start (or at every result) of every body under contract, each of
these functions must fail to verify: preconditions, callee contracts, laws and axioms are not contradictory.
usage: vacuity.py [Cxx ...]      exit 1 when a function still verifies"""
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "vlib"), os.path.join(V, "vlib", "contracts")]
import check
import props
import vgen


def main():
    src = vgen.Source(check.REPO)
    bad = 0
    for pid in sys.argv[1:] or props.ALL:
        for u in props.PROPS[pid]["units"]:
            r = check.vacuity(src, u, os.path.join("/tmp/vacuity", pid))
            bad += len(r["vacuous"]) + len(r["unchecked"])
            print(pid, u["name"], r, flush=True)
    sys.exit(1 if bad else 0)


main()
