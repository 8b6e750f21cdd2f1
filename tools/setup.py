#!/usr/bin/env python3
"""Pre-builds the replay harness (the checks rebuild whatever changed themselves)."""
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
for i in (1,):
    b, err = check.build_harness("C%02d" % i)
    print("C%02d" % i, "built" if b else "not built: " + err[-300:])
