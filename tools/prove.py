#!/usr/bin/env python3
"""Development aid: runs only the proof part.  usage: prove.py Cxx [unit ...] [-v]"""
import os, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
import props, vgen
src = vgen.Source(check.REPO)
pid = sys.argv[1]
want = [x for x in sys.argv[2:] if x != "-v"]
for u in props.PROPS[pid]["units"]:
    if want and u["name"] not in want:
        continue
    r = check.verify_unit(src, u, "quick", os.path.join(os.environ.get("PROVE_OUT", "/tmp/prove"), pid), threading.Event(), time.time() + 400, retry=False)
    run = r.get("run") or {}
    print(pid, u["name"], r["status"], "verified", run.get("verified"), "errors", run.get("errors"), "wall", round(run.get("wall", 0), 1), r.get("why", "")[:2000], r["stubs"])
    for m in (run.get("messages") or [])[:12 if "-v" not in sys.argv else 100]:
        print("-----", m["kind"], m["where"], m["name"]); print(m["text"][:1500])
    slow = sorted(run.get("functions", []), key=lambda z: -z[1])[:5]
    print("   slow:", [(a.split("::", 1)[-1], b) for a, b, c in slow])
