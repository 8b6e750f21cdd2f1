#!/usr/bin/env python3
"""Development aid: applies every seeded change to a scratch copy of /repo and runs the check of its property against the copy.
usage: runseeds.py [id ...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))


def one(i):
    d = os.path.join(V, "seeded", i)
    m = json.load(open(os.path.join(d, "meta.json")))
    w = tempfile.mkdtemp(prefix="rs_")
    r = os.path.join(w, "repo")
    subprocess.check_call(["git", "clone", "-q", "/repo", r])
    shutil.copy("/repo/Cargo.lock", r)
    subprocess.check_call(["git", "-C", r, "apply", os.path.join(d, "patch.diff")])
    env = dict(os.environ, VERIF_REPO=r, VERIF_BUILD=os.path.join(w, "build"), VERIF_EVIDENCE=os.path.join(w, "ev"), VERIF_SEED="1")
    p = subprocess.run(["python3", os.path.join(V, "check.py"), m["property"]], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    o = [l for l in p.stdout.split("\n") if l.strip()]
    v = [l for l in o if l.startswith("VIOLATION")]
    ob = ""
    try:
        e = json.load(open(os.path.join(w, "ev", m["property"] + ".json")))
        ob = "; ".join(f for u in e["coverage"].get("units", []) for f in u["failed"])
        lost = "; ".join(str(u["why"])[:100] + str(u["assumed_contracts"])[:150] for u in e["coverage"].get("units", []) if u["status"] == "lost" or u["assumed_contracts"])
        wall = e["wall_s"]
    except Exception as x:
        lost, wall = repr(x), 0
    shutil.rmtree(w)
    how = "input+proof" if v and ob and "no-failing" not in v[0] else "input" if v and "no-failing" not in v[0] else "proof" if v else "-"
    return f"{i:24} {m['property']} exit {p.returncode} {'CAUGHT' if v and p.returncode == 1 else 'MISSED'} by {how:12} {wall:5.0f}s  {ob[:160]} {('LOST ' + lost) if lost else ''}"


with ThreadPoolExecutor(2) as ex:
    for l in ex.map(one, ids):
        print(l, flush=True)
