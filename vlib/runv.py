"""Runs Verus on a generated file and maps its messages back to functions of /repo."""
import json
import os
import re
import signal
import subprocess
import time

VERUS = os.environ.get("VERUS", "verus")
GENUINE = ("postcondition not satisfied", "precondition not met", "postcondition not met", "invariant not met", "precondition not satisfied", "assertion failed", "invariant not satisfied", "possible arithmetic",
           "possible division by zero", "loop ensures", "decreases not satisfied", "loop invariant", "unreachable", "array index", "recommendation", "requires not satisfied", "could not prove termination", "split assertion failure", "split precondition failure", "split postcondition failure")


def run(path, timeout=240, rlimit=30, seed=0, threads=8, stop=None):
    js, er = path + ".json", path + ".err"
    cmd = [VERUS, path, "--num-threads", str(threads), "--time-expanded", "--output-json", "--rlimit", str(rlimit)]
    if seed:
        cmd += ["--smt-option", f"smt.random_seed={seed}", "--smt-option", f"sat.random_seed={seed}"]
    t0 = time.time()
    with open(js, "w") as o, open(er, "w") as e:
        p = subprocess.Popen(cmd, stdout=o, stderr=e, cwd=os.path.dirname(path), start_new_session=True)
        to = True
        while time.time() - t0 < timeout and not (stop and stop()):
            try:
                p.wait(timeout=0.1)
                to = False
                break
            except subprocess.TimeoutExpired:
                pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    wall = time.time() - t0
    err = open(er, errors="replace").read()
    try:
        d = json.load(open(js))
    except ValueError:
        d = {}
    r = d.get("verification-results", {})
    fs = []
    smt = 0
    for m in d.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            fs.append((f["function"], f.get("time", 0), f.get("success", True)))
            smt += f.get("time", 0)
    msgs = parse(path, err)
    return dict(cmd=" ".join(cmd), wall=wall, timeout=to, verified=r.get("verified", 0), errors=r.get("errors", 0), ok=bool(r.get("success")) and not to and r.get("verified", 0) > 0,
                vir=bool(r.get("encountered-vir-error")) or (not r and not to), functions=fs, smt_ms=smt, messages=msgs, stderr=err,
                versions=d.get("verus", {}))


def parse(path, err):
    lines = open(path).read().split("\n")
    marks = []
    for i, l in enumerate(lines, 1):
        m = re.match(r"\s*//@(\w+)\s*(.*)$", l)
        if m:
            marks.append((i, m.group(1), m.group(2).strip()))

    def at(n):
        k, v = "", ""
        for i, a, b in marks:
            if i > n:
                break
            k, v = a, b
        return k, v
    out = []
    for blk in re.split(r"\n(?=error|warning|note: function body check)", "\n" + err):
        m = re.match(r"\s*error(\[\w+\])?: (.*)", blk)
        if not m:
            continue
        msg = m.group(2).strip()
        if msg.startswith("aborting due to") or msg.startswith("could not compile"):
            continue
        loc = re.search(r"--> [^\n]*?:(\d+):(\d+)", blk)
        ln = int(loc.group(1)) if loc else 0
        # the message may name the callee's contract first: every line number of the block
        allln = [int(x) for x in re.findall(r"^\s*(\d+)\s*\|", blk, re.M)] or [ln]
        k, v = at(ln)
        if k != "fn":
            for n in allln:
                k2, v2 = at(n)
                if k2 == "fn":
                    k, v = k2, v2
                    break
        rl = "rlimit" in blk or "Resource limit" in blk
        kind = "rlimit" if rl else "obligation" if any(g in msg for g in GENUINE) and not m.group(1) else "compile"
        out.append(dict(kind=kind, where=k, name=v, msg=msg, line=ln, text=blk.strip()[:1800]))
    return out
