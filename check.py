#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

1. extracts the functions the property depends on from /repo's current source, attaches their contracts and runs
   the deductive verifier (Verus / Z3) on every obligation;
2. runs the real code against reference mathematics (replay harness) to produce concrete failing inputs.
Exit 0: held.  Exit 1: VIOLATION line.  See DESIGN.md for the decision policy."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "vlib"))
sys.path.insert(0, os.path.join(V, "vlib", "contracts"))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(V, "evidence"))
TOOLCHAIN = "nightly-2026-08-21-x86_64-unknown-linux-gnu"


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0", CARGO_TERM_COLOR="never")
    e.pop("RUSTFLAGS", None)
    return e


# ------------------------------------------------------------------------------------------------ verifier
def shapes():
    try:
        return json.load(open(os.path.join(V, "vlib", "shapes.json")))
    except OSError:
        return {}


# in a unit that proves only the absence of panics and termination, a failing helper invariant or postcondition is a
# lost proof, not a violation
SAFETY = re.compile(r"precondition not|possible arithmetic|division by zero|decreases not satisfied|termination|unreachable|array index|requires not satisfied|split precondition")


def reshaped(old, new):
    """the loops of a function are no longer those its invariants were written for (a loop that newly exits early does not count)"""
    if old is None or new is None or len(old) != len(new):
        return old != new
    return any(a != b and a != b.replace(" exits", "") for a, b in zip(old, new))


def verify_unit(src, u, tier, out, found, deadline, retry=True):
    """returns dict(status=ok|failed|lost, ...)"""
    import assemble
    import props
    import runv
    from vgen import Unsupported
    from rustparse import ParseError
    stubs = {}
    base = shapes()
    last = None
    grace = time.time() + 25

    def stop():
        # a failing input has been found: the rest of the proof attempt can only name more obligations
        return time.time() > deadline or (found.is_set() and time.time() > grace)
    for attempt in range(8):
        a = assemble.Assembly(src, props.contracts(u), props.DEFS, props.LEMMAS)
        try:
            text = a.emit(u["fns"], u["lemmas"], u["extra"], u["structs"], libs=u["libs"], stubs=stubs, fp=u["fp"])
        except (Unsupported, ParseError, KeyError, IndexError, AttributeError, RecursionError, TypeError, ValueError) as e:
            k = getattr(e, "key", None)
            if k and k not in stubs and isinstance(e, (Unsupported, ParseError)):
                stubs[k] = f"outside the extractor's reach: {e}"
                continue
            return dict(status="lost", why=f"{type(e).__name__}: {e}", stubs=stubs, failed=[], run=last)
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, u["name"] + ".rs")
        open(path, "w").write(text)
        r = runv.run(path, timeout=200, stop=stop)
        r["log"] = a.g.log
        r["inlined"] = a.g.inlined
        r["added"], r["dropped"] = a.added, a.dropped
        last = r
        if r["ok"]:
            return dict(status="ok", stubs=stubs, run=r, failed=[], path=path)
        comp = [m for m in r["messages"] if m["kind"] == "compile"]
        if comp:
            bad = [m["name"] for m in comp if m["where"] == "fn" and "(stub)" not in m["name"]]
            if bad:
                if os.environ.get("PROVE_OUT"):
                    shutil.copy(path, path + f".rejected{attempt}")
                for b in set(bad):
                    stubs[b] = "not accepted by the verifier's front end: " + next(m["msg"] for m in comp if m["name"] == b)
                continue
            return dict(status="lost", why="verification file not accepted: " + comp[0]["msg"], stubs=stubs, run=r, failed=[], path=path)
        # retry resource limits / flaky proofs with other seeds
        hopeless = not r["timeout"] and any(m["kind"] == "obligation" and m["where"] == "fn" for m in r["messages"]) and all(
            m["kind"] == "obligation" and m["where"] == "fn" and reshaped(base.get(m["name"]), a.g.shapes.get(m["name"])) for m in r["messages"])
        if not hopeless and (r["timeout"] or r["messages"]):
            best = r
            for seed, rl in ((1, 60), (7, 120)) if retry else ():
                if stop() or found.is_set():
                    break
                r2 = runv.run(path, timeout=150, rlimit=rl, seed=seed, stop=stop)
                if r2["ok"]:
                    r2.update(log=r["log"], inlined=r["inlined"], added=r["added"], dropped=r["dropped"])
                    return dict(status="ok", stubs=stubs, run=r2, failed=[], path=path)
                if not r2["timeout"] and len(r2["messages"]) < len(best["messages"]):
                    best = r2
                if all(m["kind"] == "obligation" and m["where"] == "fn" for m in r2["messages"]) and not r2["timeout"]:
                    break
            r = best
        fl = [m for m in r["messages"] if m["kind"] == "obligation" and m["where"] == "fn"]
        gen = []
        for m in fl:
            k = m["name"]
            m["restructured"] = reshaped(base.get(k), a.g.shapes.get(k))
            if m["restructured"] or (u["safety"] and not SAFETY.search(m["msg"])):
                continue
            gen.append(m)
        if gen:
            return dict(status="failed", stubs=stubs, run=r, failed=gen, path=path)
        why = "; ".join(sorted({f"{m['name'] or m['where']}: {m['msg']}" + (" (loops restructured)" if m.get("restructured") else "") for m in r["messages"]})) or ("time limit" if r["timeout"] else "no result")
        return dict(status="lost", why=why, stubs=stubs, run=r, failed=[], path=path)
    return dict(status="lost", why="extraction did not converge", stubs=stubs, run=last, failed=[])


def vacuity(src, u, out):
    """assert(false) at the start / at the results of every body: every function has to fail"""
    import assemble
    import props
    import runv
    res = dict(functions=len(u["fns"]), vacuous=[], unchecked=[])
    left = {}
    for mode in ("start", "tail"):
        a = assemble.Assembly(src, props.contracts(u), props.DEFS, props.LEMMAS, vacuity=mode)
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, f"{u['name']}_{mode}.rs")
        open(path, "w").write(a.emit(u["fns"], u["lemmas"], u["extra"], u["structs"], libs=u["libs"], fp=u["fp"]))
        r = runv.run(path, timeout=200)
        failed = {m["name"] for m in r["messages"] if m["where"] == "fn"}
        if r["timeout"] or any(m["kind"] == "compile" for m in r["messages"]):
            res["unchecked"].append(f"{mode}: " + "; ".join(m["name"] + " " + m["msg"] for m in r["messages"] if m["kind"] == "compile"))
            continue
        left[mode] = [k for k in u["fns"] if k not in failed and k not in a.dropped]
    res["vacuous"] = sorted({f"{k} ({m})" for m, l in left.items() for k in l})
    return res


# ------------------------------------------------------------------------------------------------ harness
def literals(src):
    from rustparse import lex
    vals = {}
    for rel, (text, toks, items) in src.files.items():
        cut = text.find("#[cfg(test)]")
        body = text if cut < 0 else text[:cut]
        body = re.sub(r"//[^\n]*", "", body)
        for m in re.finditer(r"(?<![\w.])(\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?)", body):
            try:
                v = float(m.group(1).replace("_", ""))
            except ValueError:
                continue
            vals[v] = vals.get(v, 0) + 1
    # rare literals first
    return [v for v, c in sorted(vals.items(), key=lambda z: z[1])][:80]


def build_harness(pid):
    t = os.path.join(BUILD, "target")
    d = os.path.join(BUILD, "harness")
    src = os.path.join(V, "harness")
    os.makedirs(BUILD, exist_ok=True)
    if REPO != "/repo":
        shutil.copytree(src, d, dirs_exist_ok=True, ignore=shutil.ignore_patterns("target"))
        c = open(os.path.join(d, "Cargo.toml")).read().replace('"/repo"', json.dumps(REPO))
        open(os.path.join(d, "Cargo.toml"), "w").write(c)
        src = d
    e = env()
    e["CARGO_TARGET_DIR"] = t
    # never rely on time stamps to notice a changed source
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(src, "src")):
        for dp, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                h.update(f.encode() + b"\0" + open(os.path.join(dp, f), "rb").read())
    h.update(open(os.path.join(REPO, "Cargo.toml"), "rb").read())
    stamp = os.path.join(BUILD, "stamp")
    if os.path.exists(t) and (not os.path.exists(stamp) or open(stamp).read() != h.hexdigest()):
        for c in ("stroke", "vharness"):
            subprocess.run(["cargo", "clean", "--offline", "-p", c], cwd=src, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
    open(stamp, "w").write(h.hexdigest())
    try:
        p = subprocess.run(["cargo", "build", "--offline", "--features", pid.lower()], cwd=src, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=500)
    except subprocess.TimeoutExpired:
        return None, "harness build timed out"
    if p.returncode:
        return None, p.stdout[-3000:]
    b = os.path.join(BUILD, "vharness_" + pid)
    shutil.copy2(os.path.join(t, "debug", "vharness"), b)
    return b, ""


def run_harness(binary, pid, seed, tier, lits, secs, only=None):
    cmd = [binary, pid, "--seed", str(seed), "--tier", tier, "--secs", str(secs), "--dict", ",".join(repr(x) for x in lits)]
    if only is not None:
        cmd += ["--only", str(only)]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs + 60, errors="replace")
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), -99
    viol, summ = [], {}
    for l in out.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("kind") == "violation":
            viol.append(d)
        elif d.get("kind") == "summary":
            summ = d
    if rc not in (0, 1) and not viol:
        # a crash of the process (abort, stack overflow, ...) is a failing run in itself
        if rc < 0 and rc != -99 and rc != -9:
            viol.append(dict(kind="violation", case="?", input=f"run with seed {seed}, tier {tier}", observed=f"process ended with signal {-rc}"))
    return dict(cmd=" ".join(cmd), viol=viol, summary=summ, wall=time.time() - t0, rc=rc)


# ------------------------------------------------------------------------------------------------ main
def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import props
    import vgen
    P = props.PROPS[pid]
    src = vgen.Source(REPO)
    lits = literals(src)
    hres = {}
    found = threading.Event()

    def harness():
        try:
            harness_()
        except (OSError, ValueError, KeyError) as e:
            hres["err"] = f"{type(e).__name__}: {e}"

    def harness_():
        b, err = build_harness(pid)
        if not b:
            hres["err"] = err
            return
        hres["bin"] = b
        hres["runs"] = [run_harness(b, pid, seed, tier, lits, 60 if tier == "quick" else 240)]
        if hres["runs"][0]["viol"]:
            found.set()
    th = threading.Thread(target=harness)
    th.start()
    units = []
    for u in P["units"]:
        r = verify_unit(src, u, tier, os.path.join(BUILD, pid), found, t0 + 480)
        if r["status"] == "failed" and u["alt"] and not found.is_set():
            # does it hold over the reals at least?
            r2 = verify_unit(src, u["alt"], tier, os.path.join(BUILD, pid), found, t0 + 480)
            if r2["status"] == "ok" and not r2["stubs"]:
                r.update(status="lost", failed=[], why="proved over the reals, not over floating-point numbers: " + "; ".join(sorted({f"{m['name']}: {m['msg']}" for m in r["failed"]})))
        units.append((u, r))
    if tier == "thorough" and not found.is_set():
        for u, r in units:
            if r["status"] == "ok" and not r["stubs"]:
                try:
                    r["vacuity"] = vacuity(src, u, os.path.join(BUILD, pid))
                except Exception as e:      # never decides: the proof itself has been accepted
                    r["vacuity"] = dict(vacuous=[], unchecked=[str(e)])
                if r["vacuity"]["vacuous"]:
                    r.update(status="lost", why="obligations hold vacuously: " + ", ".join(r["vacuity"]["vacuous"]))
    th.join()
    all_ok = bool(units) and all(r["status"] == "ok" and not r["stubs"] for u, r in units)
    failed = [(u, r, m) for u, r in units for m in r["failed"]]
    lost = [(u["name"], r.get("why", "")) for u, r in units if r["status"] == "lost"] + [(u["name"], f"{k}: {w}") for u, r in units for k, w in r["stubs"].items()]
    viol = [v for r in hres.get("runs", []) for v in r["viol"]]
    if not viol and "bin" in hres and not all_ok and units:
        # a proof did not go through: search harder for a failing input
        left = 700 - (time.time() - t0)
        for k in range(3 if failed else 2):
            if viol or left < 30:
                break
            r = run_harness(hres["bin"], pid, seed + 1000 + k, "deep", lits, min(90 if failed else 60, int(left / 3)))
            hres["runs"].append(r)
            viol += r["viol"]
    code = 0
    lines = []
    replay = os.path.join(EVID, f"{pid}.replay.json")
    os.makedirs(EVID, exist_ok=True)
    if viol:
        run = next(r for r in hres["runs"] if r["viol"])
        v = run["viol"][0]
        rec = dict(property=pid, input=v["input"], observed=v["observed"], case=v["case"], rerun=run["cmd"] + f" --only {v['case']}",
                   all=run["viol"], failed_obligations=[dict(function=m["name"], message=m["msg"], text=m["text"]) for _, _, m in failed])
        json.dump(rec, open(replay, "w"), indent=1)
        lines += [f"input: {v['input'][:600]}", f"observed: {v['observed'][:600]}", f"VIOLATION property={pid} replay={replay}"]
        code = 1
    elif failed:
        rec = dict(property=pid, failed_obligations=[dict(function=m["name"], message=m["msg"], text=m["text"], file=r.get("path")) for _, r, m in failed],
                   verifier=failed[0][1]["run"]["cmd"], output="\n".join(r["run"]["stderr"][:6000] for _, r in units if r["status"] == "failed"))
        json.dump(rec, open(replay, "w"), indent=1)
        for _, _, m in failed:
            lines.append(f"obligation failed in {m['name']}: {m['msg']}")
        lines.append(f"VIOLATION property={pid} replay={replay} no-failing-input-found")
        code = 1
    elif "bin" not in hres and not all_ok:
        print("the replay harness does not build and the proof is incomplete:\n" + hres.get("err", ""))
        code = 2
    evidence(pid, P, tier, seed, units, hres, all_ok, lost, failed, viol, time.time() - t0)
    for n, w in lost:
        print(f"note: {pid}/{n}: not proved on this tree ({w[:300]}); bounded check only")
    print("\n".join(lines) if lines else f"{pid}: held" + ("" if all_ok else " on everything explored (bounded)"))
    sys.exit(code)


def evidence(pid, P, tier, seed, units, hres, all_ok, lost, failed, viol, wall):
    import trusted
    runs = hres.get("runs", [])
    evals = sum(int(r["summary"].get("cases", 0)) for r in runs)
    dist = sum(int(r["summary"].get("distinct", 0)) for r in runs[:1])
    samples = [s for r in runs for s in r["summary"].get("samples", "").split(" || ") if s][:3]
    cov = {}
    vu = []
    ob = di = 0
    for u, r in units:
        run = r.get("run") or {}
        n = run.get("verified", 0) + run.get("errors", 0)
        ob += n
        di += run.get("verified", 0)
        vu.append(dict(unit=u["name"], status=r["status"], functions_under_contract=[k for k in u["fns"] if k not in r["stubs"] and k not in (r.get("run") or {}).get("dropped", [])], assumed_contracts=r["stubs"],
                       verifier_queries=n, discharged=run.get("verified", 0), smt_ms=run.get("smt_ms", 0), wall_s=round(run.get("wall", 0), 1), inlined_helpers=run.get("inlined", []), functions_joined=run.get("added", []), functions_gone=run.get("dropped", []),
                       vacuity=r.get("vacuity", "checked in the thorough tier"), failed=[f"{m['name']}: {m['msg']}" for m in r["failed"]], why=r.get("why", "")))
    level = "proof" if all_ok else "exploration"
    if units:
        cov.update(obligations=ob, discharged=di, back_end="Verus (Z3)", units=vu,
                   checker_cmd="; ".join((r.get("run") or {}).get("cmd", "") for u, r in units), trusted_base=trusted.base(pid))
    cov.update(evaluations=evals, distinct_nontrivial=dist, samples=samples,
               rule="Replay harness: pseudo-random and structured inputs (see harness/src/main.rs) run on the real crate over f64 and f128 and compared with reference mathematics; a case counts as distinct by its full input text. "
                    "These runs are a bounded supplement and not part of the proof.",
               replay_runs=[dict(cases=r["summary"].get("cases"), seconds=r["summary"].get("seconds"), tier=r["summary"].get("tier"), complete=r["summary"].get("complete")) for r in runs])
    if not all_ok:
        cov["explanation"] = "bounded, not proved: " + ("; ".join(f"{n}: {w}" for n, w in lost) or "; ".join(f"{m['name']}: {m['msg']}" for _, _, m in failed) or "no function of this property is under contract")
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=trusted.assumptions(pid), wall_s=round(wall, 1), violations=len(viol) or len(failed))
    json.dump(ev, open(os.path.join(EVID, f"{pid}.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
