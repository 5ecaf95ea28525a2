#!/usr/bin/env python3
"""check.py PID: decides one property of /repo's current tree.

Two layers: (1) deductive: pyvc generates the proof obligations of the property's contracts from the current
source and the solver discharges them; (2) run-time: the same property as an executable contract around the real
code on generated inputs (a bounded stand-in where no obligation is within reach, and the search for a failing
input when an obligation is not discharged).  Exit 0: held.  Exit 1: VIOLATION line."""
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/bin/python"
REPO = os.environ.get("PYVC_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
TIER = TIER if TIER in ("quick", "thorough") else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
EV = os.path.join(HERE, "evidence")


def env(hashseed):
    e = dict(os.environ, MPLBACKEND="Agg", PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", PYVC_REPO=REPO,
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
    return e


def start_runtime(pid, seed, seconds, workers, hashseed):
    out = os.path.join(EV, f".{pid}.{os.getpid()}.{hashseed}.out")
    f = open(out, "w")
    p = subprocess.Popen([PY, "-W", "ignore", os.path.join(HERE, "concrete", "run.py"), pid, "--seed", str(seed), "--seconds", str(seconds),
                          "--workers", str(workers)], stdout=f, stderr=subprocess.STDOUT, env=env(hashseed), cwd=HERE)
    return p, out, hashseed, time.time() + seconds + 420


def finish_runtime(job):
    p, out, hs, limit = job
    try:
        p.wait(max(5, limit - time.time()))
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    t = open(out).read()
    os.remove(out)
    try:
        r = json.loads(t.strip().splitlines()[-1])
    except Exception:
        r = {"evaluations": 0, "distinct": 0, "violation": None, "samples": [], "crash": t[-1500:] or "no output"}
    r["hashseed"] = hs
    return r


def replay(path, hashseed):
    try:
        p = subprocess.run([PY, "-W", "ignore", os.path.join(HERE, "concrete", "run.py"), "--replay", path], env=env(hashseed), cwd=HERE,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
        return p.returncode, p.stdout.decode()[-3000:]
    except subprocess.TimeoutExpired:
        return 1, "no result"


def confirmed(pid, res):
    """write the replay file of a violation found at run time, and run it again in a new process"""
    v = res["violation"]
    path = os.path.join(EV, "replay", f"{pid}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump({"property": pid, "scenario": v["scenario"], "message": v["message"], "hashseed": res["hashseed"],
                   "replay_cmd": f"PYTHONHASHSEED={res['hashseed']} {PY} {HERE}/concrete/run.py --replay {path}"}, f, indent=1, default=str)
    rc, out = replay(path, res["hashseed"])
    return path if rc == 1 else None, out


def start_proof(pid):
    out = os.path.join(EV, f".{pid}.{os.getpid()}.proof")
    e = env(0)
    limit = 260 if TIER == "quick" else 2400
    p = subprocess.Popen([VT, "-m", "pyvc.prove", pid, "--out", out, "--limit", str(limit)], cwd=HERE, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p, out


def finish_proof(job):
    p, out = job
    try:
        log = p.communicate(timeout=330 if TIER == "quick" else 3000)[0].decode()
    except subprocess.TimeoutExpired:
        p.kill()
        log = "time limit"
    try:
        r = json.load(open(out))
        os.remove(out)
    except Exception:
        r = {"obligations": [{"name": "verifier", "status": "error", "detail": log[-2000:]}], "functions": [], "assumptions": [], "solver_s": 0}
    return r


def known(pid):
    found, path = [], os.path.join(HERE, "known_findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        line = line.strip()
        if line.startswith(f"KNOWN-FINDING: property={pid} "):
            found.append(line)
    return found


def main():
    pid = sys.argv[1]
    t0 = time.time()
    os.makedirs(EV, exist_ok=True)
    conf = json.load(open(os.path.join(HERE, "conf.json")))
    c = conf.get(pid, {})
    deductive = c.get("deductive", False)
    secs = c.get("seconds", 18) if TIER == "quick" else c.get("thorough_seconds", 240)
    violations, lines = 0, []
    proof = start_proof(pid) if deductive else None
    workers = 4 if deductive else 7
    jobs = [start_runtime(pid, SEED, secs, workers - workers // 2, SEED % 1000), start_runtime(pid, SEED + 100003, secs, workers // 2, (SEED + 17) % 1000)]
    rts = [finish_runtime(j) for j in jobs]
    pr = finish_proof(proof) if proof else None
    for line in known(pid):
        print(line)

    def judge(rts):
        for r in rts:
            if r["violation"] and not c.get("ignore"):
                path, out = confirmed(pid, r)
                if path:
                    return path, r["violation"]["message"]
                notes.append("a violation did not reproduce in a new process: " + r["violation"]["message"][:300])
        return None
    notes = []
    hit = judge(rts)
    crash = next((r["crash"] for r in rts if r.get("crash")), None)
    failed = [o for o in pr["obligations"] if o["status"] != "proved"] if pr else []
    if pr and not pr["obligations"]:
        failed = [{"name": "no obligations were generated", "status": "error", "detail": ""}]
    if hit is None and (failed or crash or sum(r["evaluations"] for r in rts) == 0):
        # search longer for a failing input
        more = c.get("search_seconds", 200) if not crash else 20
        r2 = [finish_runtime(j) for j in [start_runtime(pid, SEED + 7, more, 4, (SEED + 31) % 1000), start_runtime(pid, SEED + 11, more, 4, (SEED + 57) % 1000)]]
        hit = judge(r2)
        rts += r2
        crash = crash and next((r["crash"] for r in r2 if r.get("crash")), None)
    if hit:
        violations = 1
        if failed:
            lines.append("failed obligations: " + "; ".join(f"{o['name']} ({o['status']})" for o in failed[:6]))
        lines.append(hit[1][:1500])
        lines.append(f"VIOLATION property={pid} replay={hit[0]}")
    elif failed or crash or sum(r["evaluations"] for r in rts) == 0:
        violations = 1
        path = os.path.join(EV, "replay", f"{pid}.obligation.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump({"property": pid, "failed_obligations": failed[:20], "crash": crash, "rerun": f"cd {HERE} && {VT} -m pyvc.prove {pid}"}, f, indent=1, default=str)
        for o in failed[:8]:
            lines.append(f"obligation not discharged: {o['name']}: {o['status']} {o.get('detail', '')[:400]}")
        if crash:
            lines.append("the real code could not be run: " + crash[-600:])
        lines.append(f"VIOLATION property={pid} replay={path} no-failing-input-found")
    evals, dist = sum(r["evaluations"] for r in rts), sum(r["distinct"] for r in rts)
    samples = json.loads(json.dumps([s for r in rts for s in r["samples"]][:2], default=str))
    runtime = {"evaluations": evals, "distinct_nontrivial": dist, "rule": c.get("rule", "") + " Counted distinct by a digest of the scenario; seeds and hash seeds differ per process.",
               "samples": [json.dumps(s)[:3000] for s in samples]}
    if pr:
        cov = {"obligations": len(pr["obligations"]), "discharged": sum(o["status"] == "proved" for o in pr["obligations"]),
               "checker_cmd": f"cd /verif && {VT} -m pyvc.prove {pid}", "trusted_base": pr["trusted"] if "trusted" in pr else [],
               "functions_under_contract": pr.get("functions", []), "solver": pr.get("solver", ""), "solver_s": pr.get("solver_s", 0),
               "inlined": pr.get("inlined", []), "obligation_list": [f"{o['name']}: {o['status']} {o.get('wall', 0):.2f}s" for o in pr["obligations"]][:250],
               "bounded_stand_in": dict(runtime, label="bounded: run-time contracts on generated inputs, not counted as proved")}
    else:
        cov = runtime
    if notes:
        cov["notes"] = notes
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": c.get("level", "exploration"), "coverage": cov,
          "assumptions": c.get("assumptions", []) + (pr.get("assumptions", []) if pr else []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    s = json.dumps(ev, indent=1, default=str)
    if len(s) > 60000 and pr:
        cov["obligation_list"] = cov["obligation_list"][:60]
        s = json.dumps(ev, indent=1, default=str)
    with open(os.path.join(EV, f"{pid}.json"), "w") as f:
        f.write(s)
    for x in lines:
        print(x)
    print(f"{pid}: {'violated' if violations else 'held'}; {evals} evaluations ({dist} distinct)" +
          (f"; {cov['discharged']}/{cov['obligations']} obligations discharged" if pr else "") + f"; {time.time() - t0:.0f} s")
    return 1 if violations else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
