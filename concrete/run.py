"""Run-time contract checking against the real code: run.py PID --seed S --seconds T --workers N  |  run.py --replay FILE

Prints one line of JSON: evaluations, distinct scenarios, first violation (if any) with its scenario."""
import argparse
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")
warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("PYVC_REPO", "/repo"))
sys.dont_write_bytecode = True


class Timeout(Exception):
    pass


def alarm(*_):
    raise Timeout()


def prop(pid):
    import props1
    if hasattr(props1, pid):
        return getattr(props1, pid)
    import props2
    if hasattr(props2, pid):
        return getattr(props2, pid)
    import props3
    return getattr(props3, pid)


def execute(P, params, limit=90):
    from props1 import Viol
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    try:
        P.run(json.loads(json.dumps(params)) if not getattr(P, "raw", False) else params)
        return None
    except Viol as e:
        return str(e)
    except Timeout:
        return None if getattr(P, "slow_ok", False) else f"no result within {limit} s"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        fr = [f"{os.path.basename(t.filename)}:{t.lineno} {t.name}" for t in tb[-4:]]
        return f"unexpected {type(e).__name__}: {e} at {' < '.join(reversed(fr))}"
    finally:
        signal.alarm(0)


def worker(pid, seed, end, w, n, fd, cap):
    rng = random.Random(f"{pid}/{seed}/{w}")
    P = prop(pid)
    it = P.scenarios(rng)
    out = {"evaluations": 0, "digests": set(), "violation": None, "sample": []}
    while time.time() < end and out["evaluations"] < cap:
        try:
            s = next(it)
        except StopIteration:
            break
        h = hashlib.sha1(json.dumps(s, sort_keys=True, default=str).encode()).hexdigest()[:12]
        if h in out["digests"]:
            continue
        out["digests"].add(h)
        out["evaluations"] += 1
        m = execute(P, s)
        if m is not None and m.startswith("no result within"):
            m = execute(P, s, 240)
        if len(out["sample"]) < 2:
            out["sample"].append(s)
        if m is not None:
            out["violation"] = {"scenario": s, "message": m, "seed": seed, "worker": w}
            break
    out["digests"] = sorted(out["digests"])
    with os.fdopen(fd, "w") as f:
        json.dump(out, f, default=str)
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--seconds", type=float, default=15)
    ap.add_argument("--workers", type=int, default=6)
    ap.add_argument("--cap", type=int, default=10 ** 9)
    ap.add_argument("--replay")
    a = ap.parse_args()
    import logging
    logging.disable(logging.CRITICAL)
    if a.replay:
        r = json.load(open(a.replay))
        m = execute(prop(r["property"]), r["scenario"], 300)
        print(m or "holds")
        sys.exit(1 if m else 0)
    import pycid  # noqa: imported once, before forking
    P = prop(a.pid)
    end = time.time() + a.seconds
    pipes = []
    for w in range(a.workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                worker(a.pid, a.seed, end, w, a.workers, wr, a.cap)
            except BaseException:
                with os.fdopen(wr, "w") as f:
                    json.dump({"evaluations": 0, "digests": [], "violation": None, "sample": [], "crash": traceback.format_exc()[-1500:]}, f)
                os._exit(0)
        os.close(wr)
        pipes.append((pid, r))
    tot = {"evaluations": 0, "distinct": 0, "violation": None, "samples": [], "crash": None}
    seen = set()
    for pid, r in pipes:
        with os.fdopen(r) as f:
            t = f.read()
        os.waitpid(pid, 0)
        if not t:
            tot["crash"] = "a worker died"
            continue
        o = json.loads(t)
        tot["evaluations"] += o["evaluations"]
        seen |= set(o["digests"])
        tot["samples"] = (tot["samples"] + o["sample"])[:3]
        tot["crash"] = tot["crash"] or o.get("crash")
        v = o["violation"]
        if v and (tot["violation"] is None or len(json.dumps(v)) < len(json.dumps(tot["violation"]))):
            tot["violation"] = v
    tot["distinct"] = len(seen)
    print(json.dumps(tot, default=str))


if __name__ == "__main__":
    main()
