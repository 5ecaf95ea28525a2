"""python -m pyvc.prove PID --out FILE: generate and discharge every obligation of the property's contracts."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import sys
import time
import traceback

sys.setrecursionlimit(6000)


class Registry:
    def __init__(self):
        self.contracts, self.claims, self.hooks, self.assumptions, self.lemmas = {}, {}, {}, {}, {}
        self.frames = {}
        self.mklib = None

    def add(self, con, *pids, alias=None):
        self.contracts[con.key] = con
        for p in pids:
            self.claims.setdefault(p, []).append(con.key)
        return con

    def claim(self, pid, *keys):
        self.claims.setdefault(pid, []).extend(keys)

    def assume(self, pids, text):
        for p in pids.split():
            self.assumptions.setdefault(p, []).append(text)


def registry():
    import contracts
    reg = Registry()
    for m in sorted(m.name for m in pkgutil.iter_modules(contracts.__path__)):
        mod = importlib.import_module("contracts." + m)
        if hasattr(mod, "register"):
            mod.register(reg)
    return reg


def job(key, scen, q, selfcheck=None):
    from . import verify, logic
    t0 = time.time()
    try:
        import z3
        reg = REG
        con = reg.contracts[key]
        if scen is not None:
            con = verify.Contract(con.key, con.spec, [con.scenarios[scen]], con.requires, con.modular, con.post, con.covers, con.note, con.frame, con.budget, con.atomic)
            cs = dict(reg.contracts)
            cs[key] = con
        else:
            cs = reg.contracts
        obs, info = verify.generate(REPO, cs, con, reg.hooks, mklib=reg.mklib)
        tg = time.time() - t0
        res = []
        if verify.FRAMES[0]:
            obs = [o for o in obs if not verify.VALUES.search(o.name)]
        for o in obs:
            if sum(r["status"] != "proved" for r in res) >= 3:
                o.budget = min(o.budget, 3000)      # enough has failed to decide the run
            res.append(verify.discharge(o))
        info["axioms"] = set(logic.USED)
        q.put((key, scen, res, {k: sorted(v) if isinstance(v, set) else v for k, v in info.items()}, tg, logic.STATS["time"], time.time() - t0))
    except BaseException as e:
        q.put((key, scen, [{"name": f"{key}: verifier", "status": "error", "detail": traceback.format_exc()[-1500:], "wall": 0}], {}, 0, 0, time.time() - t0))


def lemma_job(name, _, q):
    from . import verify, logic
    t0 = time.time()
    try:
        lm = logic.LEMMAS[name]
        logic.RANK[0] = lm.rank
        res = [verify.discharge(verify.Ob(f"lemma {name}: {label}", asm, goal, bare=bare)) for label, asm, goal, bare in lm.steps()]
        for r in res:
            r["kind"] = "lemma"
        q.put((name, None, res, {"axioms": sorted(logic.USED)}, 0, logic.STATS["time"], time.time() - t0))
    except BaseException:
        q.put((name, None, [{"name": f"lemma {name}", "status": "error", "detail": traceback.format_exc()[-1500:], "wall": 0}], {}, 0, 0, time.time() - t0))


REG = REPO = None


def main():
    global REG, REPO
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--out")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--limit", type=float, default=3600, help="seconds; what is not decided by then is reported as not discharged")
    ap.add_argument("--learn", action="store_true", help="record the attempts that succeeded in contracts/hints.json")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    t0 = time.time()
    from . import logic
    from .repo import Repo
    REPO = Repo()
    REG = registry()
    from . import verify
    verify.FRAMES[0] = a.pid in REG.frames
    todo = list(dict.fromkeys(REG.claims.get(a.pid, [])))
    if a.only:
        todo = [k for k in REG.contracts if a.only in k]
    done, queue, running = set(), [], []
    for k in todo:
        done.add(k)
        queue += [(k, i) for i in range(len(REG.contracts[k].scenarios))]
    q = mp.Queue()
    results, infos, solver, walls = [], {"inlined": set(), "contracts": set(), "lib": set(), "functions": set(), "axioms": set()}, 0.0, {}
    paths, unchecked = 0, set()
    ctx = mp.get_context("fork")
    started = {}
    while queue or running:
        if time.time() - t0 > a.limit:
            for p, k, i, _ in running:
                p.kill()
            results += [{"name": f"{k} [scenario {i}]", "status": "unknown", "detail": "time limit", "wall": 0} for k, i in [r[1:3] for r in running] + queue]
            break
        while queue and len(running) < a.jobs:
            k, i = queue.pop(0)
            p = ctx.Process(target=lemma_job if i is None else job, args=(k, i, q), daemon=True)
            p.start()
            running.append((p, k, i, time.time()))
        try:
            key, scen, res, info, tg, ts, tw = q.get(timeout=1.0)
        except Exception:
            for r in list(running):
                if not r[0].is_alive() and r[0].exitcode not in (0, None):
                    running.remove(r)
                    results.append({"name": f"{r[1]}: verifier process", "status": "error", "detail": f"exit {r[0].exitcode}", "wall": 0})
            continue
        for r in list(running):
            if (r[1], r[2]) == (key, scen):
                r[0].join(5)
                running.remove(r)
        results += res
        solver += ts
        paths += info.get("paths", 0)
        walls[f"{key}#{scen}"] = round(tw, 2)
        for n in infos:
            infos[n] |= set(info.get(n, []))
        if a.v:
            print(f"{key}#{scen}: {len(res)} obligations, {sum(r['status'] != 'proved' for r in res)} open, generate {tg:.1f}s, total {tw:.1f}s", flush=True)
        for n in info.get("axioms", []):
            if n in logic.LEMMAS and ("lemma", n) not in done:
                done.add(("lemma", n))
                queue.append((n, None))
        for c in info.get("contracts", []):
            c = c if c in REG.contracts else c
            con = REG.contracts.get(c)
            if con is None:
                continue
            real = getattr(con, "con", con).key
            if real in REG.contracts and not getattr(REG.contracts[real], "scenarios", None):
                unchecked.add(f"the contract of {real} is assumed, not proved (it is checked at run time only)")
            if real not in done and not a.only and real in REG.contracts and getattr(REG.contracts[real], 'scenarios', None):
                done.add(real)
                queue += [(real, i) for i in range(len(REG.contracts[real].scenarios))]
    out = {"obligations": [{"name": r["name"], "status": r["status"], "detail": r["detail"], "wall": round(r["wall"], 3), "kind": r.get("kind", "vc")} for r in sorted(results, key=lambda r: r["name"])],
           "functions": sorted(infos["functions"]), "inlined": sorted(infos["inlined"] - infos["functions"]),
           "trusted": sorted(infos["lib"]), "lemmas": sorted(n for n in infos["axioms"] if n in logic.LEMMAS),
           "assumptions": [f"assumed: {n}" for n in sorted(infos["axioms"]) if n and n not in logic.LEMMAS and not n.startswith("def")] + REG.assumptions.get(a.pid, []) + REG.assumptions.get("*", []) + sorted(unchecked),
           "solver": "z3 " + __import__("z3").get_version_string(), "solver_s": round(solver, 2), "paths": paths, "walls": walls, "wall": round(time.time() - t0, 2)}
    if a.out:
        json.dump(out, open(a.out, "w"))
    if a.learn:
        from . import verify
        hs = dict(verify.hints())
        for r in results:
            if "how" in r and (r["how"] != [0, False] or r["name"] in hs):
                hs[r["name"]] = r["how"]
        json.dump(dict(sorted(hs.items())), open(verify.HINTS, "w"), indent=0)
    bad = [o for o in out["obligations"] if o["status"] != "proved"]
    if a.v or not a.out:
        for o in bad:
            print("OPEN", o["name"], "::", o["status"], o["detail"][:1500], o["wall"])
        print(f"{len(out['obligations'])} obligations, {len(bad)} open, solver {out['solver_s']} s, wall {out['wall']} s")
        print("functions:", *out["functions"])
        print("inlined:", *out["inlined"])
        print("trusted:", *out["trusted"])


if __name__ == "__main__":
    main()
