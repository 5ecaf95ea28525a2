"""Contracts, the obligations they generate from /repo's source, and their discharge."""
import re
import time
import traceback
import json
import os
import z3
from . import logic
from .logic import *
from .logic import STATS
from .values import *
from .repo import Repo, FuncInfo, ClassInfo
from .interp import Engine
from .lib import Lib1, CellGhost, CellPath


class Out:
    """one allowed outcome: under `guard` (a formula over the entry state) the call returns make(st), which also
    applies the effects to st, or raises exc"""
    def __init__(self, guard, make=None, exc=None):
        self.guard, self.make, self.exc = guard, make, exc


def ret(f, guard=TRUE):
    return Out(guard, f)


def raises(exc, guard=TRUE):
    return Out(guard, None, exc)


class Scenario:
    """a way of calling the function: build(eng, st) -> (self value or None, args, kwargs); assumptions go on st"""
    def __init__(self, name, build):
        self.name, self.build = name, build


class Contract:
    def __init__(self, key, spec, scenarios=(), requires=None, modular=True, post=None, covers=True, note="", frame=True, budget=20000, atomic=False):
        self.key, self.spec, self.scenarios, self.requires = key, spec, list(scenarios), requires
        self.modular, self.post, self.covers, self.note, self.frame, self.budget, self.atomic = modular, post, covers, note, frame, budget, atomic

    def apply(self, eng, st, env):
        """the call seen from a caller: prove the precondition, take the specified outcomes"""
        for label, f in (self.requires(eng, st, env) if self.requires else []):
            if not eng.must(st, f, 200):
                eng.side.append((f"precondition of {self.key}: {label}", list(st.pc), f))
                st.assume(f)
        outs = self.spec(eng, st, env)
        live = [o for o in outs if not z3.is_false(z3.simplify(o.guard))]
        if len(live) > 1:
            live = [o for o in live if not eng.must(st, Not(o.guard))]
        known = len(live) == 1 and not z3.is_true(live[0].guard) and eng.must(st, live[0].guard)
        for o in live:
            s = st.clone() if len(live) > 1 else st
            if not known:
                s.assume(o.guard)
            if o.exc:
                yield s, Raised(o.exc)
            else:
                n0, k = logic._n[0], len(s.pc)
                r = o.make(s)
                if not isinstance(r, list) and len(s.pc) > k:
                    # values the contract leaves open: merging of paths may forget which one it was
                    new = {c for f in s.pc[k:] for c in consts_of(f)[1] if c not in DEFS and (m := re.search(r"!(\d+)$", c)) and int(m[1]) > n0}
                    s.ghost["choice"] = s.ghost.get("choice", ()) + tuple(sorted(new))
                    s.ghost["choicepc"] = s.ghost.get("choicepc", ()) + tuple(i for i in range(k, len(s.pc)) if new & set(consts_of(s.pc[i])[1]))
                if isinstance(r, list):
                    yield from r
                else:
                    yield s, r


class ClassContract:
    """constructor call `Cls(...)` through the contract of Cls.__init__"""
    modular = True

    def __init__(self, name, con, alloc):
        self.key, self.con, self.alloc = name, con, alloc

    def apply(self, eng, st, args, kw):
        cls = eng.repo.classes[self.key]
        ref = self.alloc(eng, cls, st)
        init = eng.repo.find_method(cls, "__init__")
        fv = Func(init, (), ref, init.module, init.cls)
        r = eng.bindargs(fv, args, kw, st)
        if r is None:
            yield st, Raised("TypeError")
            return
        env, node = r
        for st1, env1 in eng.fill_defaults(fv, env, node, st):
            for st2, v in self.con.apply(eng, st1, env1):
                yield st2, v if isinstance(v, Raised) else ref


class Ob:
    def __init__(self, name, assumptions, goal, budget=20000, expect="proved", bare=False):
        self.name, self.assumptions, self.goal, self.budget, self.expect = name, assumptions, goal, budget, expect
        self.bare = bare    # from the assumptions alone, without the axioms of the vocabulary


def result_eq(eng, a, sa, b, sb):
    """the real result a equals the specified result b (plus: no repetitions where the specified list has none)"""
    out = []
    if isinstance(b, Coll) or isinstance(b, Ref) and isinstance(sb.heap[b.id], CellColl):
        kind = eng.kind(b, sb)
        if kind in ("list", "set", "tuple") and not (isinstance(a, Opaque)):
            ka = eng.kind(a, sa)
            if ka in ("list", "set", "dict", "tuple") and ka != kind:
                return [("result has the specified type", FALSE)]
        cb = eng.iterable(b, sb)
        if isinstance(cb, Coll) and cb.nodup and kind in ("list", "iter"):
            ca = eng.coll(a, sa)
            if not ca.nodup:
                out.append(("result lists no element twice", eng.lib.nodup_formula(eng, ca, sa)))
    out.insert(0, ("result", eng.eq(a, b, sa, sb)))
    return out


def impls(repo, key, contracts=()):
    """(FuncInfo, concrete class or None) pairs that must satisfy the contract: the function and every override without a
    contract of its own"""
    key, _, kind = key.partition("#")
    if kind:
        contracts = {k.partition("#")[0] for k in contracts if k.endswith("#" + kind)}
    if "." not in key:
        f = repo.func(key)
        return [(f, None)] if f else []
    c, m = key.rsplit(".", 1)
    k = repo.classes.get(c)
    if k is None:
        return []
    out, seen = [], set()
    f = repo.find_method(k, m)
    if f is None:
        return []
    out.append((f, k))
    seen.add(id(f))
    for s in repo.subclasses(k.short):
        g = repo.find_method(s, m)
        if g is not None and id(g) not in seen and g.qual not in contracts:
            seen.add(id(g))
            out.append((g, s))
    return out


FRAMES = [False]        # only the obligations on what a call leaves unchanged
VALUES = re.compile(r"\]: (result|raises \w+ only where|returns only where)")


def generate(repo, contracts, con, hooks=None, deadline=None, mklib=None):
    """symbolically execute every implementation of con in every scenario -> ([Ob], stats)"""
    obs, info = [], {"inlined": set(), "contracts": set(), "lib": set(), "paths": 0, "functions": set()}
    targets = impls(repo, con.key, contracts)
    if not targets:
        obs.append(Ob(f"{con.key}: function exists", [], FALSE))
        return obs, info
    key, _, kind = con.key.partition("#")
    if kind:    # a second, more detailed contract of the same function: callees are used through theirs of this kind
        contracts = dict(contracts)
        contracts.update({k.partition("#")[0]: c for k, c in list(contracts.items()) if k.endswith("#" + kind)})
    for f, cls in targets:
        if f.qual != key and f.qual in contracts and contracts[f.qual] is not con:
            continue
        base = con.key if f.qual == key else f"{con.key} as {f.qual}"
        info["functions"].add(f"{f.module.name}:{f.qual}")
        for sc in con.scenarios:
            lib = mklib() if mklib else Lib1()
            eng = Engine(repo, contracts, lib)
            eng.loop_hooks = dict(hooks or {})
            eng.verifying = f"{f.module.name}:{f.qual}"
            name = f"{base} [{sc.name}]"
            try:
                st = State()
                selfv, args, kw = sc.build(eng, st, cls) if sc.build.__code__.co_argcount == 3 else sc.build(eng, st)
                fv = Func(f, (), None if f.is_static else selfv, f.module, f.cls)
                b = eng.bindargs(fv, args, kw, st)
                if b is None:
                    obs.append(Ob(name + ": accepts these arguments", [], FALSE))
                    continue
                env, node = b
                envs = list(eng.fill_defaults(fv, env, node, st))
                assert len(envs) == 1
                st, env = envs[0]
                if any(x.arg not in env for x in node.args.args):
                    obs.append(Ob(name + ": accepts these arguments", [], FALSE))
                    continue
                for label, g in (con.requires(eng, st, env) if con.requires else []):
                    st.assume(g)
                entry = st.clone()
                obs.append(Ob(name + ": precondition is satisfiable", list(entry.pc), FALSE, 2500, "unproved"))
                specs = []
                if con.spec is not None:
                    for o in con.spec(eng, entry.clone(), env):
                        s = entry.clone().assume(o.guard)
                        if o.exc is None:
                            r = o.make(s)
                            specs += [(o, s1, v) for s1, v in (r if isinstance(r, list) else [(s, r)])]
                        else:
                            specs.append((o, s, Raised(o.exc)))
                eng.side = []
                eng.entry, eng.args0 = entry, env
                outs = list(eng.run(fv, dict(env), st.clone()))
                if any(h in s1.heap and s1.heap[h] is not c for s1, _ in outs for h, c in eng.frozen.items()):
                    raise Unsupported("an object that a loop may replace is changed")
                if len(outs) > 1:
                    outs = list(eng.merge(outs, entry))
                info["paths"] += len(outs)
                n = 0
                for s1, v in outs:
                    n += 1
                    if isinstance(v, Raised):
                        gs = [o.guard for o, _, w in specs if isinstance(w, Raised) and eng.exc_sub(v.exc, w.exc)]
                        obs.append(Ob(f"{name}: raises {v.exc} only where specified (path {n})", list(s1.pc), Or(*gs) if gs else FALSE, con.budget))
                        if con.atomic:
                            for h in entry.heap:
                                goal = eng.cell_eq(s1.cell(Ref(h)), entry.heap[h], s1, entry) if not isinstance(entry.heap[h], CellRegion) else TRUE
                                if not z3.is_true(z3.simplify(goal)):
                                    obs.append(Ob(f"{name}: state of {cellname(entry, h, env)} when it raises {v.exc} (path {n})", list(s1.pc), goal, con.budget))
                        continue
                    rs = [(o, s2, w) for o, s2, w in specs if not isinstance(w, Raised)]
                    if con.spec is not None:
                        goal = Or(*[o.guard for o, _, _ in rs]) if rs else FALSE
                        if not z3.is_true(z3.simplify(goal)):
                            obs.append(Ob(f"{name}: returns only where specified (path {n})", list(s1.pc), goal, con.budget))
                    for o, s2, w in rs:
                        extra = [p for p in s2.pc if not any(p is q or p.eq(q) for q in s1.pc)]
                        pc = list(s1.pc) + extra
                        for label, goal in (result_eq(eng, v, s1, w, s2) if con.post is None else []):
                            obs.append(Ob(f"{name}: {label} (path {n})", pc, goal, con.budget))
                        if con.frame:
                            for h in entry.heap:
                                if isinstance(entry.heap[h], CellRegion):
                                    continue
                                if h not in s1.heap:
                                    continue
                                goal = eng.cell_eq(s1.cell(Ref(h)), s2.heap[h], s1, s2)
                                if FRAMES[0] or not z3.is_true(z3.simplify(goal)):
                                    obs.append(Ob(f"{name}: state of {cellname(entry, h, env)} (path {n})", pc, goal, con.budget))
                    if con.spec is None and con.frame:      # nothing that was there before has changed
                        for h in entry.heap:
                            if h in s1.heap and not isinstance(entry.heap[h], CellRegion):
                                goal = eng.cell_eq(s1.cell(Ref(h)), entry.heap[h], s1, entry)
                                if FRAMES[0] or not z3.is_true(z3.simplify(goal)):
                                    obs.append(Ob(f"{name}: state of {cellname(entry, h, env)} (path {n})", list(s1.pc), goal, con.budget))
                    if con.post is not None:
                        for label, goal in con.post(eng, entry, s1, env, v):
                            obs.append(Ob(f"{name}: {label} (path {n})", list(s1.pc), goal, con.budget))
                for label, pc, goal in eng.side:
                    obs.append(Ob(f"{name}: {label}", pc, goal, con.budget))
                if n == 0:
                    obs.append(Ob(name + ": has an outcome", [], FALSE))
            except Unsupported as e:
                obs.append(Ob(f"{name}: within the verified subset ({e})", [], FALSE, 0))
            except RecursionError:
                obs.append(Ob(f"{name}: within the verified subset (recursion)", [], FALSE, 0))
            except Exception as e:
                tb = traceback.format_exc().strip().splitlines()[-6:]
                obs.append(Ob(f"{name}: translates ({type(e).__name__}: {e}) {' | '.join(t.strip() for t in tb)}"[:700], [], FALSE, 0))
            info["inlined"] |= eng.inlined
            info["contracts"] |= eng.used_contracts
            info["lib"] |= eng.used_lib
    return obs, info


def cellname(st, h, env):
    for k, v in env.items():
        if isinstance(v, Ref) and v.id == h:
            return k
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), (CellGraph, CellObj)):
            for n, w in st.heap[v.id].fields.items():
                if isinstance(w, Ref) and w.id == h:
                    return f"{k}.{n}"
    return "the random state" if h == -1 else f"object {h}"


HINTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "hints.json")
_hints = []


def hints():
    """for some obligations, the order of assertions and the solver mode that decide them quickly (only a matter of time)"""
    if not _hints:
        _hints.append(json.load(open(HINTS)) if os.path.exists(HINTS) else {})
    return _hints[0]


def discharge(ob):
    """-> dict for the evidence"""
    t0 = time.time()
    if z3.is_false(ob.goal) and not ob.assumptions and ob.expect == 'proved':
        return {"name": ob.name, "status": "failed", "detail": "", "wall": 0.0}
    if ob.expect == "unproved":
        r, s = check(list(ob.assumptions), ob.budget, 0, False)
        ok = r != z3.unsat
        return {"name": ob.name, "status": "proved" if ok else "failed", "detail": "precondition contradictory" if not ok else "", "wall": time.time() - t0, "kind": "vacuity"}
    if z3.is_true(z3.simplify(ob.goal)):
        return {"name": ob.name, "status": "proved", "detail": "by construction", "wall": time.time() - t0, "kind": "vc"}
    r = prove(ob.assumptions, ob.goal, ob.budget, hints().get(ob.name), ob.bare)
    d = {"name": ob.name, "status": r.status, "detail": "", "wall": r.wall, "kind": "vc"}
    if r.how:
        d["how"] = r.how
    if r.status != "proved":
        d["detail"] = (r.model or r.reason or "")[:3000]
    return d
