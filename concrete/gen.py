"""Inputs for the run-time contract layer: diagrams, parameters, snapshots.

A diagram specification is JSON-able:
  {"V": [...], "E": [[a, b], ...], "dec": [[agent, [nodes]], ...], "util": [[agent, [nodes]], ...]}
and optional parameters {"dom": {v: [...]}, "tab": {v: {"parents": [...], "rows": [[[outcomes], [probs]], ...]}}}.
"""
import itertools

import numpy as np

import oracle as O


def tup(E):
    return [tuple(e) for e in E]


def to_D(s):
    return O.D(s["V"], tup(s["E"]), {a: list(ns) for a, ns in s["dec"]}, {a: list(ns) for a, ns in s["util"]})


def build(s, kind=None):
    import pycid
    kind = kind or s.get("kind", "MACID")
    cls = {"MACIDBase": pycid.core.macid_base.MACIDBase, "MACID": pycid.MACID, "CID": pycid.CID,
           "CBN": pycid.CausalBayesianNetwork}[kind]
    E = tup(s["E"])
    if kind == "CBN":
        g = cls(E)
    elif kind == "CID":
        g = cls(E, decisions=list(dict(map(tuple, s["dec"])).get(0, [])) if s["dec"] else [],
                utilities=list(dict(map(tuple, s["util"])).get(0, [])) if s["util"] else [])
    else:
        g = cls(E, agent_decisions={a: list(n) for a, n in s["dec"]}, agent_utilities={a: list(n) for a, n in s["util"]})
    for v in s["V"]:
        if v not in g.nodes:
            g.add_node(v)
    return g


def structure(g):
    out = [type(g).__name__, sorted(map(str, g.nodes)), sorted(map(str, g.edges))]
    for f in ("agent_decisions", "agent_utilities"):
        if hasattr(g, f):
            out.append(sorted((repr(a), sorted(ns)) for a, ns in getattr(g, f).items()))
    for f in ("decision_agent", "utility_agent"):
        if hasattr(g, f):
            out.append(sorted((n, repr(a)) for n, a in getattr(g, f).items()))
    if hasattr(g, "agents"):
        out.append(sorted(map(repr, g.agents)))
    return out


def table(g, v):
    """the distribution of v as {parent outcomes (parents sorted by name): {outcome: prob}}"""
    cpd = g.get_cpds(v)
    if cpd is None:
        return None
    vs = list(cpd.variables)
    sn = {x: cpd.state_names.get(x, g.model.domain.get(x)) for x in vs}
    order = sorted(vs[1:])
    out = {}
    vals = np.asarray(cpd.values)
    for idx in itertools.product(*[range(n) for n in vals.shape]):
        asg = {x: sn[x][i] if sn[x] is not None and i < len(sn[x]) else f"#{i}" for x, i in zip(vs, idx)}
        key = repr([(p, asg[p]) for p in order])
        out.setdefault(key, {})[repr(asg[v])] = round(float(vals[idx]), 9)
    return out


def snapshot(g):
    out = {"structure": structure(g), "model": sorted(map(str, g.model.keys())),
           "domain": sorted((k, repr(list(v))) for k, v in g.model.domain.items()),
           "cpds": sorted(c.variable for c in g.get_cpds()),
           "kinds": sorted((v, type(g.get_cpds(v)).__name__) for v in g.nodes if g.get_cpds(v) is not None),
           "tables": {v: table(g, v) for v in g.nodes}}
    return out


def diff(a, b):
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                for q in a[k]:
                    if a[k][q] != b[k].get(q):
                        return f"{k}[{q}]: {a[k][q]} -> {b[k].get(q)}"
            return f"{k}: {a[k]} -> {b[k]}"
    return "nothing"


NAMES = [["A", "B", "C", "D", "E", "F", "G", "H"], ["D1", "D", "D2", "U", "X", "X1", "Y", "U1"],
         ["X", "mech", "XX", "Z", "a", "b", "aa", "q"], ["n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7"],
         ["Obs", "Act", "Rew", "S", "T", "SS", "AB", "BA"]]


def random_dag(rng, n, p=None, names=None):
    names = list(names or rng.choice(NAMES))[:n]
    rng.shuffle(names)
    p = p if p is not None else rng.choice([0.25, 0.4, 0.5, 0.6, 0.75])
    E = [[names[i], names[j]] for i in range(n) for j in range(i + 1, n) if rng.random() < p]
    V = list(names)
    rng.shuffle(V)
    rng.shuffle(E)
    return V, E


def random_diagram(rng, nmax=6, nmin=3, agents=None, barren_utils=None, min_dec=1, max_dec=4, single=False, p=None):
    """random roles; with barren_utils every utility is childless"""
    n = rng.randint(nmin, nmax)
    V, E = random_dag(rng, n, p=p)
    if agents is None:
        agents = [0] if single else rng.choice([[0], [0, 1], [1, 2], ["a", "b"], [0, 1, 2]])
    barren_utils = rng.random() < 0.6 if barren_utils is None else barren_utils
    barren = [v for v in V if not O.children(tup(E), v)]
    order = list(V)
    rng.shuffle(order)
    util = {a: [] for a in agents}
    dec = {a: [] for a in agents}
    cand = [v for v in order if v in barren] if barren_utils else order
    k = rng.randint(1, max(1, min(len(cand), 3)))
    us = cand[:k]
    for u in us:
        util[rng.choice(agents)].append(u)
    rest = [v for v in order if v not in us]
    if barren_utils:
        rest.sort(key=lambda v: v in barren)
    for d in rest[:rng.randint(min_dec, max_dec)]:
        dec[rng.choice(agents)].append(d)
    return {"V": V, "E": E, "dec": [[a, dec[a]] for a in agents], "util": [[a, util[a]] for a in agents]}


def small_diagrams(names, nroles=3):
    """every DAG over the names (up to order of names) with every role assignment of one agent having a decision and a utility"""
    for E in O.all_dags(names):
        for roles in itertools.product("CDU", repeat=len(names)):
            if "D" in roles and "U" in roles:
                yield {"V": list(names), "E": [list(e) for e in E],
                       "dec": [[0, [v for v, r in zip(names, roles) if r == "D"]]],
                       "util": [[0, [v for v, r in zip(names, roles) if r == "U"]]]}


def connected(s):
    V, E = s["V"], s["E"]
    seen, st = {V[0]}, [V[0]]
    while st:
        x = st.pop()
        for a, b in E:
            for p, q in ((a, b), (b, a)):
                if p == x and q not in seen:
                    seen.add(q)
                    st.append(q)
    return len(seen) == len(V)


def component(s, v, drop=()):
    E = [e for e in s["E"] if tuple(e) not in drop]
    seen, st = {v}, [v]
    while st:
        x = st.pop()
        for a, b in E:
            for p, q in ((a, b), (b, a)):
                if p == x and q not in seen:
                    seen.add(q)
                    st.append(q)
    return seen


# ------------------------------------------------------------------ parameters
def random_params(rng, s, dets=0.3, zero=0.15, maxdom=3, numeric=True, small=False):
    """domains for all nodes and tables for non-decisions"""
    E = tup(s["E"])
    decs = {d for _, ds in s["dec"] for d in ds}
    utils = {u for _, us in s["util"] for u in us}
    dom, tab = {}, {}
    for v in s["V"]:
        k = 2 if small and v not in utils else rng.choice([2, 2, 2, min(3, maxdom)])
        if v in utils:
            vals = rng.sample([-3, -2, -1, 0, 1, 2, 3, 5, 7], k)
        else:
            vals = rng.choice([[0, 1, 2], [-1, 0, 1], [1, 2, 4], [2, 0, 5]])[:k]
            if rng.random() < 0.2:
                vals = list(reversed(vals))
        dom[v] = vals
    coarse = rng.random() < 0.35   # few different probabilities: tables of different variables may coincide
    for v in s["V"]:
        if v in decs:
            continue
        ps = sorted(O.parents(E, v))
        rows = []
        for pv in itertools.product(*[dom[p] for p in ps]):
            if rng.random() < dets:
                w = [0] * len(dom[v])
                w[rng.randrange(len(w))] = 1
            elif coarse and len(dom[v]) == 2:
                w = rng.choice([[1, 3], [3, 1]])
            else:
                w = [0 if rng.random() < zero else rng.randint(1, 8) for _ in dom[v]]
                if sum(w) == 0:
                    w[0] = 1
            t = sum(w)
            rows.append([list(pv), [x / t for x in w]])
        tab[v] = {"parents": ps, "rows": rows}
    return dict(s, dom=dom, tab=tab)


class TableFn:
    """a relationship given by an explicit table"""
    def __init__(self, parents, dom, rows):
        self.parents, self.dom = parents, dom
        self.rows = {tuple(k): list(p) for k, p in rows}
        self.__name__ = "table"

    def __call__(self, **pv):
        return dict(zip(self.dom, self.rows[tuple(pv[p] for p in self.parents)]))


def param(g, s, order=None, policies=None):
    """give g the distributions of s (decisions get their domain, or the policy tables in policies)"""
    import pycid
    from pycid.core.cpd import DecisionDomain, StochasticFunctionCPD
    E = tup(s["E"])
    decs = {d for _, ds in s["dec"] for d in ds}
    topo = []
    while len(topo) < len(s["V"]):
        for v in s["V"]:
            if v not in topo and O.parents(E, v) <= set(topo):
                topo.append(v)
    for v in order or topo:
        if v in decs and not (policies and v in policies):
            g.model[v] = list(s["dom"][v])
        else:
            t = (policies or {}).get(v) or s["tab"][v]
            fn = TableFn(t["parents"], s["dom"][v], t["rows"])
            if order:
                g.model[v] = fn
            else:
                g.model[v] = StochasticFunctionCPD(v, fn, g, domain=list(s["dom"][v]), label="t")
    return g


def random_policy(rng, s, d, pure=False):
    E = tup(s["E"])
    ps = sorted(O.parents(E, d))
    rows = []
    for pv in itertools.product(*[s["dom"][p] for p in ps]):
        if pure:
            w = [0] * len(s["dom"][d])
            w[rng.randrange(len(w))] = 1
        else:
            w = [rng.randint(0, 4) for _ in s["dom"][d]]
            if sum(w) == 0:
                w[-1] = 1
        rows.append([list(pv), [x / sum(w) for x in w]])
    return {"parents": ps, "rows": rows}


def all_pure(s, d):
    E = tup(s["E"])
    ps = sorted(O.parents(E, d))
    ctx = list(itertools.product(*[s["dom"][p] for p in ps]))
    for ch in itertools.product(s["dom"][d], repeat=len(ctx)):
        yield {"parents": ps, "rows": [[list(c), [1.0 if o == x else 0.0 for o in s["dom"][d]]] for c, x in zip(ctx, ch)]}


class Net:
    """brute-force joint distribution"""
    def __init__(self, s, policies=None, E=None):
        self.V = list(s["V"])
        self.dom = {v: list(s["dom"][v]) for v in self.V}
        self.t = {}
        decs = {d for _, ds in s["dec"] for d in ds}
        for v in self.V:
            t = (policies or {}).get(v) or s["tab"].get(v)
            if t is None:
                continue
            self.t[v] = (list(t["parents"]), {tuple(k): dict(zip(self.dom[v], p)) for k, p in t["rows"]})
        E = tup(s["E"])
        self.topo = []
        while len(self.topo) < len(self.V):
            for v in self.V:
                if v not in self.topo and O.parents(E, v) <= set(self.topo):
                    self.topo.append(v)

    def joint(self, do=None):
        do = do or {}
        acc = [({}, 1.0)]
        for v in self.topo:
            nxt = []
            for a, p in acc:
                if v in do:
                    d = {do[v]: 1.0}
                elif v in self.t:
                    ps, rows = self.t[v]
                    d = rows[tuple(a[q] for q in ps)]
                else:
                    d = {o: 1.0 / len(self.dom[v]) for o in self.dom[v]}
                for o, q in d.items():
                    if q > 0:
                        b = dict(a)
                        b[v] = o
                        nxt.append((b, p * q))
            acc = nxt
        return acc

    def cond(self, query, ctx, do=None):
        """{tuple of query outcomes: prob}, total context probability"""
        tot, out = 0.0, {}
        for a, p in self.joint(do):
            if all(a[k] == x for k, x in ctx.items()):
                tot += p
                k = tuple(a[q] for q in query)
                out[k] = out.get(k, 0.0) + p
        return ({k: v / tot for k, v in out.items()} if tot > 0 else None), tot

    def ev(self, var, ctx=None, do=None):
        d, tot = self.cond([var], ctx or {}, do)
        return sum(k[0] * p for k, p in d.items()) if d is not None else None
