"""Run-time contracts of games, random generation and analyses (C17-C22)."""
import itertools
import random as stdrandom

import numpy as np

import gen as G
import oracle as O
from props1 import Viol, need, raises
from props2 import all_pols, close, cpd_table, decs, eu, npure, pdiagram, positive_contexts, topo, utils


def positive(s, rng, dyadic=False):
    """make every probability positive"""
    for v, t in s["tab"].items():
        for r in t["rows"]:
            k = len(r[1])
            if dyadic:
                r[1] = list(rng.choice({1: [[1.0]], 2: [[0.5, 0.5], [0.25, 0.75], [0.75, 0.25], [0.125, 0.875]],
                                        3: [[0.25, 0.25, 0.5], [0.5, 0.25, 0.25], [0.125, 0.5, 0.375]]}[k]))
            else:
                w = [rng.randint(1, 7) for _ in range(k)]
                r[1] = [x / sum(w) for x in w]
    return s


def game(rng, agents, one_each=True, nmax=6, spread=0.5, limit=600):
    """a diagram whose agents each have decisions (with perfect recall) and a utility"""
    while True:
        n = rng.randint(2 * len(agents), max(nmax, 2 * len(agents)))
        V, E = G.random_dag(rng, n, p=rng.choice([0.35, 0.5, 0.65]))
        barren = [v for v in V if not O.children(G.tup(E), v)]
        rng.shuffle(barren)
        if len(barren) < len(agents) and rng.random() < 0.8:
            continue
        us = (barren + [v for v in rng.sample(V, n) if v not in barren])[:len(agents)]
        rest = [v for v in V if v not in us]
        rng.shuffle(rest)
        rest.sort(key=lambda v: not (O.descendants(G.tup(E), v) & set(us)))
        dec = {a: [] for a in agents}
        for a, d in zip(agents, rest):
            dec[a].append(d)
        if any(not ds for ds in dec.values()):
            continue
        if not one_each and len(rest) > len(agents):
            a = rng.choice(agents)
            d1, d2 = dec[a][0], rest[len(agents)]
            if d1 in O.descendants(G.tup(E), d2):
                d1, d2 = d2, d1
            if d2 in us or d1 in us:
                continue
            need_ = {d1} | O.parents(G.tup(E), d1)
            if any(d2 in O.ancestors_refl(G.tup(E), [x]) for x in need_):
                continue
            E = E + [[x, d2] for x in need_ if [x, d2] not in E]
            dec[a] = [d1, d2]
        s = {"V": V, "E": E, "dec": [[a, dec[a]] for a in agents], "util": [[a, [us[i]]] for i, a in enumerate(agents)], "kind": "MACID"}
        if not G.connected(s) or not O.is_acyclic(V, G.tup(E)):
            continue
        s = G.random_params(rng, s, small=rng.random() < 0.8, maxdom=3)
        positive(s, rng, dyadic=rng.random() < 0.7)
        if max(npure(s, ds) for ds in dec.values()) > 70 or npure(s, decs(s)) > limit:
            continue
        size = 1
        for v in {x for d in decs(s) for x in O.parents(G.tup(E), d) | {d}}:
            size *= len(s["dom"][v])
        if size > 130:
            continue
        return s


# ------------------------------------------------------------------ C17
def walk(game, s, order, net, agents, dset):
    """compare the tree with the diagram, taking order as the order of the moves"""
    seen = {}
    E = G.tup(s["E"])

    def go(node, i, hist):
        if i == len(order):
            need(node.is_terminal, f"more moves after {hist}")
            out = node.outcome
            need(out is not None, f"no payoff after {hist}")
            for k, a in enumerate(agents):
                exp = sum(net.ev(u, hist) for u in dict(map(tuple, s["util"]))[a])
                need(close(float(out[k]), exp), f"payoff of {a!r} after {hist} is {float(out[k])}, expected utility {exp}")
            return
        v = order[i]
        need(not node.is_terminal, f"the game ends after {hist}, before {v}")
        dom = s["dom"][v]
        need(len(node.children) == len(dom), f"{len(node.children)} moves at {v} after {hist}, domain {dom}")
        if v in dset:
            owner = next(a for a, ds in s["dec"] if v in ds)
            need(not node.player.is_chance, f"{v} is a chance move")
            need(node.player.label == str(owner), f"{v} is moved by {node.player.label}, owner {owner!r}")
            need([a.label for a in node.infoset.actions] == [str(o) for o in dom], f"actions of {v} are {[a.label for a in node.infoset.actions]}, domain {dom}")
            key = (v, tuple(sorted((p, hist[p]) for p in O.parents(E, v))))
            iid = node.infoset
            for k2, i2 in seen.items():
                need((k2 == key) == (i2 == iid), f"moves {k2} and {key} are {'in one' if i2 == iid else 'not in one'} information set")
            seen[key] = iid
        else:
            need(node.player.is_chance, f"{v} is moved by {node.player.label}")
            d, _ = net.cond([v], hist)
            for o, a in zip(dom, node.infoset.actions):
                need(a.label == str(o), f"chance outcomes of {v} are {[x.label for x in node.infoset.actions]}, domain {dom}")
                need(close(float(a.prob), d.get((o,), 0.0)), f"probability of {v}={o} after {hist} is {float(a.prob)}, expected {d.get((o,), 0.0)}")
        for o, ch in zip(dom, node.children):
            go(ch, i + 1, dict(hist, **{v: o}))
    go(game.root, 0, {})


class C17:
    slow_ok = True

    @staticmethod
    def scenarios(rng):
        while True:
            ag = rng.choice([[0, 1], [0, 1], [1, 2], [0], ["b", "a"], [10, 2], [0, 1, 2], ["b", 1]])
            s = game(rng, ag, one_each=rng.random() < 0.6, limit=10 ** 7)
            if rng.random() < 0.25:
                sub = rng.sample(decs(s), rng.randint(1, len(decs(s))))
            else:
                sub = None
            pols = {}
            if sub is not None:
                for d in decs(s):
                    if d not in sub:
                        t = G.random_policy(rng, s, d)
                        pols[d] = {"parents": t["parents"], "rows": [[c, [1 / len(w)] * len(w)] for c, w in t["rows"]]}
            yield dict(s, sub=sub, pols=pols, seed=rng.randint(0, 10 ** 6))

    @staticmethod
    def run(p):
        from pycid.export.gambit import behavior_to_cpd, macid_to_efg
        g = G.build(p)
        G.param(g, p, policies=p["pols"])
        before = G.snapshot(g)
        E = G.tup(p["E"])
        if p["sub"] is None:
            ds, agents = decs(p), [a for a, _ in p["util"]]
            efg, p2i = macid_to_efg(g)
        else:
            ds = list(p["sub"])
            agents = [a for a, x in p["dec"] if set(x) & set(ds)]
            efg, p2i = macid_to_efg(g, set(ds), agents)
        need(G.snapshot(g) == before, f"macid_to_efg changed the diagram: {G.diff(before, G.snapshot(g))}")
        need([pl.label for pl in efg.players] == [str(a) for a in agents], f"players {[pl.label for pl in efg.players]}, agents {agents}")
        nodes = {x for d in ds for x in O.parents(E, d) | {d}}
        net = G.Net(p, p["pols"])
        first = None
        orders = [g.get_valid_order(nodes)] + (list(itertools.islice(O.all_topological_orders(p["V"], E, nodes), 200)) if len(nodes) <= 6 else [])
        for o in orders:
            if sorted(o) != sorted(nodes) or any(o[i] in O.descendants(E, o[j]) for i in range(len(o)) for j in range(i + 1, len(o))):
                continue
            try:
                walk(efg, p, o, net, agents, set(ds))
                first = None
                break
            except Viol as e:
                first = first or e
        else:
            raise first or Viol("no topological order fits")
        exp = {(d, c) for d in ds for c in itertools.product(*[p["dom"][q] for q in g.get_parents(d)])}
        got = {(d, tuple(o for _, o in t)) for d, t in p2i}
        need(got == exp and len(p2i) == len(exp), f"information sets for {sorted(map(repr, got))}, expected {sorted(map(repr, exp))}")
        # behaviour strategies
        rng = stdrandom.Random(p["seed"])
        prof = efg.mixed_behavior_profile()
        want = {}
        for (d, t), info in p2i.items():
            w = [rng.choice([0, 1, 2, 3, 0.003]) for _ in p["dom"][d]]
            if sum(w) == 0:
                w[rng.randrange(len(w))] = 1
            for a, x in zip(info.actions, w):
                prof[a] = x / sum(w)
            want[d, tuple(sorted(dict(t).items()))] = [x / sum(w) for x in w]
        cpds = behavior_to_cpd(g, p2i, prof, ds) if p["sub"] is not None else behavior_to_cpd(g, p2i, prof)
        need(sorted(c.variable for c in cpds) == sorted(ds), f"decision rules for {[c.variable for c in cpds]}, decisions {ds}")
        for c in cpds:
            t = cpd_table(c, p, c.variable)
            for ctx, w in t["rows"]:
                e = want[c.variable, tuple(sorted(zip(t["parents"], ctx)))]
                need(all(close(x, y) for x, y in zip(w, e)), f"rule for {c.variable} in {dict(zip(t['parents'], ctx))} is {w}, strategy {e}")
        same_function(g, p, cpds)
        need(G.snapshot(g) == before, f"behavior_to_cpd changed the diagram: {G.diff(before, G.snapshot(g))}")


# ------------------------------------------------------------------ C18
def same_function(g, p, cpds):
    """the rules of a profile say the same as functions, and when they are put into the diagram, as their tables do"""
    h = g.copy()
    h.add_cpds(*cpds)
    k = h.copy().copy()
    for c in cpds:
        v = c.variable
        need(np.allclose([w for _, w in cpd_table(k.get_cpds(v), p, v)["rows"]], [w for _, w in cpd_table(c, p, v)["rows"]]),
             f"the rule of {v} changes when the diagram is copied")
        t = cpd_table(c, p, c.variable)
        need(cpd_table(h.get_cpds(c.variable), p, c.variable) == t, f"the rule of {c.variable} changes when it is put into the diagram")
        for ctx, w in t["rows"]:
            r = dict(c.stochastic_function(**dict(zip(t["parents"], ctx))))
            left = [o for o in p["dom"][v] if r.get(o) is None]
            r.update({o: (1 - sum(x for x in r.values() if x is not None)) / len(left) for o in left})
            need(all(close(r.get(o, 0), x) for o, x in zip(p["dom"][c.variable], w)),
                 f"the rule of {c.variable} in {dict(zip(t['parents'], ctx))}: function {r}, table {w} over {p['dom'][c.variable]}")


def gain(p, pols, a, ds):
    """how much agent a can gain by changing its rules for ds"""
    base = eu(p, pols, a)
    return max(eu(p, dict(pols, **o), a) for o in all_pols(p, ds)) - base


def uniform(p, d):
    ps = sorted(O.parents(G.tup(p["E"]), d))
    return {"parents": ps, "rows": [[list(c), [1 / len(p["dom"][d])] * len(p["dom"][d])] for c in itertools.product(*[p["dom"][q] for q in ps])]}


def deterministic(s, f):
    """utilities (and the remaining nodes) are functions of their parents"""
    for v, t in s["tab"].items():
        t["rows"] = [[list(c), [1.0 if o == f(v, dict(zip(t["parents"], c))) else 0.0 for o in s["dom"][v]]]
                     for c in itertools.product(*[s["dom"][q] for q in t["parents"]])]
    return s


def coordination(rng):
    """three agents who want to agree: several strict equilibria"""
    ds, us = ["D0", "D1", "D2"], ["U0", "U1", "U2"]
    k = rng.choice([2, 3])
    dom = {d: rng.sample([3, 1, 2, -1], k) for d in ds}
    pay = [rng.sample([1, 2, 3, 5], k) for _ in us]
    dom.update({u: [0] + sorted(pay[i]) for i, u in enumerate(us)})
    s = {"V": ds + us, "E": [[d, u] for d in ds for u in us], "dec": [[i, [d]] for i, d in enumerate(ds)], "util": [[i, [u]] for i, u in enumerate(us)],
         "kind": "MACID", "dom": dom, "tab": {u: {"parents": list(ds)} for u in us}}

    def f(u, a):
        ix = {dom[d].index(a[d]) for d in ds}
        return pay[us.index(u)][ix.pop()] if len(ix) == 1 else 0
    return deterministic(s, f)


def chain_game(rng):
    """four decisions of four agents (pure equilibria are enumerated), in a row"""
    ds = ["D0", "D1", "D2", "D3"]
    rng.shuffle(ds)
    us = ["U0", "U1", "U2", "U3"]
    # everybody sees the previous move and cares about it, the own move and the next one:
    # reliance goes one way, so that there is a pure subgame-perfect equilibrium
    E = [[ds[j - 1], ds[j]] for j in range(1, 4)]
    deps = {}
    for i, u in enumerate(us):
        deps[u] = sorted(ds[max(0, i - 1):i + 2])
        E += [[d, u] for d in deps[u]]
    rng.shuffle(E)
    dom = {d: rng.sample([0, 1, 2], 2) for d in ds}
    dom.update({u: list(range(-4, 13)) for u in us})
    V = ds + us
    rng.shuffle(V)
    s = {"V": V, "E": E, "dec": [[i, [d]] for i, d in enumerate(ds)], "util": [[i, [u]] for i, u in enumerate(us)], "kind": "MACID", "dom": dom,
         "tab": {u: {"parents": deps[u]} for u in us}}
    w = {(u, c): x for u in us for c, x in zip(itertools.product(*[dom[d] for d in deps[u]]), rng.sample(range(-4, 13), 16))}
    return deterministic(s, lambda u, a: w[u, tuple(a[d] for d in deps[u])])


class C18:
    slow_ok = True

    @staticmethod
    def scenarios(rng):
        while True:
            k = rng.random()
            if k < 0.15:
                s = coordination(rng)
            elif k < 0.3:
                s = chain_game(rng)
            else:
                ag = rng.choice([[0, 1], [1, 0], ["b", "a"], [0], [0, 1, 2]])
                s = game(rng, ag, one_each=rng.random() < 0.7, nmax=6, limit=90)
            # spread utilities so that ties are rare
            yield dict(s, fixed=[d for d in decs(s) if rng.random() < 0.12], seed=rng.randint(0, 10 ** 6))

    @staticmethod
    def run(p):
        rng = stdrandom.Random(p["seed"])
        g = G.build(p)
        G.param(g, p)
        before = G.snapshot(g)
        ags = [a for a, _ in p["dec"]]
        own = {a: list(ds) for a, ds in p["dec"]}
        nes = g.get_ne()
        need(G.snapshot(g) == before, f"get_ne changed the diagram: {G.diff(before, G.snapshot(g))}")
        need(len(nes) > 0 or len(ags) != 2, "no equilibrium of a two-player game found")
        profs = []
        for ne in nes:
            need(sorted(c.variable for c in ne) == sorted(decs(p)), f"equilibrium over {[c.variable for c in ne]}")
            same_function(g, p, ne)
            pols = {c.variable: cpd_table(c, p, c.variable) for c in ne}
            profs.append(pols)
            pure = all(max(w) > 1 - 1e-9 for t in pols.values() for _, w in t["rows"])
            for a in ags:
                x = gain(p, pols, a, own[a])
                scale = max(abs(o) for u in utils(p) for o in p["dom"][u])
                need(x <= (1e-5 if pure or len(ags) == 2 else 2e-2) * max(1, scale), f"agent {a!r} gains {x} by leaving the reported equilibrium {pols}")
        if len(ags) != 2 and all(len(own[a]) == 1 for a in ags):
            got = {tuple((d, tuple(tuple(round(x, 6) for x in w) for _, w in pols[d]["rows"])) for d in sorted(pols)) for pols in profs}
            for pols in all_pols(p, decs(p)):
                strict = all(eu(p, pols, a) - max([eu(p, dict(pols, **o), a) for o in all_pols(p, own[a]) if o[own[a][0]]["rows"] != pols[own[a][0]]["rows"]] or [-1e9]) > 1e-7 for a in ags)
                if strict:
                    k = tuple((d, tuple(tuple(round(x, 6) for x in w) for _, w in pols[d]["rows"])) for d in sorted(pols))
                    need(k in got, f"the pure equilibrium {k} is not reported")
        # subgame perfection
        if len(decs(p)) > 1:
            spes = g.get_spe()
            need(G.snapshot(g) == before, f"get_spe changed the diagram: {G.diff(before, G.snapshot(g))}")
            D = G.to_D(p)
            R = O.relevance_edges(D, decs(p))
            subs = [set(c) for k in range(1, len(decs(p)) + 1) for c in itertools.combinations(decs(p), k)
                    if all(O.descendants(R, d) <= set(c) for d in c)]
            for spe in spes:
                need(sorted(c.variable for c in spe) == sorted(decs(p)), f"subgame-perfect equilibrium over {[c.variable for c in spe]}")
                same_function(g, p, spe)
                pols = {c.variable: cpd_table(c, p, c.variable) for c in spe}
                pure = all(max(w) > 1 - 1e-9 for t in pols.values() for _, w in t["rows"])
                scale = max(abs(o) for u in utils(p) for o in p["dom"][u])
                for S in subs:
                    q = {d: pols[d] if d in S else uniform(p, d) for d in decs(p)}
                    for a in ags:
                        mine = [d for d in own[a] if d in S]
                        if mine:
                            x = gain(p, q, a, mine)
                            need(x <= (1e-5 if pure or len(ags) == 2 else 2e-2) * max(1, scale), f"in the subgame {sorted(S)} agent {a!r} gains {x} by leaving {pols}")
        # equilibria of one subgame
        D = G.to_D(p)
        R = O.relevance_edges(D, decs(p))
        subs = [set(c) for k in range(1, len(decs(p))) for c in itertools.combinations(decs(p), k) if all(O.descendants(R, d) <= set(c) for d in c)]
        if subs:
            S = rng.choice(subs)
            for ne in g.get_ne_in_sg(S):
                need(sorted(c.variable for c in ne) == sorted(S), f"equilibrium of {sorted(S)} over {[c.variable for c in ne]}")
                q = {d: uniform(p, d) for d in decs(p)}
                q.update({c.variable: cpd_table(c, p, c.variable) for c in ne})
                k = len({a for a in ags if set(own[a]) & S})
                scale = max(abs(o) for u in utils(p) for o in p["dom"][u])
                for a in ags:
                    mine = [d for d in own[a] if d in S]
                    if mine:
                        x = gain(p, q, a, mine)
                        need(x <= (1e-5 if k <= 2 else 2e-2) * max(1, scale), f"in the subgame {sorted(S)} agent {a!r} gains {x} by leaving the reported equilibrium")
            need(G.snapshot(g) == before, f"get_ne_in_sg changed the diagram: {G.diff(before, G.snapshot(g))}")


# ------------------------------------------------------------------ C19
def check_dag(dag, n, density, mx):
    V, E = list(dag.nodes), list(dag.edges)
    need(len(V) == n, f"random_dag({n},{density},{mx}) has {len(V)} nodes")
    need(O.is_acyclic(V, E), f"random_dag({n},{density},{mx}) has a cycle: {E}")
    need(G.connected({"V": V, "E": E}), f"random_dag({n},{density},{mx}) is not connected: {E}")
    need(all(len(O.parents(E, v)) <= mx for v in V), f"random_dag({n},{density},{mx}) has a node with too many parents: {E}")
    target = min(int(density * n * (n - 1) / 2), sum(min(i, mx) for i in range(n)))
    need(len(E) <= max(n - 1, target), f"random_dag({n},{density},{mx}) has {len(E)} edges, asked for {target}")


class C19:
    @staticmethod
    def scenarios(rng):
        for n in range(1, 9):
            for mx in (1, 2, 3, 4):
                for de in (0.0, 0.3, 0.6, 1.0):
                    yield {"what": "dag", "n": n, "density": de, "mx": mx, "seed": rng.randint(0, 10 ** 6)}
        while True:
            k = rng.random()
            if k < 0.3:
                yield {"what": "dag", "n": rng.randint(1, 12), "density": rng.choice([0, 0.1, 0.4, 0.7, 1.0, rng.random()]), "mx": rng.randint(1, 5), "seed": rng.randint(0, 10 ** 6)}
            else:
                if k < 0.42:
                    yield {"what": rng.choice(["cids", "macids"]), "n": [8, rng.randint(8, 11)], "nd": rng.choice([[1, 1], [1, 2]]), "nu": rng.choice([[1, 1], [1, 1], [1, 2]]), "density": rng.choice([0.15, 0.3, 0.4, 0.5]),
                           "recall": rng.random() < 0.5, "cpds": rng.random() < 0.5, "count": rng.randint(1, 3), "seed": rng.randint(0, 10 ** 6)}
                    continue
                na = 1 if k > 0.75 else rng.choice([1, 2, 2, 3])
                nd = [rng.choice([0, 1, 1, 2, 3]) for _ in range(na)]
                if na > 1 and rng.random() < 0.4:
                    nd[-1] = max(2, nd[-1])
                nu = [rng.choice([1, 1, 2]) for _ in range(na)]
                yield {"what": "cid" if k > 0.75 else rng.choice(["macid", "base"]), "n": (lambda k: rng.randint(k, max(k, 11)))(max(3, sum(nd) + sum(nu))), "nd": nd, "nu": nu, "density": rng.choice([0.2, 0.4, 0.6]),
                       "mx": rng.choice([2, 3, 4, 5]), "recall": rng.random() < 0.6, "cpds": rng.random() < 0.25, "seed": rng.randint(0, 10 ** 6),
                       "attempts": rng.choice([1, 3, 200])}

    @staticmethod
    def run(p):
        import pycid
        from pycid.random.random_macidbase import random_macidbase
        stdrandom.seed(p["seed"])
        np.random.seed(p["seed"])
        if p["what"] == "dag":
            check_dag(pycid.random_dag(p["n"], p["density"], p["mx"]), p["n"], p["density"], p["mx"])
            return
        if p["what"] in ("cids", "macids"):
            f, num = (pycid.random_cids, "n_cids") if p["what"] == "cids" else (pycid.random_macids, "n_macids")
            hi = (lambda r: (r[0], r[1] + (p["what"] == "macids")))
            try:
                gs = f(total_nodes_range=tuple(p["n"]), num_decs_range=hi(p["nd"]), num_utils_range=hi(p["nu"]), add_cpds=p["cpds"], sufficient_recall=p["recall"],
                       edge_density=p["density"], **{num: p["count"]})
            except ValueError:
                return
            need(len(gs) == p["count"], f"{f.__name__} gives {len(gs)} diagrams, asked for {p['count']}")
            for g in gs:
                need(p["n"][0] <= len(g.nodes) <= p["n"][1], f"{f.__name__}: {len(g.nodes)} nodes, asked for {p['n']}")
                need(1 <= len(g.agent_utilities) <= (1 if p["what"] == "cids" else 3), f"{f.__name__}: agents {list(g.agent_utilities)}")
                for m, r in ((g.agent_decisions, p["nd"]), (g.agent_utilities, p["nu"])):
                    need(all(r[0] <= len(ns) <= r[1] for ns in m.values()), f"{f.__name__}: {m}, asked for {r}")
                C19.check(g, dict(p, what=p["what"][:-1], n=len(g.nodes), mx=4, nd=[len(x) for x in g.agent_decisions.values()], nu=[len(x) for x in g.agent_utilities.values()]))
            return
        kw = dict(number_of_nodes=p["n"], add_cpds=p["cpds"], sufficient_recall=p["recall"], edge_density=p["density"], max_in_degree=p["mx"],
                  max_resampling_attempts=p["attempts"])
        try:
            if p["what"] == "cid":
                g = pycid.random_cid(number_of_decisions=p["nd"][0], number_of_utilities=p["nu"][0], **kw)
            elif p["what"] == "macid":
                g = pycid.random_macid(agent_decisions_num=tuple(p["nd"]), agent_utilities_num=tuple(p["nu"]), **kw)
            else:
                g = random_macidbase(agent_decisions_num=tuple(p["nd"]), agent_utilities_num=tuple(p["nu"]), **kw)
        except ValueError:
            feasible = p["attempts"] >= 200 and p["n"] >= 8 and sum(p["nd"]) == 1 and sum(p["nu"]) == 1 and p["mx"] >= 3 and p["density"] <= 0.4
            need(not feasible, f"no diagram found for the easy request {p}")
            return
        C19.check(g, p)

    @staticmethod
    def check(g, p):
        import pycid
        V, E = list(g.nodes), list(g.edges)
        need(isinstance(g, {"cid": pycid.CID, "macid": pycid.MACID}.get(p["what"], object)), f"got a {type(g).__name__}")
        need(len(V) == p["n"], f"{len(V)} nodes, requested {p['n']}")
        need(O.is_acyclic(V, E), f"cyclic: {E}")
        for f, num in (("agent_decisions", p["nd"]), ("agent_utilities", p["nu"])):
            m = getattr(g, f)
            need({a: len(set(ns)) for a, ns in m.items()} == dict(enumerate(num)), f"{f} is {m}, requested {num}")
        need(dict(g.decision_agent) == {d: a for a, ds in g.agent_decisions.items() for d in ds}, "decision_agent")
        need(dict(g.utility_agent) == {d: a for a, ds in g.agent_utilities.items() for d in ds}, "utility_agent")
        need(all(v in V for v in list(g.decisions) + list(g.utilities)) and not set(g.decisions) & set(g.utilities), "roles of unknown nodes")
        need(all(not O.children(E, u) for u in g.utilities), f"a utility has children: {E}")
        need(all(len(O.parents(E, v)) <= p["mx"] for v in V), f"a node has more than {p['mx']} parents: {E}")
        if not p["recall"]:
            target = min(int(p["density"] * p["n"] * (p["n"] - 1) / 2), sum(min(i, p["mx"]) for i in range(p["n"])))
            need(len(E) <= max(p["n"] - 1, target), f"{len(E)} edges among {p['n']} nodes, asked for density {p['density']}")
        need(G.connected({"V": V, "E": E}), f"not connected: {E}")
        for d in g.decisions:
            need(O.descendants(E, d) & set(g.agent_utilities[g.decision_agent[d]]), f"decision {d} is no ancestor of a utility of its agent: {E}")
        D = O.D(V, E, {a: list(x) for a, x in g.agent_decisions.items()}, {a: list(x) for a, x in g.agent_utilities.items()})
        if p["recall"]:
            need(O.sufficient_recall(D, list(g.agent_utilities)), f"no sufficient recall: {E} {g.agent_decisions}")
        if p["cpds"]:
            need(all(g.get_cpds(v) is not None for v in V), f"nodes without distribution: {[v for v in V if g.get_cpds(v) is None]}")
            need(g.check_model(), "inconsistent model")
            from pycid.core.cpd import DecisionDomain
            need(all(isinstance(g.get_cpds(d), DecisionDomain) for d in g.decisions), "a decision has a policy")
        else:
            need(len(g.get_cpds()) == 0, "distributions although not requested")


# ------------------------------------------------------------------ C20
class C20:
    @staticmethod
    def scenarios(rng):
        while True:
            yield {"seed": rng.choice([None, 0, 0, 1, rng.randint(0, 10 ** 6), 2 ** 31 - 2, 9999]), "smooth": rng.choice([0.001, 0.01, 0.5, 1.0, 5.0, 1000.0]),
                   "dom": rng.choice([None, [0, 1], [1], [3, 1, 2], ["a", "b", "c"], [-1, 0, 5, 7]]),
                   "pv": [{k: rng.choice([0, 1, 2, -1, "x", 0.5]) for k in rng.sample(["A", "B", "C"], rng.randint(0, 3))} for _ in range(4)],
                   "g": rng.randint(0, 10 ** 6), "g2": rng.randint(0, 10 ** 6), "burn": rng.randint(0, 5)}

    @staticmethod
    def run(p):
        from pycid.random.random_cpd import RandomCPD, temp_seed

        def state():
            s = np.random.get_state()
            return (s[0], s[1].tobytes(), s[2], s[3], s[4], stdrandom.getstate())
        np.random.seed(p["g"])
        c = RandomCPD(p["dom"], p["smooth"], p["seed"])
        dom = p["dom"] or [0, 1]
        first = []
        for pv in p["pv"]:
            b = state()
            r = dict(c(**pv))
            need(state() == b, f"calling RandomCPD with {pv} changed the random state")
            need(list(r.keys()) == list(dom) or set(r) == set(dom), f"RandomCPD({dom}) gives outcomes {list(r)}")
            need(all(0 <= x <= 1 + 1e-12 for x in r.values()) and abs(sum(r.values()) - 1) < 1e-6, f"RandomCPD gives {r}")
            first.append(r)
        np.random.seed(p["g2"])
        np.random.rand(p["burn"])
        for pv, r in reversed(list(zip(p["pv"], first))):
            need(dict(c(**pv)) == r, f"asked again for {pv}: {dict(c(**pv))}, before {r}")
            need(dict(c(**dict(reversed(list(pv.items()))))) == r, f"asked again for {pv} in another order of arguments")
        if p["seed"] is not None:
            d = RandomCPD(p["dom"], p["smooth"], p["seed"])
            for pv, r in zip(p["pv"], first):
                need(dict(d(**pv)) == r, f"two objects with seed {p['seed']} differ for {pv}")
            np.random.seed(p["g"])
            b = state()
            RandomCPD(p["dom"], p["smooth"], p["seed"])
            need(state() == b, "creating a seeded RandomCPD changed the random state")
        b = state()
        try:
            with temp_seed(p["g"] % (2 ** 31)):
                x = np.random.rand()
                raise RuntimeError("inside")
        except RuntimeError:
            pass
        need(state() == b, "temp_seed does not restore the random state after an error")
        with temp_seed(p["g"] % (2 ** 31)):
            need(np.random.rand() == x, "temp_seed does not seed")
            with temp_seed(5):
                np.random.rand()
        need(state() == b, "nested temp_seed does not restore the random state")
        bad = RandomCPD([0, 1], -1.0, 3)
        b = state()
        try:
            bad(A=1)
            ok = True
        except Exception:
            ok = False
        need(state() == b, "a failing RandomCPD call changed the random state")
        try:
            RandomCPD([0, 1], 1.0, 3)(A=[1])
        except Exception:
            pass
        need(state() == b, "a failing RandomCPD call changed the random state")


# ------------------------------------------------------------------ C21
class C21:
    slow_ok = True

    @staticmethod
    def scenarios(rng):
        while True:
            k = rng.random()
            if k < 0.45:
                s = pdiagram(rng, 5, 3, conn=True, single=True, max_dec=2, small=True, dets=0.0, zero=0.0)
                s["kind"] = "CID"
            else:
                s = game(rng, rng.choice([[0, 1], [0, 1], [0, 1, 2], [0]]), one_each=rng.random() < 0.5, nmax=6, limit=150)
            if not decs(s) or npure(s, decs(s)) > 100:
                continue
            positive(s, rng)
            pols = {d: G.random_policy(rng, s, d) for d in decs(s)} if rng.random() < 0.4 else {}
            yield dict(s, pols=pols, a=rng.choice(s["V"]), b=rng.choice(s["V"]), unparam=rng.random() < 0.2, seed=rng.randint(0, 999))

    @staticmethod
    def run(p):
        import pycid
        from pycid import analyze as A
        from pycid.core import get_paths as P
        from pycid.core.macid_base import MechanismGraph
        from pycid.core.relevance_graph import CondensedRelevanceGraph, RelevanceGraph
        from pycid.export.gambit import macid_to_efg
        g = G.build(p)
        if not p["unparam"]:
            G.param(g, p, policies=p["pols"])
        before = G.snapshot(g)
        d = decs(p)[0]
        a, b, U = p["a"], p["b"], utils(p)[0]
        S = set(decs(p))
        obs = {v for v in (b,) if v != a}
        calls = [("requisite_graph", lambda: A.requisite_graph(g)), ("requisite_list", lambda: A.requisite_list(g, d)),
                 ("sufficient_recall", lambda: g.sufficient_recall()), ("get_valid_order", lambda: g.get_valid_order()),
                 ("is_r_reachable", lambda: g.is_r_reachable(d, a)), ("RelevanceGraph", lambda: sorted(RelevanceGraph(g).edges)),
                 ("CondensedRelevanceGraph", lambda: CondensedRelevanceGraph(g).get_scc_topological_ordering()), ("MechanismGraph", lambda: sorted(MechanismGraph(g).edges)),
                 ("find_all_dir_paths", lambda: sorted(P.find_all_dir_paths(g, a, b))), ("find_all_undir_paths", lambda: sorted(P.find_all_undir_paths(g, a, b))),
                 ("find_active_path", lambda: bool(P.find_active_path(g, a, U, obs - {U}))), ("is_active_backdoor_trail", lambda: P.is_active_backdoor_trail(g, a, b)),
                 ("direct_effect", lambda: A.direct_effect(g, d)), ("manipulation", lambda: A.manipulation(g, d, S)), ("revealing_or_denying", lambda: A.revealing_or_denying(g, d, S)),
                 ("copy", lambda: G.snapshot(g.copy()) == before), ("copy_without_cpds", lambda: sorted(g.copy_without_cpds().edges))]
        if all(not O.children(G.tup(p["E"]), u) for u in utils(p)):
            calls += [("signaling", lambda: A.signaling(g, d, S)), ("get_reasoning_patterns", lambda: {k: sorted(v) for k, v in A.get_reasoning_patterns(g).items()})]
        if p["kind"] == "CID":
            calls += [("admits_voi_list", lambda: sorted(A.admits_voi_list(g, d))), ("admits_voc_list", lambda: A.admits_voc_list(g)), ("admits_ri_list", lambda: A.admits_ri_list(g, d)),
                      ("admits_ici_list", lambda: A.admits_ici_list(g, d)), ("admits_dir_voc_list", lambda: A.admits_dir_voc_list(g)), ("admits_indir_voc_list", lambda: A.admits_indir_voc_list(g, d)),
                      ("admits_voi", lambda: A.admits_voi(g, d, a)), ("admits_voc", lambda: A.admits_voc(g, a))]
        else:
            calls += [("decs_in_each_maid_subgame", lambda: sorted(map(sorted, g.decs_in_each_maid_subgame())))]
        if not p["unparam"]:
            calls += [("query", lambda: float(g.query([a], {}).values.flat[0])), ("expected_value", lambda: round(g.expected_value([U], {}, {a: p["dom"][a][0]})[0], 9)),
                      ("query context", lambda: float(g.query([U], {a: p["dom"][a][0]}).values.sum()) if U != a else 0),
                      ("total_effect", lambda: round(A.total_effect(g, a, U, p["dom"][a][0], p["dom"][a][1]), 9)),
                      ("introduced_total_effect", lambda: round(A.introduced_total_effect(g, a, b, U, p["dom"][a][0], p["dom"][a][1]), 9)),
                      ("expected_utility", lambda: round(g.expected_utility({}, agent=p["util"][0][0]), 9)),
                      ("pure_decision_rules", lambda: len(list(g.pure_decision_rules(d)))), ("pure_policies", lambda: len(list(g.pure_policies([d])))),
                      ("optimal_pure_policies", lambda: len(g.optimal_pure_policies([d]))), ("optimal_pure_decision_rules", lambda: len(g.optimal_pure_decision_rules(d)))]
            if p["kind"] == "CID":
                cons = [v for v in p["V"] if v not in decs(p) and v not in utils(p)]
                nd = [v for v in p["V"] if v != d and v not in O.descendants(G.tup(p["E"]), d)]
                stdrandom.seed(p["seed"])
                calls += [("solve", lambda: sorted(g.solve()))]
                if nd:
                    calls += [("quantitative_voi", lambda: round(A.quantitative_voi(g, d, nd[0]), 6))]
                if cons:
                    calls += [("quantitative_voc", lambda: round(A.quantitative_voc(g, cons[0]), 6))]
            else:
                if len(decs(p)) <= 3:
                    calls += [("create_subgame", lambda: sorted(g.create_subgame([d]).nodes)), ("macid_to_efg", lambda: len(macid_to_efg(g)[1])), ("get_ne", lambda: len(g.get_ne())),
                              ("get_spe", lambda: len(g.get_spe()) > -1), ("joint_pure_policies", lambda: len(g.joint_pure_policies(list(g.decisions))))]
        for nm, f in calls:
            res = []
            for _ in range(2):
                try:
                    r = f()
                    if isinstance(r, float) and r != r:
                        r = "nan"
                    if nm == "requisite_graph":
                        need(r is not g, "requisite_graph returns the given diagram")
                        r = sorted(r.edges)
                except (ValueError, KeyError, IndexError, AssertionError, RuntimeError) as e:
                    r = type(e).__name__
                res.append(r)
                after = G.snapshot(g)
                need(after == before, f"{nm} changed the diagram: {G.diff(before, after)}")
            need(res[0] == res[1], f"{nm} gave {res[0]} and then {res[1]}")


# ------------------------------------------------------------------ C22
def max_eu(p, ds):
    return max(eu(p, o, 0) for o in all_pols(p, ds))


def relink(p, n, d, on):
    E = [e for e in p["E"] if e != [n, d]] + ([[n, d]] if on else [])
    return dict(p, E=E)


class C22:
    slow_ok = True

    @staticmethod
    def scenarios(rng):
        while True:
            s = pdiagram(rng, rng.choice([4, 5]), 3, conn=True, single=True, max_dec=2, small=True, dets=0.0, zero=0.0, barren_utils=rng.random() < 0.7)
            s["kind"] = "CID"
            positive(s, rng)
            E = G.tup(s["E"])
            d = rng.choice(decs(s) or [None])
            if d is None:
                continue
            nd = [v for v in s["V"] if v != d and v not in O.descendants(E, d)]
            n = rng.choice(nd) if nd else None
            if n and (npure(relink(s, n, d, True), decs(s)) > 80 or not G.connected(relink(s, n, d, False))):
                n = None
            ch = [v for v in s["V"] if v not in decs(s) and v not in utils(s)]
            c = rng.choice(ch) if ch else None
            if c and npure(s, decs(s) + [c]) > 80:
                c = None
            if npure(s, decs(s)) > 80 or (n is None and c is None):
                continue
            pols = {x: G.random_policy(rng, s, x) for x in decs(s)} if rng.random() < 0.4 else {}
            yield dict(s, d=d, n=n, c=c, pols=pols, seed=rng.randint(0, 999))

    @staticmethod
    def run(p):
        from pycid.analyze import quantitative_voc, quantitative_voi
        g = G.build(p)
        G.param(g, p, policies=p["pols"])
        before = G.snapshot(g)
        stdrandom.seed(p["seed"])
        d, n, c = p["d"], p["n"], p["c"]
        E = G.tup(p["E"])
        if n:
            got = quantitative_voi(g, d, n)
            exp = max_eu(relink(p, n, d, True), decs(p)) - max_eu(relink(p, n, d, False), decs(p))
            need(close(got, exp), f"quantitative_voi({d},{n}) = {got}, expected {exp}")
            need(G.snapshot(g) == before, f"quantitative_voi changed the diagram: {G.diff(before, G.snapshot(g))}")
        for x in [d] + sorted(O.descendants(E, d)):
            raises(ValueError, quantitative_voi, g, d, x)
        raises(KeyError, quantitative_voi, g, d, "nope")
        raises(KeyError, quantitative_voc, g, "nope")
        if c:
            got = quantitative_voc(g, c)
            q = dict(p, dec=[[0, decs(p) + [c]]])
            exp = max_eu(q, decs(q)) - max_eu(p, decs(p))
            need(close(got, exp), f"quantitative_voc({c}) = {got}, expected {exp}")
            need(G.snapshot(g) == before, f"quantitative_voc changed the diagram: {G.diff(before, G.snapshot(g))}")
