"""Run-time contracts of the structural properties (C01-C11), judged against oracle.py."""
import itertools

import gen as G
import oracle as O


class Viol(Exception):
    pass


def need(c, msg):
    if not c:
        raise Viol(msg)


def raises(exc, f, *a, **k):
    try:
        r = f(*a, **k)
        if hasattr(r, "__next__"):
            list(r)
    except exc:
        return True
    except Exception as e:  # noqa
        raise Viol(f"{getattr(f, '__name__', f)}{a}: expected {exc.__name__}, got {type(e).__name__}: {e}")
    raise Viol(f"{getattr(f, '__name__', f)}{a}: expected {exc.__name__}, got result {r!r}")


def unchanged(g, before, what):
    after = G.structure(g)
    need(after == before, f"{what} changed the diagram: {before} -> {after}")


# ------------------------------------------------------------------ C01
def check_roles(g, roles, agents, what):
    """roles: {node: None | ('d'|'u', agent)}"""
    dd = {n: a for n, r in roles.items() if r and r[0] == "d" for a in [r[1]]}
    uu = {n: a for n, r in roles.items() if r and r[0] == "u" for a in [r[1]]}
    need(dict(g.decision_agent) == dd, f"{what}: decision_agent is {dict(g.decision_agent)}, roles are {dd}")
    need(dict(g.utility_agent) == uu, f"{what}: utility_agent is {dict(g.utility_agent)}, roles are {uu}")
    need(set(g.decisions) == set(dd) and len(list(g.decisions)) == len(dd), f"{what}: decisions is {list(g.decisions)}, roles are {dd}")
    need(set(g.utilities) == set(uu) and len(list(g.utilities)) == len(uu), f"{what}: utilities is {list(g.utilities)}, roles are {uu}")
    for nm, ref in (("agent_decisions", dd), ("agent_utilities", uu)):
        m = getattr(g, nm)
        flat = sorted((n, repr(a)) for a, ns in m.items() for n in ns)
        need(flat == sorted((n, repr(a)) for n, a in ref.items()), f"{what}: {nm} is {m}, roles are {ref}")
    need(set(g.agents) == agents, f"{what}: agents is {set(g.agents)}, expected {agents}")


class C01:
    @staticmethod
    def scenarios(rng):
        for kind in ("MACIDBase", "CID", "MACID"):
            for op1, op2 in itertools.product("duc", repeat=2):
                yield {"kind": kind, "V": ["A", "B", "C"], "E": [["A", "B"], ["B", "C"]], "dec": [[0, ["A"]]], "util": [[0, ["C"]]],
                       "ops": [[op1, "A", 0], [op2, "A", 1], [op1, "C", 1], [op2, "B", 0], [op2, "zz", 0], [op1, "zz", 7]]}
        while True:
            s = G.random_diagram(rng, nmax=7, nmin=2, single=False, min_dec=0)
            kind = rng.choice(["MACIDBase", "CID", "MACID"])
            if kind == "CID":
                s = G.random_diagram(rng, nmax=7, nmin=2, single=True, min_dec=0)
            ag = [a for a, _ in s["dec"]] + [5, "new"]
            ops = []
            for _ in range(rng.randint(1, 12)):
                ops.append([rng.choice(["d", "d", "u", "u", "c", "copy", "add", "edge"]),
                            rng.choice(s["V"] + ["nope"]) if rng.random() < 0.9 else "zz", rng.choice(ag)])
            yield dict(s, kind=kind, ops=ops, share=rng.random() < 0.4)

    @staticmethod
    def run(p):
        import pycid
        from pycid.core.macid_base import MACIDBase
        E = G.tup(p["E"])
        dec = {a: list(n) for a, n in p["dec"]}
        util = {a: list(n) for a, n in p["util"]}
        d0, u0 = {a: list(n) for a, n in dec.items()}, {a: list(n) for a, n in util.items()}
        if p["kind"] == "CID":
            g = pycid.CID(E, decisions=dec.get(0, []), utilities=util.get(0, []))
            dec0, util0 = {0: d0.get(0, [])}, {0: u0.get(0, [])}
        else:
            cls = MACIDBase if p["kind"] == "MACIDBase" else pycid.MACID
            g = cls(E, agent_decisions=dec, agent_utilities=util)
            dec0, util0 = d0, u0
        others = []
        if p.get("share") and p["kind"] != "CID":
            others = [type(g)(E, agent_decisions=dec, agent_utilities=util)]
        for v in p["V"]:
            g.add_node(v)
        roles = {v: None for v in p["V"]}
        for a, ns in dec0.items():
            for n in ns:
                roles[n] = ("d", a)
        for a, ns in util0.items():
            for n in ns:
                roles[n] = ("u", a)
        agents = set(util0)
        check_roles(g, roles, agents, "after construction")
        for o in others:
            ostr = G.structure(o)
        hist = []
        for op, n, a in p["ops"]:
            hist.append((op, n, a))
            what = f"after {hist}"
            if op == "copy":
                g2 = g.copy_without_cpds() if a == 5 else g.copy()
                others.append(g)
                ostr = G.structure(g)
                others = [g]
                g = g2
            elif op == "add":
                g.add_node("added_" + str(n))
                roles.setdefault("added_" + str(n), None)
            elif op == "edge":
                if n in roles and "added_A" in roles and n != "added_A" and not g.has_edge("added_A", n):
                    g.add_edge("added_A", n)
            else:
                f = {"d": g.make_decision, "u": g.make_utility, "c": g.make_chance}[op]
                args = (n,) if op == "c" else (n, a)
                if n not in roles:
                    raises(KeyError, f, *args)
                else:
                    f(*args)
                    roles[n] = None if op == "c" else (op, a)
                    if op == "u":
                        agents.add(a)
            check_roles(g, roles, agents, what)
            need(dec == d0 and util == u0, f"{what}: the role lists given to the constructor changed: {dec} {util}")
            for o in others:
                need(G.structure(o) == ostr, f"{what}: another diagram changed: {ostr} -> {G.structure(o)}")


# ------------------------------------------------------------------ C03
def rel_diagrams(rng, nmax=6, **kw):
    small = list(G.small_diagrams(["A", "B", "C"]))
    rng.shuffle(small)
    yield from small
    while True:
        yield G.random_diagram(rng, nmax=nmax, **kw)


def cp(s):
    return {k: v for k, v in s.items()}


class C03:
    scenarios = staticmethod(lambda rng: rel_diagrams(rng, 7))

    @staticmethod
    def run(p):
        from pycid.core.macid_base import MechanismGraph
        from pycid.core.relevance_graph import RelevanceGraph
        D = G.to_D(p)
        g = G.build(p)
        before = G.structure(g)
        rr = {(d, n): O.r_reachable(D, d, n) for d in D.owner for n in D.V}
        for (d, n), e in rr.items():
            need(bool(g.is_r_reachable(d, n)) == e, f"is_r_reachable({d},{n}) is not {e}")
            need(bool(g.is_r_reachable([d], [n])) == e, f"is_r_reachable([{d}],[{n}]) is not {e}")
            if n in D.owner:
                need(bool(g.is_s_reachable(d, n)) == e, f"is_s_reachable({d},{n}) is not {e}")
            else:
                raises(AssertionError, g.is_s_reachable, d, n)
        decs = list(D.owner)
        for k in range(len(D.V) + 1):
            ns = D.V[:k]
            for ds in (decs, decs[:1], set(decs[-2:]), tuple(decs[1:])):
                e = any(rr[d, n] for d in ds for n in ns)
                need(bool(g.is_r_reachable(ds, ns)) == e, f"is_r_reachable({ds},{ns}) is not {e}")
        for ds in (None, decs, decs[:2], list(reversed(decs)), tuple(decs[-2:])):
            rg = RelevanceGraph(g, ds)
            w = decs if ds is None else list(ds)
            need(set(rg.nodes) == set(w), f"relevance graph of {ds} has nodes {list(rg.nodes)}")
            exp = {(a, b) for a in w for b in w if a != b and rr[a, b]}
            need(set(rg.edges) == exp, f"relevance graph of {ds} has edges {sorted(rg.edges)}, expected {sorted(exp)}")
        mg = MechanismGraph(g)
        need(set(mg.nodes) == set(D.V) | {v + "mec" for v in D.V}, f"mechanism graph nodes {list(mg.nodes)}")
        need(set(mg.edges) == set(D.E) | {(v + "mec", v) for v in D.V}, f"mechanism graph edges {list(mg.edges)}")
        for f in ("agent_decisions", "agent_utilities", "decision_agent", "utility_agent"):
            need(getattr(mg, f) == getattr(g, f), f"mechanism graph {f}: {getattr(mg, f)} vs {getattr(g, f)}")
        unchanged(g, before, "relevance")
        bad = G.build(dict(p, V=p["V"] + ["xmec"]))
        raises(ValueError, MechanismGraph, bad)
        bad = G.build(dict(p, V=p["V"] + ["mec"]))
        raises(ValueError, MechanismGraph, bad)
        ok = G.build(dict(p, V=p["V"] + ["mecx", "Mec", "ec", "me"]))
        MechanismGraph(ok)
        ok = G.build(dict(p, V=["mecx", "m"] + p["V"]))
        need(set(MechanismGraph(ok).nodes) == {v + s for v in p["V"] + ["mecx", "m"] for s in ("", "mec")}, "mechanism graph nodes")


class C04:
    @staticmethod
    def scenarios(rng):
        for s in rel_diagrams(rng, 7, max_dec=4):
            yield dict(s, pick=[rng.random() for _ in s["V"]])

    @staticmethod
    def run(p):
        D = G.to_D(p)
        g = G.build(p)
        before = G.structure(g)
        agents = [a for a, _ in p["util"]]
        allok = True
        for a in agents:
            e = O.sufficient_recall(D, [a])
            allok = allok and e
            need(bool(g.sufficient_recall(a)) == e, f"sufficient_recall({a!r}) is not {e}")
        need(bool(g.sufficient_recall()) == allok, f"sufficient_recall() is not {allok}")
        raises(ValueError, g.sufficient_recall, "nobody")
        raises(ValueError, g.sufficient_recall, 99)
        pick = [v for v, r in zip(p["V"], p["pick"]) if r < 0.6]
        for nodes in (None, pick, p["V"], [], set(pick), pick + pick, iter(pick), list(reversed(p["V"]))):
            want = set(D.owner) if nodes is None else set(pick) if not isinstance(nodes, (list, set)) else set(nodes)
            o = g.get_valid_order(nodes)
            need(isinstance(o, list) and sorted(o) == sorted(want), f"get_valid_order({nodes}) = {o}, wanted the nodes {sorted(want)}")
            for i, x in enumerate(o):
                for y in o[i + 1:]:
                    need(x not in O.descendants(D.E, y), f"get_valid_order({nodes}) = {o}: {x} before its ancestor {y}")
        raises(KeyError, g.get_valid_order, pick + ["nope"])
        raises(KeyError, g.get_valid_order, ["nope"])
        unchanged(g, before, "sufficient_recall/get_valid_order")
        if p["E"]:
            import networkx as nx
            c = G.build(p)
            a, b = p["E"][0]
            nx.DiGraph.add_edge(c, b, a)
            raises(ValueError, c.get_valid_order)
            raises(ValueError, c.get_valid_order, [a])
        dec = {a: ns for a, ns in p["dec"]}
        # an agent without an entry among the decisions has none
        from pycid import MACID
        h = MACID(G.tup(p["E"]), agent_decisions={a: ns for a, ns in p["dec"]}, agent_utilities=dict([(a, ns) for a, ns in p["util"]] + [("spectator", [])]))
        need(h.sufficient_recall("spectator") is True, "agent without decisions lacks recall")


class C05:
    @staticmethod
    def scenarios(rng):
        yield from itertools.islice(rel_diagrams(rng, 6), 200)
        while True:
            if rng.random() < 0.02:
                # many components, few of which rely on each other
                n = rng.randint(5, 7)
                ds, us = [f"D{i}" for i in range(n)], [f"U{i}" for i in range(n)]
                E = [[ds[i], us[i]] for i in range(n)] + [[ds[i], us[j]] for i in range(n) for j in range(n) if i != j and rng.random() < 0.12]
                V = ds + us
                for x in (V, E, ds):
                    rng.shuffle(x)
                yield {"V": V, "E": E, "dec": [[i, [f"D{i}"]] for i in range(n)], "util": [[i, [us[i]]] for i in range(n)], "kind": "MACID"}
            yield G.random_diagram(rng, nmax=8, nmin=4, min_dec=2, max_dec=5)

    @staticmethod
    def run(p):
        from pycid.core.relevance_graph import CondensedRelevanceGraph, RelevanceGraph
        D = G.to_D(p)
        g = G.build(p)
        before = G.structure(g)
        decs = list(D.owner)
        R = O.relevance_edges(D, decs)
        rel = {d: {d} | O.descendants(R, d) for d in decs}
        comp = {frozenset(x for x in decs if x in rel[d] and d in rel[x]) for d in decs}
        sccs = RelevanceGraph(g).get_sccs()
        need(len(sccs) == len(comp) and {frozenset(s) for s in sccs} == comp, f"get_sccs {sccs}, expected {comp}")
        sub = decs[: max(1, len(decs) - 1)]
        R2 = O.relevance_edges(D, sub)
        rel2 = {d: {d} | O.descendants(R2, d) for d in sub}
        comp2 = {frozenset(x for x in sub if x in rel2[d] and d in rel2[x]) for d in sub}
        need({frozenset(s) for s in RelevanceGraph(g, sub).get_sccs()} == comp2, f"get_sccs of {sub}")
        order = CondensedRelevanceGraph(g).get_scc_topological_ordering()
        flat = [d for c in order for d in c]
        need(sorted(flat) == sorted(decs), f"component ordering {order} does not list every decision once")
        need({frozenset(c) for c in order} == comp, f"component ordering {order}, components {comp}")
        for i, c in enumerate(order):
            for d in order[i + 1:]:
                need(not any(x in rel[y] for x in c for y in d), f"component {c} is listed before {d}, which relies on it: {order}")
        m = CondensedRelevanceGraph(g).get_decisions_in_scc()
        need({frozenset(v) for v in m.values()} == comp and len(m) == len(comp), f"get_decisions_in_scc {m}")
        exp = set()
        for k in range(1, len(comp) + 1):
            for cs in itertools.combinations(sorted(comp, key=sorted), k):
                u = frozenset().union(*cs)
                if all(rel[d] <= u for d in u):
                    exp.add(u)
        got = g.decs_in_each_maid_subgame()
        need(len(got) == len(exp) and {frozenset(x) for x in got} == exp, f"subgames {got}, expected {exp}")
        unchanged(g, before, "components")


# ------------------------------------------------------------------ paths
def graphs(rng, nmax=6, **kw):
    for E in O.all_dags(["A", "B", "C"]):
        yield {"V": ["A", "B", "C"], "E": [list(e) for e in E], "dec": [[0, ["B"]]], "util": [[0, ["C"]]]}
    big = [[list(e) for e in E] for E in O.all_dags(["A", "B", "C", "D"])]
    rng.shuffle(big)
    for i, E in enumerate(big):
        yield {"V": ["B", "D", "A", "C"], "E": E, "dec": [[0, ["B"]]], "util": [[0, ["C"]]]}
        if i % 2:
            yield G.random_diagram(rng, nmax=nmax, **kw)
    while True:
        yield G.random_diagram(rng, nmax=nmax, **kw)


class C06:
    scenarios = staticmethod(lambda rng: graphs(rng, 7))

    @staticmethod
    def run(p):
        from pycid.core.get_paths import directed_decision_free_path, find_all_dir_paths, find_all_undir_paths
        D = G.to_D(p)
        g = G.build(p)
        before = G.structure(g)
        pairs = [(a, b) for a in D.V for b in D.V]
        for a, b in pairs:
            for f, ref in ((find_all_dir_paths, O.dir_paths), (find_all_undir_paths, O.undir_paths)):
                got = [tuple(x) for x in f(g, a, b)]
                exp = ref(D.E, a, b)
                need(sorted(got) == sorted(exp), f"{f.__name__}({a},{b}) = {got}, expected {exp}")
            e = any(not set(q[1:-1]) & set(D.owner) for q in O.dir_paths(D.E, a, b))
            need(bool(directed_decision_free_path(g, a, b)) == e, f"directed_decision_free_path({a},{b}) is not {e}")
        # two searches interleaved, and results kept while the search goes on
        a, b = D.V[0], D.V[-1]
        its = [iter(find_all_undir_paths(g, a, b)), iter(find_all_undir_paths(g, a, b))]
        got = [[], []]
        done = [False, False]
        while not all(done):
            for i in (0, 1):
                if not done[i]:
                    try:
                        got[i].append(next(its[i]))
                    except StopIteration:
                        done[i] = True
        for q in got:
            need(sorted(map(tuple, q)) == sorted(O.undir_paths(D.E, a, b)), f"interleaved searches {a},{b}: {q}")
        for f in (find_all_dir_paths, find_all_undir_paths, directed_decision_free_path):
            raises(KeyError, f, g, "nope", a)
            raises(KeyError, f, g, a, "nope")
        unchanged(g, before, "path search")


class C07:
    @staticmethod
    def scenarios(rng):
        for s in graphs(rng, 6):
            k = rng.choice([0, 1, 1, 2, 3])
            yield dict(s, obs=rng.sample(s["V"], min(k, len(s["V"]))))

    @staticmethod
    def run(p):
        from pycid.core import get_paths as P
        D = G.to_D(p)
        g = G.build(p)
        before = G.structure(g)
        obs = set(p["obs"])
        keep = set(obs)
        for a, b in [(a, b) for a in D.V for b in D.V]:
            paths = O.undir_paths(D.E, a, b)
            act = [q for q in paths if O.path_active(D.E, q, obs)]
            for q in paths:
                for mk in (list, tuple):
                    q2 = mk(q)
                    need(bool(P.is_active_path(g, q2, obs)) == (q in act), f"is_active_path({q2},{obs}) is not {q in act}")
                for i in range(1, len(q) - 1):
                    need(P.get_motif(g, list(q), i) == O.motif(D.E, q, i), f"get_motif({q},{i}) = {P.get_motif(g, list(q), i)}")
                if len(q) > 1:
                    m = P.get_motifs(g, list(q))
                    need(m[1:-1] == [O.motif(D.E, q, i) for i in range(1, len(q) - 1)] and len(m) == len(q) and m[-1] == "endpoint",
                         f"get_motifs({q}) = {m}")
                    need(m[0] == ("forward" if (q[0], q[1]) in D.E else "backward"), f"get_motifs({q}) = {m}")
                    need(bool(P.is_active_path(g, list(q))) == O.path_active(D.E, q, set()), f"is_active_path({q})")
            if a not in obs:
                if act and b not in obs:
                    r = P.find_active_path(g, a, b, obs)
                    need(tuple(r) in act, f"find_active_path({a},{b},{obs}) = {r}, active paths: {act}")
                elif b not in obs:
                    raises(ValueError, P.find_active_path, g, a, b, obs)
            e = any(len(q) > 1 and (q[1], q[0]) in D.E for q in act)
            need(bool(P.is_active_backdoor_trail(g, a, b, obs)) == e, f"is_active_backdoor_trail({a},{b},{obs}) is not {e}")
            if a != b:
                e = any((q[0], q[1]) in D.E and any(O.motif(D.E, q, i) == "collider" for i in range(1, len(q) - 1)) for q in act)
                need(bool(P.is_active_indirect_frontdoor_trail(g, a, b, obs)) == e,
                     f"is_active_indirect_frontdoor_trail({a},{b},{obs}) is not {e}")
            if not obs:
                need(bool(P.is_active_backdoor_trail(g, a, b)) == any(len(q) > 1 and (q[1], q[0]) in D.E for q in act), f"is_active_backdoor_trail({a},{b})")
        a = D.V[0]
        for f in (P.find_active_path, P.is_active_backdoor_trail, P.is_active_indirect_frontdoor_trail):
            raises(KeyError, f, g, "nope", a, obs)
            raises(KeyError, f, g, a, "nope", obs)
            raises(KeyError, f, g, D.V[-1], a, obs | {"nope"})
        raises(KeyError, P.is_active_path, g, [a, "nope"], obs)
        raises(KeyError, P.is_active_path, g, [a], {"nope"})
        raises(KeyError, P.get_motif, g, [a, "nope"], 0)
        raises(KeyError, P.get_motifs, g, [a, "nope"])
        need(obs == keep, "the observed set was changed")
        unchanged(g, before, "path activity")


class C08:
    scenarios = staticmethod(lambda rng: rel_diagrams(rng, 7, p=None))

    @staticmethod
    def run(p):
        from pycid.analyze.requisite_graph import requisite, requisite_graph, requisite_list
        D = G.to_D(p)
        g = G.build(p)
        before = G.structure(g)
        for d in D.owner:
            pa = O.parents(D.E, d)
            for n in D.V:
                if n in pa:
                    e = O.requisite(D, d, n)
                    need(bool(requisite(g, d, n)) == e, f"requisite({d},{n}) is not {e}")
                else:
                    raises(KeyError, requisite, g, d, n)
            raises(KeyError, requisite, g, d, "nope")
            need(sorted(requisite_list(g, d)) == sorted(n for n in pa if O.requisite(D, d, n)), f"requisite_list({d}) = {requisite_list(g, d)}")
        r = requisite_graph(g)
        exp = O.minimal_reduction(D)
        need(set(r.nodes) == set(D.V) and set(r.edges) == exp, f"requisite graph edges {sorted(r.edges)}, expected {sorted(exp)}")
        need(G.structure(r)[3:] == before[3:], f"requisite graph roles {G.structure(r)[3:]} vs {before[3:]}")
        need(r is not g, "requisite graph is the given diagram")
        unchanged(g, before, "requisite graph")


def cids(rng, nmax=6, barren=None, min_dec=1):
    small = list(G.small_diagrams(["A", "B", "C"]))
    rng.shuffle(small)
    for i, s in enumerate(small):
        yield dict(s, kind="CID")
        yield dict(G.random_diagram(rng, nmax=nmax, nmin=4, single=True, barren_utils=barren, min_dec=1, max_dec=3), kind="CID")
        if i % 3 == 0:
            yield chain_cid(rng)
    while True:
        yield dict(G.random_diagram(rng, nmax=nmax, nmin=4, single=True, barren_utils=barren, min_dec=1, max_dec=3), kind="CID")
        if rng.random() < 0.2:
            yield chain_cid(rng)


def chain_cid(rng):
    """long chains with a few shortcuts; later decisions see the earlier ones and what they saw, so that there is sufficient recall"""
    n = rng.randint(5, 8)
    V = [f"N{i}" for i in range(n)]
    E = {(V[i], V[i + 1]) for i in range(n - 1)}
    ds = sorted(rng.sample(range(n - 1), rng.choice([1, 2, 3])))
    for _ in range(rng.randint(0, 3)):
        i, j = sorted(rng.sample(range(n), 2))
        E.add((V[i], V[j]))
    for a, b in itertools.combinations(ds, 2):
        if rng.random() < 0.9:
            E |= {(v, V[b]) for v in [V[a]] + [x for x, y in E if y == V[a]]}
    us = [V[n - 1]]
    for i in ds:
        if i and i - 1 not in ds and rng.random() < 0.7:
            # what the decision sees tells something about a hidden cause of the utility
            E |= {(f"Y{i}", V[i - 1]), (f"Y{i}", V[n - 1])}
            E -= {e for e in E if e[0] == V[i - 1] and e[1] != V[i] and rng.random() < 0.7}
    V = V + sorted({v for e in E for v in e} - set(V))
    if rng.random() < 0.4:
        E.add((V[rng.choice(ds)], "W"))
        us.append("W")
        V = V + ["W"]
    E, V, dec = sorted(map(list, E)), list(V), [V[i] for i in ds]
    for x in (E, V, dec, us):
        rng.shuffle(x)
    return {"V": V, "E": E, "dec": [[0, dec]], "util": [[0, us]], "kind": "CID"}


def expect_bools(name, lst, single, V, exp, g):
    got = {n: bool(single(n)) for n in V}
    need(got == exp, f"{name}: got {sorted(n for n in V if got[n])}, expected {sorted(n for n in V if exp[n])}")
    l = list(lst())
    need(sorted(l) == sorted(n for n in V if exp[n]), f"{name}_list: {l}, expected {sorted(n for n in V if exp[n])}")


def two_agents(p):
    from pycid import MACID
    return MACID(G.tup(p["E"]), agent_decisions={0: list(p["dec"][0][1])}, agent_utilities={0: list(p["util"][0][1]), 1: []})


def one_agent_macid(p):
    return G.build(dict(p, kind="MACID"))


class C09:
    scenarios = staticmethod(lambda rng: cids(rng, 7))

    @staticmethod
    def run(p):
        from pycid.analyze.response_incentive import admits_ri, admits_ri_list
        from pycid.analyze.value_of_information import admits_voi, admits_voi_list
        D = G.to_D(p)
        g = G.build(p)
        before = G.structure(g)
        ok = O.sufficient_recall(D, [0])
        R = O.minimal_reduction(D)
        for d in list(D.owner):
            for f in (admits_voi, admits_ri):
                raises(KeyError, f, g, d, "nope")
                raises(KeyError, f, g, "nope", d)
                m = two_agents(p)
                for v in (D.V[0], d):
                    if v in m.nodes and d in m.nodes:
                        raises(ValueError, f, m, d, v)
            if not ok:
                for n in D.V:
                    raises(ValueError, admits_voi, g, d, n)
                    raises(ValueError, admits_ri, g, d, n)
                continue
            exp = {}
            for n in D.V:
                if n == d or n in O.descendants(D.E, d):
                    exp[n] = False
                else:
                    E2 = set(D.E) | {(n, d)}
                    exp[n] = (n, d) in O.minimal_reduction(D.with_edges(E2))
            expect_bools(f"admits_voi({d})", lambda: admits_voi_list(g, d), lambda n: admits_voi(g, d, n), D.V, exp, g)
            exp = {n: n != d and d in O.descendants(R, n) for n in D.V}
            expect_bools(f"admits_ri({d})", lambda: admits_ri_list(g, d), lambda n: admits_ri(g, d, n), D.V, exp, g)
        unchanged(g, before, "incentives")


class C10:
    scenarios = staticmethod(lambda rng: cids(rng, 7))

    @staticmethod
    def run(p):
        from pycid.analyze import instrumental_control_incentive as I
        from pycid.analyze import value_of_control as V
        D = G.to_D(p)
        g = G.build(p)
        before = G.structure(g)
        ok = O.sufficient_recall(D, [0])
        R = O.minimal_reduction(D)
        us = list(D.uowner)
        m = two_agents(p)
        for d in D.owner:
            exp = {n: any(n in q for u in us for q in O.dir_paths(D.E, d, u)) for n in D.V}
            expect_bools(f"admits_ici({d})", lambda: I.admits_ici_list(g, d), lambda n: I.admits_ici(g, d, n), D.V, exp, g)
            raises(KeyError, I.admits_ici, g, d, "nope")
            raises(KeyError, I.admits_ici, g, "nope", d)
            raises(KeyError, V.admits_indir_voc, g, d, "nope")
            raises(KeyError, V.admits_indir_voc, g, "nope", d)
            if d in m.nodes:
                raises(ValueError, I.admits_ici, m, d, d)
                raises(ValueError, V.admits_indir_voc, m, d, d)
        raises(KeyError, V.admits_voc, g, "nope")
        raises(KeyError, V.admits_dir_voc, g, "nope")
        for n in m.nodes:
            raises(ValueError, V.admits_voc, m, n)
            raises(ValueError, V.admits_dir_voc, m, n)
            break
        if not ok:
            for n in D.V:
                raises(ValueError, V.admits_voc, g, n)
                raises(ValueError, V.admits_dir_voc, g, n)
                for d in D.owner:
                    raises(ValueError, V.admits_indir_voc, g, d, n)
            unchanged(g, before, "incentives")
            return
        voc = {n: n not in D.owner and any(u == n or u in O.descendants(R, n) for u in us) for n in D.V}
        expect_bools("admits_voc", lambda: V.admits_voc_list(g), lambda n: V.admits_voc(g, n), D.V, voc, g)
        exp = {n: voc[n] and any(not set(q) & set(D.owner) for u in us for q in O.dir_paths(R, n, u)) for n in D.V}
        expect_bools("admits_dir_voc", lambda: V.admits_dir_voc_list(g), lambda n: V.admits_dir_voc(g, n), D.V, exp, g)
        for d in D.owner:
            exp = {}
            for n in D.V:
                con = ({d} | O.parents(D.E, d)) - {n}
                exp[n] = voc[n] and any(
                    any(d in q for q in O.dir_paths(R, n, u))
                    and any(len(q) > 1 and (q[1], q[0]) in R and O.path_active(R, q, con) for q in O.undir_paths(R, n, u))
                    for u in us)
            expect_bools(f"admits_indir_voc({d})", lambda: V.admits_indir_voc_list(g, d), lambda n: V.admits_indir_voc(g, d, n), D.V, exp, g)
        unchanged(g, before, "incentives")


class RP:
    """the criteria of Pfeffer and Gal"""
    def __init__(self, D):
        self.D, self.dp, self.up = D, {}, {}

    def dpaths(self, a, b):
        if (a, b) not in self.dp:
            self.dp[a, b] = O.dir_paths(self.D.E, a, b)
        return self.dp[a, b]

    def upaths(self, a, b):
        if (a, b) not in self.up:
            self.up[a, b] = O.undir_paths(self.D.E, a, b)
        return self.up[a, b]

    def eff(self, q, S):
        for i in range(1, len(q)):
            if q[i] in self.D.owner and q[i] not in S:
                if i == len(q) - 1 or O.motif(self.D.E, q, i) != "fork":
                    return False
        return True

    def free(self, a, b):
        return any(not set(q[1:-1]) & set(self.D.owner) for q in self.dpaths(a, b))

    def own(self, d):
        return self.D.util.get(self.D.owner[d], [])

    def de(self, d):
        return any(self.free(d, u) for u in self.own(d))

    def others(self, d, S):
        for b in self.D.owner:
            if b != d and b in S and self.free(d, b):
                yield b

    def manip(self, d, S):
        return any(any(self.eff(q, S) for u in self.own(d) for q in self.dpaths(b, u))
                   and any(b not in q and self.eff(q, S) for u in self.own(b) for q in self.dpaths(d, u))
                   for b in self.others(d, S))

    def W(self, a, b):
        return {b} | (O.parents(self.D.E, b) - O.descendants(self.D.E, a))

    def sig(self, d, S):
        E = self.D.E
        for b in self.others(d, S):
            for u in self.own(d):
                if not any(self.eff(q, S) for q in self.dpaths(b, u)):
                    continue
                for ub in self.own(b):
                    for q in self.upaths(d, ub):
                        if (q[1], q[0]) not in E or not O.path_active(E, q, self.W(d, b)) or not self.eff(q, S):
                            continue
                        c = next(q[i] for i in range(1, len(q) - 1) if O.motif(E, q, i) == "fork")
                        if any(self.eff(r, S) and O.path_active(E, r, self.W(c, d)) for r in self.upaths(c, u)):
                            return True
        return False

    def rev(self, d, S):
        E = self.D.E
        for b in self.others(d, S):
            if any(self.eff(q, S) for u in self.own(d) for q in self.dpaths(b, u)):
                for ub in self.own(b):
                    for q in self.upaths(d, ub):
                        if (q[0], q[1]) in E and any(O.motif(E, q, i) == "collider" for i in range(1, len(q) - 1)) \
                                and O.path_active(E, q, self.W(d, b)) and self.eff(q, S):
                            return True
        return False


class C11:
    @staticmethod
    def scenarios(rng):
        while True:
            s = G.random_diagram(rng, nmax=rng.choice([6, 7, 8]), nmin=4, barren_utils=True, min_dec=2, max_dec=4,
                                 p=rng.choice([0.3, 0.4, 0.5]))
            yield dict(s, pick=[rng.random() < 0.6 for _ in s["V"]])

    @staticmethod
    def run(p):
        from pycid.analyze import reasoning_patterns as A
        D = G.to_D(p)
        g = G.build(p)
        before = G.structure(g)
        T = RP(D)
        sets = [set(D.owner), {v for v, k in zip(p["V"], p["pick"]) if k and v in D.owner}, set()]
        for d in D.owner:
            need(bool(A.direct_effect(g, d)) == T.de(d), f"direct_effect({d}) is not {T.de(d)}")
            for S in sets:
                keep = set(S)
                for nm, f, ref in (("manipulation", A.manipulation, T.manip), ("signaling", A.signaling, T.sig),
                                   ("revealing_or_denying", A.revealing_or_denying, T.rev)):
                    e = ref(d, S)
                    need(bool(f(g, d, S)) == e, f"{nm}({d},{sorted(S)}) is not {e}")
                    need(S == keep, f"{nm} changed the effective set")
            for f in (A.manipulation, A.signaling, A.revealing_or_denying):
                raises(KeyError, f, g, d, {d, "nope"})
        S = set(D.owner)
        while True:
            N = {d for d in S if T.de(d) or T.manip(d, S) or T.sig(d, S) or T.rev(d, S)}
            if N == S:
                break
            S = N
        exp = {"dir_effect": [], "sig": [], "manip": [], "rev_den": []}
        for d in S:
            k = "dir_effect" if T.de(d) else "sig" if T.sig(d, S) else "manip" if T.manip(d, S) else "rev_den"
            exp[k].append(d)
        got = A.get_reasoning_patterns(g)
        need({k: sorted(v) for k, v in got.items()} == {k: sorted(v) for k, v in exp.items()}, f"get_reasoning_patterns = {got}, expected {exp}")
        unchanged(g, before, "reasoning patterns")
