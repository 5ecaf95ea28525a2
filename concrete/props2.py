"""Run-time contracts of the numeric properties (C02, C12-C22), judged against brute-force enumeration."""
import itertools
import math
import random as stdrandom

import numpy as np

import gen as G
import oracle as O
from props1 import Viol, need, raises

TOL = 1e-6


def close(a, b, tol=TOL):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def topo(s):
    E = G.tup(s["E"])
    out = []
    while len(out) < len(s["V"]):
        for v in s["V"]:
            if v not in out and O.parents(E, v) <= set(out):
                out.append(v)
    return out


def decs(s):
    return [d for _, ds in s["dec"] for d in ds]


def utils(s):
    return [u for _, us in s["util"] for u in us]


def ncells(s, vs=None):
    E = G.tup(s["E"])
    n = 1
    for v in vs or s["V"]:
        n *= len(s["dom"][v])
    return n


def pdiagram(rng, nmax=5, nmin=3, conn=True, single=False, **kw):
    par = {k: kw.pop(k) for k in ("dets", "zero", "maxdom", "small") if k in kw}
    while True:
        s = G.random_diagram(rng, nmax=nmax, nmin=nmin, single=single, **kw)
        if conn and not G.connected(s):
            continue
        s["kind"] = "CID" if single else "MACID"
        return G.random_params(rng, s, **par)


def check_table(g, s, v, tab, what):
    """the table of v in g is tab (parents/rows over s['dom'])"""
    cpd = g.get_cpds(v)
    need(cpd is not None, f"{what}: {v} has no table")
    vs = list(cpd.variables)
    need(vs[0] == v and sorted(vs[1:]) == sorted(g.get_parents(v)), f"{what}: table of {v} is over {vs}")
    for x in vs:
        need(list(cpd.state_names[x]) == list(s["dom"][x]), f"{what}: table of {v} has outcomes {cpd.state_names[x]} for {x}, domain {s['dom'][x]}")
    vals = np.asarray(cpd.values)
    need(vals.shape == tuple(len(s["dom"][x]) for x in vs), f"{what}: shape {vals.shape}")
    rows = {tuple(k): p for k, p in tab["rows"]}
    for idx in itertools.product(*[range(n) for n in vals.shape]):
        pv = {x: s["dom"][x][i] for x, i in zip(vs[1:], idx[1:])}
        e = rows[tuple(pv[q] for q in tab["parents"])][idx[0]]
        need(close(float(vals[idx]), e, 1e-8), f"{what}: P({v}={s['dom'][v][idx[0]]}|{pv}) = {float(vals[idx])}, expected {e}")


def sync(g, what):
    """variables with a table, specified variables and domains agree"""
    m = g.model
    names = [c.variable for c in g.get_cpds()]
    need(len(names) == len(set(names)), f"{what}: two tables for one variable {names}")
    need(set(names) <= set(m.keys()), f"{what}: tables for {names}, specified are {list(m.keys())}")
    for c in g.get_cpds():
        for x in c.variables:
            if x in m.domain:
                need(list(c.state_names[x]) == list(m.domain[x]),
                     f"{what}: table of {c.variable} uses outcomes {c.state_names[x]} for {x}, known domain {m.domain[x]}")
                need(c.values.shape[list(c.variables).index(x)] == len(m.domain[x]), f"{what}: size of {x} in the table of {c.variable}")
        need(c.variable in m.domain, f"{what}: no domain for {c.variable}")
        if set(c.variables[1:]) == set(g.get_parents(c.variable)):
            sums = np.asarray(c.values).reshape(c.values.shape[0], -1).sum(axis=0)
            need(np.allclose(sums, 1, atol=0.011), f"{what}: columns of {c.variable} sum to {sums}")


# ------------------------------------------------------------------ C12
class C12:
    @staticmethod
    def scenarios(rng):
        while True:
            s = pdiagram(rng, 5, 2, conn=False)
            order = list(s["V"])
            rng.shuffle(order)
            how = {v: rng.choice(["full", "partial", "plain", "domain"]) for v in s["V"]}
            ops = [[rng.choice(["del", "redo", "dom", "edge", "unedge", "const", "readd", "policy"]), rng.choice(s["V"]), rng.choice(s["V"]), rng.randint(0, 99)]
                   for _ in range(rng.randint(0, 6))]
            yield dict(s, order=order, how=how, ops=ops)

    @staticmethod
    def run(p):
        import pycid
        from pycid.core.cpd import ConstantCPD, DecisionDomain, StochasticFunctionCPD
        g = G.build(p)
        dd = decs(p)
        E = G.tup(p["E"])
        exp = {}
        done = []
        for v in p["order"]:
            dom = p["dom"][v]
            if v in dd:
                g.model[v] = list(dom)
                k = len(dom)
                ps = sorted(O.parents(E, v))
                exp[v] = {"parents": ps, "rows": [[list(pv), [1 / k] * k] for pv in itertools.product(*[p["dom"][q] for q in ps])]}
            else:
                t = p["tab"][v]
                how = p["how"][v]
                rows = []
                for pv, w in t["rows"]:
                    if how == "partial" and len(w) > 1:
                        # keep only the first outcome, the rest is spread evenly
                        r = (1 - w[0]) / (len(w) - 1)
                        rows.append([pv, [w[0]] + [r] * (len(w) - 1)])
                    elif how == "plain":
                        i = w.index(max(w))
                        rows.append([pv, [1.0 if j == i else 0.0 for j in range(len(w))]])
                    else:
                        rows.append([pv, w])
                exp[v] = {"parents": t["parents"], "rows": rows}
                fn = rel_fn(t["parents"], dom, rows, how)
                if not t["parents"] and how == "full":
                    g.model[v] = dict(zip(dom, rows[0][1]))
                elif how == "full":
                    g.model[v] = fn
                elif set(t["parents"]) <= {x for x in done if True} and all(q in g.model.domain for q in t["parents"]):
                    g.model[v] = StochasticFunctionCPD(v, fn, g, domain=list(dom))
                else:
                    exp[v] = {"parents": t["parents"], "rows": t["rows"]}
                    g.model[v] = rel_fn(t["parents"], dom, t["rows"], "full")
            done.append(v)
            sync(g, f"after specifying {done}")
            need(set(g.model.keys()) == set(done), f"specified variables {list(g.model.keys())}, expected {done}")
        # relationships given as functions have sorted domains
        final = dict(p, dom={})
        for v in p["V"]:
            need(v in g.model.domain and g.get_cpds(v) is not None, f"{v} has no table although everything is specified")
            d = list(g.model.domain[v])
            seen = list(p["dom"][v])
            if v in dd or isinstance(g.model[v], StochasticFunctionCPD):
                need(d == seen, f"domain of {v} is {d}, given {seen}")
            final["dom"][v] = d
        for v in p["V"]:
            t = exp[v]
            rows = {tuple(k): dict(zip(p["dom"][v], w)) for k, w in t["rows"]}
            dom = final["dom"][v]
            reach = {o for w in rows.values() for o in w} if p["how"].get(v) == "full" else None
            if reach is not None and v not in dd and not isinstance(g.model[v], StochasticFunctionCPD):
                need(dom == sorted(reach), f"domain of {v} is {dom}, mentioned outcomes {sorted(reach)}")
            new = {"parents": t["parents"], "rows": [[list(pv), [rows[tuple(pv)].get(o, 0.0) for o in dom]]
                                                    for pv in itertools.product(*[final["dom"][q] for q in t["parents"]])]}
            check_table(g, final, v, new, f"specified in order {p['order']}")
        C12.rejections(g, p, final)
        C12.reorder(g, p, final)
        C12.history(p, final)

    @staticmethod
    def rejections(g, p, f):
        from pycid.core.cpd import StochasticFunctionCPD
        for v in p["V"]:
            d = f["dom"][v]
            h = G.build(p)
            for x in topo(p):
                if x == v:
                    break
                h.model[x] = list(p["dom"][x]) if x in decs(p) else {o: 1 / len(p["dom"][x]) for o in p["dom"][x]}

            def tryit(rel, cls=None, dom=None):
                k = h.copy() if False else h
                if cls:
                    raises(ValueError, lambda: StochasticFunctionCPD(v, rel, k, domain=dom))
                else:
                    raises(ValueError, lambda: k.model.__setitem__(v, rel))
            tryit(lambda **pv: {d[0]: 0.7, d[1]: 0.7})
            tryit(lambda **pv: {d[0]: 0.5, d[1]: 0.2})
            tryit(lambda **pv: {d[0]: -0.2, d[1]: 1.2})
            tryit(lambda **pv: {d[0]: -0.005, d[1]: 1.005})
            tryit({d[0]: 1.5, d[1]: -0.5})
            tryit({d[0]: 0.25, d[1]: 0.25})
            for total in (0.93, 0.96, 0.98, 1.02, 1.04):
                tryit({d[0]: total * 0.75, d[1]: total * 0.25})
            tryit(lambda nosuchparent: 1)
            ps = list(h.get_parents(v))
            for q in ps:
                # a function which lacks one parent, and one which asks for a variable that is no parent
                rest = ", ".join(x for x in ps if x != q)
                tryit(eval(f"lambda {rest}: {d[0]!r}", {}))
                tryit(eval(f"lambda {rest}{', ' if rest else ''}nosuchparent: {d[0]!r}", {}))
            if ps:
                tryit(eval(f"lambda {', '.join(ps)}, nosuchparent: {d[0]!r}", {}))
            tryit(lambda **pv: 12345, True, list(d))
            tryit(lambda **pv: {d[0]: 0.5, 12345: 0.5}, True, list(d))

    @staticmethod
    def reorder(g, p, f):
        """listing the outcomes of a variable in another order leaves every distribution what it was"""
        from pycid.core.cpd import StochasticFunctionCPD
        dd = decs(p)

        def table(h, v):
            c = h.get_cpds(v)
            out = {}
            for idx in itertools.product(*[range(n) for n in c.values.shape]):
                out[frozenset((x, c.state_names[x][i]) for x, i in zip(c.variables, idx))] = float(c.values[idx])
            return out
        for v in p["V"]:
            if isinstance(g.model[v], StochasticFunctionCPD) or v in dd:
                before = {x: table(g, x) for x in p["V"]}
                new = list(reversed(g.model.domain[v]))
                c = g.model[v]
                g.model[v] = new if v in dd else StochasticFunctionCPD(v, c.func, g, domain=new)
                need(list(g.model.domain[v]) == new, f"domain of {v} is {g.model.domain[v]}, given {new}")
                kids = [x for x in p["V"] if O.descendants(G.tup(p["E"]), v) and x in O.descendants(G.tup(p["E"]), v)]
                if all(isinstance(g.model[x], StochasticFunctionCPD) for x in kids):
                    sync(g, f"after reordering the outcomes of {v}")
                    for x in p["V"]:
                        now = table(g, x)
                        need(set(now) == set(before[x]) and all(abs(now[k] - before[x][k]) < 1e-9 for k in now),
                             f"reordering the outcomes of {v} changed the distribution of {x}: {now}, was {before[x]}")

    @staticmethod
    def history(p, f):
        """additions, replacements, removals, domain and edge changes"""
        import pycid
        from pycid.core.cpd import ConstantCPD
        g = G.build(p)
        dd = decs(p)
        spec = set()

        def flexible(v, k):
            kk = k

            def fn(**pv):
                h = sum(hash(repr(x)) % 1 for x in ())
                t = sum(i * (1 + list(sorted(pv)).index(q)) for q, i in ((q, int(x) if isinstance(x, (int, float)) else 1) for q, x in pv.items())) + kk
                return {0: 0.25, (t % 3): 0.5} if kk % 2 else {0: 0.5, 1: 0.5}
            return fn
        fns = {}
        for v in topo(p):
            if v in dd:
                g.model[v] = list(p["dom"][v])
            elif p["how"][v] in ("full", "partial"):
                fns[v] = 0
                g.model[v] = {o: 1 / len(p["dom"][v]) for o in p["dom"][v]}
            else:
                g.model[v] = flexible2(1)
            spec.add(v)
        hist = []
        for op, a, b, k in p["ops"]:
            hist.append((op, a, b, k))
            what = f"after {hist}"
            from pgmpy.factors.discrete import TabularCPD
            if op in ("dom", "const", "redo", "readd"):
                # a distribution given as a finished table does not follow later changes of its parents
                for x in list(spec):
                    if type(g.model[x]) is TabularCPD and x in O.descendants(list(g.edges), a):
                        g.model[x] = list(g.model.domain[x])
            if op == "del" and a in spec:
                del g.model[a]
                spec.discard(a)
                need(g.get_cpds(a) is None, f"{what}: {a} still has a table")
            elif op == "readd" and a not in spec:
                g.model[a] = list(p["dom"][a]) if a in dd else {0: 0.5, 1: 0.5}
                spec.add(a)
            elif op == "redo" and a not in dd:
                g.model[a] = flexible2(k)
                spec.add(a)
            elif op == "dom" and a not in dd:
                g.model[a] = {o: 1 / (1 + k % 3 + 1) for o in range(1 + k % 3 + 1)}
                spec.add(a)
            elif op == "dom":
                g.model[a] = list(range(2 + k % 2))
                spec.add(a)
            elif op == "const" and a not in dd:
                g.add_cpds(**{a: {1: 0.25, 0: 0.75}})
                spec.add(a)
            elif op == "policy" and a in dd and a in g.model.domain and a in spec:
                g.impute_random_decision(a)
            elif op == "edge" and a != b and b not in O.ancestors_refl(list(g.edges), [a]) and not g.has_edge(a, b):
                if isinstance(g.get_cpds(b), ConstantCPD) and g.get_cpds(a) is not None:
                    g.add_edge(a, b)
                    need(set(g.get_cpds(b).variables) == {b} | set(g.get_parents(b)), f"{what}: table of {b} ignores its new parent")
            elif op == "unedge":
                ps = list(g.get_parents(b))
                if ps and isinstance(g.get_cpds(b), ConstantCPD):
                    g.remove_edge(ps[k % len(ps)], b)
                    need(set(g.get_cpds(b).variables) == {b} | set(g.get_parents(b)), f"{what}: table of {b} keeps its old parent")
            sync(g, what)
            need(set(g.model.keys()) == spec, f"{what}: specified variables {set(g.model.keys())}, expected {spec}")
            for v in spec:
                if all(q in g.model.domain for q in g.get_parents(v)):
                    need(g.get_cpds(v) is not None, f"{what}: {v} is specified, its parents are known, and it has no table")


def flexible2(k):
    def fn(**pv):
        t = k
        for i, q in enumerate(sorted(pv)):
            t += (i + 1) * int(pv[q])
        if k % 2:
            return {t % 2: 0.75, 1 - t % 2: 0.25}
        return t % 2
    return fn


def rel_fn(parents, dom, rows, how):
    rows = {tuple(k): list(w) for k, w in rows}

    def fn(**pv):
        w = rows[tuple(pv[q] for q in parents)]
        if how == "plain":
            return dom[w.index(max(w))]
        if how == "partial":
            return {dom[0]: w[0]} if len(dom) == 1 else {dom[0]: w[0], dom[1]: None}
        return dict(zip(dom, w))
    return fn


# ------------------------------------------------------------------ C02
def mutate(g, op, a, b, k, s):
    """one change, ignored when it does not apply"""
    from pycid.core.cpd import ConstantCPD
    dd = list(getattr(g, "decisions", []))
    try:
        if op == "unedge":
            es = list(g.edges)
            if es:
                g.remove_edge(*es[k % len(es)])
        elif op == "edge" and a != b and b not in O.ancestors_refl(list(g.edges), [a]) and not g.has_edge(a, b):
            g.add_edge(a, b)
        elif op == "role" and hasattr(g, "make_chance"):
            (g.make_chance if k % 3 == 0 else g.make_decision if k % 3 == 1 else g.make_utility)(a)
        elif op == "policy" and dd and hasattr(g, "impute_random_decision"):
            g.impute_random_decision(dd[k % len(dd)])
        elif op == "opt" and hasattr(g, "impute_fully_mixed_policy_profile"):
            g.impute_fully_mixed_policy_profile()
        elif op == "nopolicy" and hasattr(g, "remove_all_decision_rules"):
            g.remove_all_decision_rules()
        elif op == "do":
            g.intervene({a: g.model.domain[a][k % len(g.model.domain[a])]})
        elif op == "const":
            g.model[a] = {0: 0.5, 1: 0.25, 2: 0.25}
        elif op == "del":
            g.remove_cpds(a)
        elif op == "again":
            g.model[a] = g.model[a]
        elif op == "rmnode":
            g.remove_node(a)
        elif op == "lists" and hasattr(g, "agent_decisions"):
            for m in (g.agent_decisions, g.agent_utilities):
                for v in m.values():
                    v.append("ghost")
            g.decision_agent["ghost"] = 0
            g.utility_agent["ghost2"] = 0
        elif op == "domlist":
            for v in g.model.domain:
                g.model.domain[v] = list(g.model.domain[v])
    except Exception:
        pass


class C02:
    @staticmethod
    def scenarios(rng):
        while True:
            kind = rng.choice(["CID", "MACID", "MACIDBase", "CBN", "MACID"])
            s = pdiagram(rng, 5, 3, conn=False, single=(kind == "CID"))
            if kind == "CBN":
                s["dec"], s["util"] = [], []
                s = G.random_params(rng, {k: s[k] for k in ("V", "E", "dec", "util")})
            ops = [[rng.choice(["unedge", "edge", "role", "role", "policy", "opt", "nopolicy", "do", "const", "const", "del", "again", "again", "rmnode", "lists"]),
                    rng.choice(s["V"]), rng.choice(s["V"]), rng.randint(0, 99), rng.random() < 0.5] for _ in range(rng.randint(1, 5))]
            extra = rng.choice([None, None, "spectator"])
            pol = [d for d in decs(s) if rng.random() < 0.5]
            yield dict(s, kind=kind, ops=ops, extra=extra, pol={d: G.random_policy(rng, s, d) for d in pol}, chain=rng.random() < 0.3,
                       partial=rng.random() < 0.2, fn=rng.random() < 0.4)

    @staticmethod
    def run(p):
        g = G.build(p)
        if p["extra"] and hasattr(g, "agent_utilities") and p["kind"] != "CID":
            g.agent_utilities[p["extra"]] = []
        if not p["partial"]:
            G.param(g, p, order=topo(p) if p["fn"] else None, policies=p["pol"])
        before = G.snapshot(g)
        c = g.copy_without_cpds()
        need(G.structure(c) == before["structure"], f"copy_without_cpds: {before['structure']} -> {G.structure(c)}")
        need(len(c.get_cpds()) == 0 and len(list(c.model.keys())) == 0, "copy_without_cpds has distributions")
        need(G.snapshot(g) == before, "copy_without_cpds changed the original")
        h = g.copy()
        need(type(h) is type(g), f"copy is a {type(h).__name__}, original {type(g).__name__}")
        need(G.snapshot(h) == before, f"copy differs from the original: {G.diff(before, G.snapshot(h))}")
        need(G.snapshot(g) == before, f"copying changed the original: {G.diff(before, G.snapshot(g))}")
        if p["chain"]:
            h2 = h.copy()
            need(G.snapshot(h2) == before, f"copy of the copy differs: {G.diff(before, G.snapshot(h2))}")
            third, third_before = h, G.snapshot(h)
            h = h2
        else:
            third, third_before = c, G.snapshot(c)
        hist = []
        for op, a, b, k, side in p["ops"]:
            x, y = (g, h) if side else (h, g)
            yb = G.snapshot(y)
            hist.append((op, a, b, k, "original" if side else "copy"))
            mutate(x, op, a, b, k, p)
            ya = G.snapshot(y)
            need(ya == yb, f"after {hist} the other diagram changed: {G.diff(yb, ya)}")
            tb = G.snapshot(third)
            need(tb == third_before, f"after {hist} a third diagram changed: {G.diff(third_before, tb)}")
        # recomputing the distributions of one from its own relationships depends on nothing in the other
        yb = G.snapshot(h)
        for v in list(g.model.keys()):
            mutate(g, "const", v, v, 0, p)
        need(G.snapshot(h) == yb, f"after replacing all distributions of one: {G.diff(yb, G.snapshot(h))}")
        if not p["partial"] and not any(o[0] in ("rmnode", "del", "const", "edge", "unedge") for o in p["ops"]):
            for v in topo(p):
                if v in h.model and h.get_cpds(v) is not None:
                    h.model[v] = h.model[v]
            need(G.snapshot(h) == yb, f"re-adding the distributions of the copy changed it: {G.diff(yb, G.snapshot(h))}")


# ------------------------------------------------------------------ C13
class C13:
    @staticmethod
    def scenarios(rng):
        while True:
            kind = rng.choice(["MACID", "CID", "CBN", "MACIDBase"])
            s = pdiagram(rng, 6, 2, conn=rng.random() < 0.5, single=(kind == "CID"), zero=0.1)
            if kind == "CBN":
                s["dec"], s["util"] = [], []
                s = G.random_params(rng, {k: s[k] for k in ("V", "E", "dec", "util")}, zero=0.1)
            pol = [d for d in decs(s) if rng.random() < 0.6]
            pols = {d: G.random_policy(rng, s, d) for d in pol}
            V = s["V"]
            do = {v: rng.choice(s["dom"][v]) for v in rng.sample(V, rng.choice([0, 0, 1, 1, 2]) if len(V) > 2 else 0)}
            rest = [v for v in V if v not in do]
            if not rest:
                continue
            q = rng.sample(rest if rng.random() < 0.8 else V, rng.choice([1, 1, 2]) if len(rest) > 1 else 1)
            ctxv = [v for v in rest if v not in q and rng.random() < 0.35]
            ctx = {v: rng.choice(s["dom"][v]) for v in ctxv}
            yield dict(s, kind=kind, pols=pols, do=do, q=q, ctx=ctx, tabular=rng.random() < 0.3)

    @staticmethod
    def run(p):
        g = G.build(p)
        G.param(g, p, policies=p["pols"])
        if p["tabular"]:
            from pgmpy.factors.discrete import TabularCPD
            for v in topo(p):
                if v not in decs(p):
                    c = g.get_cpds(v)
                    g.add_cpds(TabularCPD(v, c.cardinality[0], c.get_values(), evidence=list(c.variables[1:]) or None,
                                          evidence_card=list(c.cardinality[1:]) if len(c.variables) > 1 else None,
                                          state_names={x: list(c.state_names[x]) for x in c.variables}))
        before = G.snapshot(g)
        E = G.tup(p["E"])
        do, ctx, q = p["do"], p["ctx"], p["q"]
        cut = {e for e in E if e[1] in do}
        net = G.Net(p, p["pols"])
        # decisions without a policy
        open_d = [d for d in decs(p) if d not in p["pols"]]
        E2 = [e for e in E if e not in cut] + [(("mec", v), v) for v in p["V"]]
        dep = any(O.dconnected(E2, ("mec", d), x, set(ctx) | set(do)) for d in open_d for x in q)
        dist, tot = net.cond(q, ctx, do)
        comps = [frozenset(G.component(p, x, cut)) for x in q]
        # context variables outside the component of the query do not matter; but a zero context is undefined
        if tot <= 1e-12:
            return
        if dep:
            raises(ValueError, g.query, q, ctx, do)
        elif len(set(comps)) == 1:
            for qq in (q, tuple(q)):
                f = g.query(qq, dict(ctx), dict(do))
                f.normalize()
                got = {}
                need(sorted(f.variables) == sorted(q), f"query {q}: factor over {f.variables}")
                for idx, pr in np.ndenumerate(f.values):
                    a = {v: f.state_names[v][i] for v, i in zip(f.variables, idx)}
                    got[tuple(a[v] for v in q)] = got.get(tuple(a[v] for v in q), 0) + float(pr)
                for k in set(got) | set(dist):
                    need(close(got.get(k, 0), dist.get(k, 0)), f"P({q}={k}|{ctx},do({do})) = {got.get(k, 0)}, expected {dist.get(k, 0)}")
            if not do:
                f = g.query(q, dict(ctx))
            both = {v: o for v, o in do.items() if v not in q}
            if both:
                # observing what the intervention brings about changes nothing
                f = g.query(q, dict(ctx, **both), dict(do))
                f.normalize()
                for idx, pr in np.ndenumerate(f.values):
                    a = {v: f.state_names[v][i] for v, i in zip(f.variables, idx)}
                    need(close(float(pr), dist.get(tuple(a[v] for v in q), 0)), f"P({a}|{dict(ctx, **both)},do({do})) = {float(pr)}, expected {dist.get(tuple(a[v] for v in q), 0)}")
        after = G.snapshot(g)
        need(after == before, f"query {q}|{ctx},do({do}) changed the network: {G.diff(before, after)}")
        v = p["V"][0]
        raises(ValueError, g.query, q, {v: 98765})
        raises(ValueError, g.query, q, {v: 98765}, do)
        # in-place intervention
        if do:
            h = g.copy()
            h.intervene(dict(do))
            need(set(h.edges) == set(E) - cut, f"intervene({do}): edges {sorted(h.edges)}")
            need(set(h.nodes) == set(p["V"]), "intervene changed the nodes")
            s = G.snapshot(h)
            need(s["domain"] == before["domain"], f"intervene({do}): {G.diff({'domain': before['domain']}, {'domain': s['domain']})}")
            need(s["model"] == before["model"], "intervene changed the specified variables")
            for x in p["V"]:
                if x in do:
                    need(s["tables"][x] == {"[]": {repr(o): (1.0 if o == do[x] else 0.0) for o in p["dom"][x]}}, f"intervene({do}): {x} has {s['tables'][x]}")
                else:
                    need(s["tables"][x] == before["tables"][x], f"intervene({do}) changed the distribution of {x}: {before['tables'][x]} -> {s['tables'][x]}")
            need(G.snapshot(g) == before, "intervening on a copy changed the original")


# ------------------------------------------------------------------ C14
class C14:
    @staticmethod
    def scenarios(rng):
        while True:
            single = rng.random() < 0.6
            s = pdiagram(rng, 6, 2, conn=True, single=single)
            pols = {d: G.random_policy(rng, s, d) for d in decs(s)}
            V = s["V"]
            do = {v: rng.choice(s["dom"][v]) for v in rng.sample(V, rng.choice([0, 0, 1]))}
            q = rng.sample(V, rng.choice([0, 1, 1, 2, 3]) if len(V) > 2 else 1)
            obs = rng.random() < 0.3      # the outcomes of variables asked for may be known
            ctx = {v: rng.choice(s["dom"][v]) for v in V if (obs or v not in q and v not in utils(s)) and v not in do and rng.random() < 0.3}
            a, x, y = (rng.choice(V) for _ in range(3))
            yield dict(s, pols=pols, do=do, q=q, ctx=ctx, a=a, x=x, y=y, a0=rng.choice(s["dom"][a]), a1=rng.choice(s["dom"][a]), adapt=rng.random() < 0.6,
                       iters=rng.choice(["list", "tuple", "iter"]))

    @staticmethod
    def run(p):
        from pycid.analyze.effects import introduced_total_effect, total_effect
        g = G.build(p)
        G.param(g, p, policies=p["pols"])
        net = G.Net(p, p["pols"])
        before = G.snapshot(g)
        E = G.tup(p["E"])
        do, ctx, q = p["do"], p["ctx"], p["q"]
        cut = {e for e in E if e[1] in do}
        _, tot = net.cond([], ctx, do)

        def conn(vs, cut):
            vs = list(vs)
            return not vs or all(v in G.component(p, vs[0], cut) for v in vs)
        if tot > 1e-12 and conn([v for v in q if v not in ctx], cut):
            mk = {"list": list, "tuple": tuple, "iter": iter}[p["iters"]]
            got = g.expected_value(mk(q), dict(ctx), dict(do)) if do else g.expected_value(mk(q), dict(ctx))
            exp = [net.ev(v, ctx, do) for v in q]
            need(isinstance(got, list) and len(got) == len(exp) and all(close(a, b) for a, b in zip(got, exp)),
                 f"expected_value({q}|{ctx},do({do})) = {got}, expected {exp}")
        for a, us in p["util"]:
            if tot > 1e-12 and conn([u for u in us if u not in ctx], cut):
                got = g.expected_utility(dict(ctx), dict(do), agent=a)
                exp = sum(net.ev(u, ctx, do) for u in us)
                need(close(got, exp), f"expected_utility({ctx},do({do}),{a!r}) = {got}, expected {exp}")
                if a == 0:
                    need(close(g.expected_utility(dict(ctx), dict(do)), exp), "expected_utility with the default agent")
        a, x, y, a0, a1 = p["a"], p["x"], p["y"], p["a0"], p["a1"]
        te = {v: net.ev(v, {}, {a: a1}) - net.ev(v, {}, {a: a0}) for v in (x, y)}
        for v in (x, y):
            got = total_effect(g, a, v, a0, a1)
            need(close(got, te[v]), f"total_effect({a},{v},{a0},{a1}) = {got}, expected {te[v]}")
        if {0, 1} <= set(p["dom"][a]):
            got = total_effect(g, a, x)
            e = net.ev(x, {}, {a: 1}) - net.ev(x, {}, {a: 0})
            need(close(got, e), f"total_effect({a},{x}) = {got}, expected {e}")
        if abs(te[y]) > 1e-9 or not p["adapt"]:
            sg = -1 if te[y] < 0 and p["adapt"] else 1
            got = introduced_total_effect(g, a, x, y, a0, a1, adapt_marginalized=p["adapt"])
            need(close(got, sg * (te[x] - te[y])), f"introduced_total_effect({a},{x},{y},{a0},{a1},{p['adapt']}) = {got}, expected {sg * (te[x] - te[y])}")
            if p["adapt"]:
                need(close(introduced_total_effect(g, a, x, y, a0, a1), got), "introduced_total_effect with the default adaptation")
        after = G.snapshot(g)
        need(after == before, f"expected values changed the diagram: {G.diff(before, after)}")


# ------------------------------------------------------------------ C15
def rule_rows(cpd, p, d):
    """{parent outcomes (sorted parents): outcome} of a deterministic table"""
    ps = sorted(O.parents(G.tup(p["E"]), d))
    vs = list(cpd.variables)
    need(vs[0] == d and sorted(vs[1:]) == ps, f"rule for {d} is over {vs}")
    need(list(cpd.state_names[d]) == list(p["dom"][d]), f"rule for {d} has outcomes {cpd.state_names[d]}, domain {p['dom'][d]}")
    out = {}
    for idx in itertools.product(*[range(n) for n in cpd.values.shape[1:]]):
        col = [float(cpd.values[(i,) + idx]) for i in range(cpd.values.shape[0])]
        need(sorted(col) == [0.0] * (len(col) - 1) + [1.0], f"rule for {d} is not deterministic: {col}")
        pv = {x: cpd.state_names.get(x, p["dom"][x])[i] for x, i in zip(vs[1:], idx)}
        out[tuple(pv[x] for x in ps)] = cpd.state_names[d][col.index(1.0)]
    return out


class C15:
    @staticmethod
    def scenarios(rng):
        while True:
            s = pdiagram(rng, 5, 3, conn=False)
            if rng.random() < 0.25:   # many contexts: only the first rules are looked at
                s = G.random_diagram(rng, nmax=6, nmin=4, p=0.8)
                s = G.random_params(rng, dict(s, kind="MACID"))
                big = [d for d in decs(s) if len(O.parents(G.tup(s["E"]), d)) >= 3]
                if big:
                    yield dict(s, big=rng.choice(big))
                continue
            n = {}
            for d in decs(s):
                k = 1
                for q in O.parents(G.tup(s["E"]), d):
                    k *= len(s["dom"][q])
                n[d] = len(s["dom"][d]) ** k
            ok = [d for d in decs(s) if n[d] <= 300]
            if ok:
                rng.shuffle(ok)
                pick, t = [], 1
                for d in ok:
                    if t * n[d] <= 400:
                        pick.append(d)
                        t *= n[d]
                yield dict(s, pick=pick, ok=ok)

    @staticmethod
    def run(p):
        g = G.build(p)
        G.param(g, p)
        before = G.snapshot(g)
        E = G.tup(p["E"])

        def all_rules(d):
            ps = sorted(O.parents(E, d))
            ctx = list(itertools.product(*[p["dom"][q] for q in ps]))
            return [tuple(zip(ctx, ch)) for ch in itertools.product(p["dom"][d], repeat=len(ctx))]
        if "big" in p:
            d = p["big"]
            ps = sorted(O.parents(E, d))
            rules = list(itertools.islice(g.pure_decision_rules(d), 48))
            got = [tuple(sorted(rule_rows(r, p, d).items(), key=repr)) for r in rules]
            n = 1
            for q in ps:
                n *= len(p["dom"][q])
            n = len(p["dom"][d]) ** n
            need(len(got) == min(48, n) and len(set(got)) == len(got), f"pure_decision_rules({d}): {len(set(got))} different rules among the first {len(got)}")
            return
        for d in p["ok"]:
            rules = list(g.pure_decision_rules(d))
            got = [tuple(sorted(rule_rows(r, p, d).items(), key=repr)) for r in rules]
            exp = [tuple(sorted(r, key=repr)) for r in all_rules(d)]
            need(sorted(got, key=repr) == sorted(exp, key=repr), f"pure_decision_rules({d}): {len(got)} rules, {len(set(got))} different, expected {len(exp)}")
            # used late, the rules still choose what their table says
            ps = sorted(O.parents(E, d))
            for r, row in list(zip(rules, got))[:40]:
                need(r.variable == d, f"rule for {d} is for {r.variable}")
                for c, o in row:
                    need(r.func(**dict(zip(ps, c))) == o, f"rule of {d} with table {row} chooses {r.func(**dict(zip(ps, c)))} in {c}")
        exp = [[]]
        for d in p["pick"]:
            exp = [e + [(d, tuple(sorted(r, key=repr)))] for e in exp for r in all_rules(d)]
        for nm in ("pure_policies", "joint_pure_policies"):
            got = []
            pols = list(getattr(g, nm)(list(p["pick"])))
            for pol in pols:
                got.append([(c.variable, tuple(sorted(rule_rows(c, p, c.variable).items(), key=repr))) for c in pol])
            need(sorted(map(repr, got)) == sorted(map(repr, exp)), f"{nm}({p['pick']}): {len(got)} policies, expected {len(exp)} in the order of the decisions")
        after = G.snapshot(g)
        need(after == before, f"enumeration changed the diagram: {G.diff(before, after)}")


# ------------------------------------------------------------------ C16
def rule_key(rows):
    return tuple(sorted(rows.items(), key=repr))


def table_rows(p, d, t):
    return {tuple(k): p["dom"][d][w.index(max(w))] for k, w in t["rows"]}


def npure(s, ds):
    n = 1
    for d in ds:
        k = 1
        for q in O.parents(G.tup(s["E"]), d):
            k *= len(s["dom"][q])
        n *= len(s["dom"][d]) ** k
    return n


def all_pols(p, ds):
    out = [{}]
    for d in ds:
        out = [dict(o, **{d: t}) for o in out for t in G.all_pure(p, d)]
    return out


def eu(p, pols, a):
    net = G.Net(p, pols)
    us = dict(map(tuple, p["util"])).get(a, [])
    return sum(pr * sum(x[u] for u in us) for x, pr in net.joint())


def recall_cid(rng):
    """decisions in a row, each seeing the earlier ones, whose joint choice matters; they are listed in any order"""
    k = rng.choice([2, 2, 3])
    ds = [f"D{i}" for i in range(k)]
    rng.shuffle(ds)
    E = [[ds[i], ds[j]] for j in range(k) for i in range(j)] + [[d, "U"] for d in ds]
    if rng.random() < 0.6:
        E += [["X", "U"]] + ([["X", d] for d in ds[rng.randrange(k):]] if k == 2 and rng.random() < 0.7 else [])
    V = sorted({v for e in E for v in e})
    rng.shuffle(V)
    rng.shuffle(E)
    dom = {d: rng.sample([0, 1, 2], 2) for d in ds}
    dom["X"] = [0, 1]
    dom["U"] = sorted(rng.sample(range(1, 40), 6))
    ps = sorted(O.parents(G.tup(E), "U"))
    tab = {"U": {"parents": ps, "rows": [[list(c), [1.0 if o == w else 0.0 for o in dom["U"]]] for c in itertools.product(*[dom[q] for q in ps]) for w in [rng.choice(dom["U"])]]}}
    if "X" in V:
        tab["X"] = {"parents": [], "rows": [[[], rng.choice([[0.5, 0.5], [0.25, 0.75], [0.875, 0.125]])]]}
    listed = list(ds)
    rng.shuffle(listed)
    return {"V": V, "E": E, "dec": [[0, listed]], "util": [[0, ["U"]]], "kind": "CID", "dom": {v: dom[v] for v in V}, "tab": tab}


class C16:
    @staticmethod
    def scenarios(rng):
        while True:
            if rng.random() < 0.2:
                s = recall_cid(rng)
                pick = rng.sample(s["dec"][0][1], rng.randint(1, len(s["dec"][0][1])))
                yield dict(s, agent=0, pick=pick, pols={d: G.random_policy(rng, s, d) for d in s["dec"][0][1] if d not in pick}, seed=rng.randint(0, 9999))
                continue
            single = rng.random() < 0.6
            s = pdiagram(rng, 5, 3, conn=True, single=single, max_dec=3, maxdom=rng.choice([2, 3]), dets=0.5)
            for u in utils(s):
                s["dom"][u] = rng.sample([1, 2, 3, 4, 6, 8], len(s["dom"][u]))
            scale = rng.choice([1, 1, 1, -1, -4096, 2 ** 20, -2 ** 30, 2.0 ** -12, -2.0 ** -12])   # one sign for all, so that sums of ties stay exact
            for u in utils(s):
                s["dom"][u] = [scale * x for x in s["dom"][u]]
            # keep probabilities dyadic so that ties are exact, and tables in step with the utility domains
            for v, t in s["tab"].items():
                for r in t["rows"]:
                    k = len(r[1])
                    if max(r[1]) < 1:
                        r[1] = [0.5, 0.5] + [0.0] * (k - 2) if rng.random() < 0.5 else [0.25, 0.75] + [0.0] * (k - 2)
                t["rows"] = [[list(c), r[1]] for c, r in zip(itertools.product(*[s["dom"][q] for q in t["parents"]]), t["rows"])]
            ag = [a for a, ds in s["dec"] if ds]
            if not ag:
                continue
            a = rng.choice(ag)
            ds = dict(map(tuple, s["dec"]))[a]
            pick = rng.sample(ds, rng.randint(1, len(ds)))
            if npure(s, pick) > 64 or (single and npure(s, ds) > 64):
                continue
            others = [d for d in decs(s) if d not in pick]
            D = G.to_D(s)
            pols = {}
            for d in others:
                irrelevant = not any(O.r_reachable(D, x, d) for x in pick)
                if not (irrelevant and rng.random() < 0.5):
                    pols[d] = G.random_policy(rng, s, d, pure=rng.random() < 0.5)
            if rng.random() < 0.3:
                pols[pick[0]] = G.random_policy(rng, s, pick[0])
            yield dict(s, agent=a, pick=pick, pols=pols, seed=rng.randint(0, 9999))

    @staticmethod
    def run(p):
        g = G.build(p)
        G.param(g, p, policies=p["pols"])
        before = G.snapshot(g)
        a, pick = p["agent"], p["pick"]
        best, opt = None, []
        vals = []
        for pol in all_pols(p, pick):
            x = eu(p, dict(p["pols"], **pol), a)
            vals.append((x, tuple(sorted((d, rule_key(table_rows(p, d, t))) for d, t in pol.items()))))
        mx = max(x for x, _ in vals)
        exp = sorted(k for x, k in vals if close(x, mx, 1e-10))
        amb = any(1e-10 * max(1, abs(mx)) < mx - x < 1e-7 * max(1, abs(mx)) for x, _ in vals)
        if not amb:
            for form in (list(pick), set(pick), tuple(reversed(pick))):
                res = g.optimal_pure_policies(form)
                got = sorted(tuple(sorted((c.variable, rule_key(rule_rows(c, p, c.variable))) for c in pol)) for pol in res)
                need(got == exp, f"optimal_pure_policies({form}): {len(got)} policies, {len(exp)} maximisers; got {got[:3]}, expected {exp[:3]}")
            if len(pick) == 1:
                got = sorted(((c.variable, rule_key(rule_rows(c, p, c.variable))),) for c in g.optimal_pure_decision_rules(pick[0]))
                need(got == exp, f"optimal_pure_decision_rules({pick[0]}): {got} expected {exp}")
            need(list(g.optimal_pure_policies([])) == [], "optimal policies of no decisions")
        mine = [u for u in dict(map(tuple, p["util"])).get(a, [])]
        for d in decs(p):
            rest = {x: t for x, t in p["pols"].items() if x != d}
            if d not in pick and any(O.r_reachable(G.to_D(p), x, d) for x in pick) and any(u in O.descendants(G.tup(p["E"]), d) for u in mine):
                h = G.build(p)
                G.param(h, p, policies=rest)
                raises(ValueError, h.optimal_pure_policies, list(pick))     # the utility depends on a decision without a policy
        need(G.snapshot(g) == before, f"optimal policies changed the diagram: {G.diff(before, G.snapshot(g))}")
        owners = {d: x for x, ds in p["dec"] for d in ds}
        other = [d for d in owners if owners[d] != a]
        if other:
            raises(ValueError, g.optimal_pure_policies, [pick[0], other[0]])
        single = p["kind"] == "CID"
        if single and positive_contexts(p):
            stdrandom.seed(p["seed"])
            mx = max(eu(p, pol, 0) for pol in all_pols(p, decs(p)))
            sol = g.solve()
            need(G.snapshot(g) == before, f"solve changed the diagram: {G.diff(before, G.snapshot(g))}")
            need(set(sol) == set(decs(p)), f"solve returned {list(sol)}")
            pol = {d: cpd_table(sol[d], p, d) for d in decs(p)}
            need(close(eu(p, pol, 0), mx), f"solve: expected utility {eu(p, pol, 0)}, maximum {mx}")
            h = g.copy()
            h.impute_optimal_policy()
            pol = {d: cpd_table(h.get_cpds(d), p, d) for d in decs(p)}
            need(close(eu(p, pol, 0), mx), f"impute_optimal_policy: expected utility {eu(p, pol, 0)}, maximum {mx}")
            need(close(h.expected_utility({}), mx), f"expected_utility after impute_optimal_policy {h.expected_utility({})}, maximum {mx}")
            if not [d for d in decs(p) if d in p["pols"]] or True:
                got = g.optimal_policies()
                n = sum(1 for pol in all_pols(p, decs(p)) if close(eu(p, pol, 0), mx, 1e-10))
                if not any(1e-10 * abs(mx) < mx - eu(p, pol, 0) < 1e-7 * max(1, abs(mx)) for pol in all_pols(p, decs(p))):
                    need(len(got) == n, f"optimal_policies: {len(got)}, maximisers {n}")
        # best response of one decision to the present policies of the others
        d = pick[0]
        full = dict(p["pols"])
        for x in decs(p):
            if x not in full and x != d:
                full[x] = {"parents": sorted(O.parents(G.tup(p["E"]), x)),
                           "rows": [[list(c), [1 / len(p["dom"][x])] * len(p["dom"][x])] for c in itertools.product(*[p["dom"][q] for q in sorted(O.parents(G.tup(p["E"]), x))])]}
        h = G.build(p)
        G.param(h, p, policies=full)
        us = [u for u in dict(map(tuple, p["util"])).get(a, []) if u in O.descendants(G.tup(p["E"]), d)]
        uni = {"parents": sorted(O.parents(G.tup(p["E"]), d))}
        uni["rows"] = [[list(c), [1 / len(p["dom"][d])] * len(p["dom"][d])] for c in itertools.product(*[p["dom"][q] for q in uni["parents"]])]
        net = G.Net(p, dict(full, **{d: uni}))
        zero = [c for c, _ in uni["rows"] if net.cond([], dict(zip(uni["parents"], c)))[1] <= 1e-12]
        if not zero:
            h.impute_optimal_decision(d)
            got = rule_rows(h.get_cpds(d), p, d)
            for c, o in got.items():
                val = {x: sum(net.ev(u, dict(zip(uni["parents"], c), **{d: x})) for u in us) for x in p["dom"][d]}
                need(close(val[o], max(val.values())), f"impute_optimal_decision({d}) chooses {o} in {dict(zip(uni['parents'], c))}, values {val}")
            after = G.snapshot(h)
            b2 = G.build(p)
            G.param(b2, p, policies=full)
            bb = G.snapshot(b2)
            for x in p["V"]:
                if x != d:
                    need(after["tables"][x] == bb["tables"][x], f"impute_optimal_decision({d}) changed {x}")


def positive_contexts(p):
    """every combination of parent outcomes of every decision has positive probability when decisions are random"""
    net = G.Net(p)
    for d in decs(p):
        ps = sorted(O.parents(G.tup(p["E"]), d))
        for c in itertools.product(*[p["dom"][q] for q in ps]):
            if net.cond([], dict(zip(ps, c)))[1] <= 1e-12:
                return False
    return True


def cpd_table(cpd, p, d):
    ps = sorted(O.parents(G.tup(p["E"]), d))
    vs = list(cpd.variables)
    need(vs[0] == d and sorted(vs[1:]) == ps, f"policy of {d} is over {vs}")
    rows = []
    for c in itertools.product(*[p["dom"][q] for q in ps]):
        idx = tuple(list(cpd.state_names.get(x, p["dom"][x])).index(dict(zip(ps, c))[x]) for x in vs[1:])
        w = [float(cpd.values[(list(cpd.state_names[d]).index(o),) + idx]) for o in p["dom"][d]]
        need(close(sum(w), 1, 1e-4), f"policy of {d} in {c} is {w}")
        rows.append([list(c), w])
    return {"parents": ps, "rows": rows}
