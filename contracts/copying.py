"""Contracts of copying and of edge changes on networks with distributions (C02; used by the analyses)."""
import z3
from pyvc.logic import *
from pyvc.values import *
from pyvc.lib import CellModel, CellPath, isCC, cpdOf
from pyvc.verify import *
from pyvc.world import *


def network(eng, st, cls, acyclic=True):
    """an arbitrary network of the given class"""
    k = eng.repo.classes[cls] if isinstance(cls, str) else cls
    if eng.repo.is_subclass(k, "MACIDBase"):
        return macid(eng, st, k, acyclic=acyclic)
    c = z3.Const
    ref = st.alloc(CellGraph(k, c("N", SET), c("E", REL), {"model": st.alloc(CellModel(c("MK", SET), c("MR", MAP), c("TAB", X)))}))
    x, y = binder(U, "x"), binder(U, "y")
    g = st.heap[ref.id]
    st.assume(z3.ForAll([x, y], z3.Implies(edge(g.E, x, y), z3.And(mem(g.nodes, x), mem(g.nodes, y))), patterns=[edge(g.E, x, y)]))
    st.assume(Acyc(g.E))
    st.assume(z3.ForAll([x], z3.Not(edge(g.E, x, x)), patterns=[edge(g.E, x, x)]))
    return ref


def copy_class(eng, cls):
    """the class of a copy: the network class of which the given class is a specialisation"""
    for n in ("CID", "MACID", "MACIDBase"):
        if eng.repo.is_subclass(cls, n):
            return eng.repo.classes[n]
    return eng.repo.classes["CausalBayesianNetwork"]


def clone(eng, s, ref, model):
    """a new network with the nodes, edges and roles of ref"""
    c = s.heap[ref.id]
    f = {}
    if "agent_decisions" in c.fields:
        w = W(eng, s, ref)
        rd, ru = s.alloc(CellRegion(w.BD)), s.alloc(CellRegion(w.BU))
        f = {"agent_decisions": s.alloc(CellBag(w.AKD, rd.id)), "agent_utilities": s.alloc(CellBag(w.AKU, ru.id)),
             "decision_agent": s.alloc(CellMap(w.KD, w.DA)), "utility_agent": s.alloc(CellMap(w.KU, w.UA))}
    f["model"] = s.alloc(model(s.heap[c.fields["model"].id]))
    return s.alloc(CellGraph(copy_class(eng, c.cls), c.nodes, c.E, f))


def empty_model(_):
    return CellModel(defset(lambda x: FALSE, "K"), z3.Const("emptymap", MAP), z3.Const("notables", X))


def same_model(m):
    return CellModel(m.keys, m.m, fresh(X, "tab"))


def copy_spec(model):
    def spec(eng, st, env):
        return [ret(lambda s: clone(eng, s, env["self"], model))]
    return spec


def reachable(st, ref, acc=None):
    acc = acc if acc is not None else set()
    if not isinstance(ref, Ref) or ref.id in acc:
        return acc
    acc.add(ref.id)
    c = st.heap[ref.id]
    for v in (c.fields.values() if isinstance(c, (CellGraph, CellObj)) else [v for kv in c.items for v in kv] if isinstance(c, CellLitDict) else []):
        reachable(st, v, acc)
    if isinstance(c, CellBag):
        acc.add(c.region)
    if isinstance(c, CellLitDict) or isinstance(c, CellColl) and isinstance(c.content, Tup):
        for v in (c.content.items if isinstance(c, CellColl) else []):
            reachable(st, v, acc)
    return acc


def copy_post(model):
    def post(eng, entry, st, env, v):
        if not isinstance(v, Ref) or not isinstance(st.heap[v.id], CellGraph):
            return [("result is a network", FALSE)]
        s2 = entry.clone()
        want = clone(eng, s2, env["self"], model)
        a, b = st.heap[v.id], s2.heap[want.id]
        x, y = binder(U, "x"), binder(U, "y")
        out = [("same kind of network", z3.BoolVal(a.cls is b.cls)),
               ("same nodes", ForAll([x], mem(a.nodes, x) == mem(b.nodes, x))),
               ("same edges", ForAll([x, y], edge(a.E, x, y) == edge(b.E, x, y))),
               ("shares no mutable object with the original", z3.BoolVal(not (reachable(st, v) & set(entry.heap)))),
               ("has the same attributes", z3.BoolVal(set(a.fields) == set(b.fields)))]
        for k in sorted(set(a.fields) & set(b.fields) - {"model"}):
            out.append((f"same {k}", eng.eq(a.fields[k], b.fields[k], st, s2)))
        if "model" in a.fields:
            m, n = st.heap[a.fields["model"].id], s2.heap[b.fields["model"].id]
            out.append(("same specified variables", ForAll([x], mem(m.keys, x) == mem(n.keys, x)) if isinstance(m, CellModel) else FALSE))
            if isinstance(m, CellModel):
                out.append(("same relationships", ForAll([x], Imp(mem(n.keys, x), app(m.m, x) == app(n.m, x)))))
        return out
    return post


def cls_scen(eng, st, cls):
    return network(eng, st, cls or "CausalBayesianNetwork"), [], {}


def as_class(name):
    return lambda eng, st: (network(eng, st, name), [], {})


def model_iter(eng, v, st):
    c = st.cell(v)
    b = binder(U, "b")
    return Coll([Branch([b], mem(c.keys, b), Atom(b))], "keys", nodup=True)


# ------------------------------------------------------------------ edges
def edge_spec(add):
    def spec(eng, st, env):
        u, v = env["u"].t, env["v"].t
        c = st.heap[env["self"].id]
        if add:
            ok, exc = And(u != v, Not(And(mem(c.nodes, u), mem(c.nodes, v), RT(c.E, v, u)))), "ValueError"
        else:
            ok, exc = edge(c.E, u, v), "NetworkXError"

        def make(s):
            c = s.heap[env["self"].id]
            E, N = c.E, c.nodes
            if add:
                E2 = defrel(lambda a, b: Or(edge(E, a, b), And(a == u, b == v)), "E")
                N2 = defset(lambda a: Or(mem(N, a), a == u, a == v), "N")
            else:
                E2, N2 = defrel(lambda a, b: And(edge(E, a, b), Not(And(a == u, b == v))), "E"), N
            s.set(env["self"], c.but(nodes=N2, E=E2))
            m = s.heap[c.fields["model"].id]
            if not eng.must(s, Not(mem(m.keys, v))):     # tables of variables without a relationship stay as they are
                s.set(c.fields["model"], CellModel(m.keys, m.m, fresh(X, "tab")))
            return NoneV()
        return [ret(make, ok), raises(exc, Not(ok))]
    return spec


def edge_post(add):
    spec = edge_spec(add)

    def post(eng, entry, st, env, v):
        s2 = entry.clone()
        outs = [o for o in spec(eng, s2, env) if o.exc is None]
        outs[0].make(s2)
        a, b = st.heap[env["self"].id], s2.heap[env["self"].id]
        x, y = binder(U, "x"), binder(U, "y")
        out = [("nodes", ForAll([x], mem(a.nodes, x) == mem(b.nodes, x))), ("edges", ForAll([x, y], edge(a.E, x, y) == edge(b.E, x, y))),
               ("returns None", z3.BoolVal(isinstance(v, NoneV)))]
        for k in b.fields:
            if k != "model":
                out.append((f"{k} unchanged", eng.eq(a.fields[k], entry.heap[env["self"].id].fields[k], st, entry)))
        m, n = st.heap[a.fields["model"].id], s2.heap[b.fields["model"].id]
        out.append(("specified variables unchanged", ForAll([x], mem(m.keys, x) == mem(n.keys, x))))
        out.append(("tables unchanged where there is no relationship", Or(mem(n.keys, env["v"].t), m.tabs == entry.heap[b.fields["model"].id].tabs)))
        out.append(("relationships unchanged", ForAll([x], Imp(mem(n.keys, x), app(m.m, x) == app(n.m, x)))))
        return out
    return post


def edge_scen(eng, st, cls):
    return network(eng, st, cls or "CausalBayesianNetwork"), [Atom(uconst("u0")), Atom(uconst("v0"))], {}


def register(reg):
    base = "CausalBayesianNetwork"
    fr = dict(frame=True)
    scens = [Scenario(f"a {n}", as_class(n)) for n in (base, "MACIDBase", "CID", "MACID")]
    reg.add(Contract(base + ".copy_without_cpds", copy_spec(empty_model), [Scenario("any network", cls_scen)], post=copy_post(empty_model)), "C02")
    reg.add(Contract(base + ".copy", copy_spec(same_model), scens, post=copy_post(same_model)), "C02")
    reg.add(Contract(base + ".add_edge", edge_spec(True), [Scenario("any network", edge_scen), Scenario("a MACIDBase", lambda eng, st: edge_scen(eng, st, "MACIDBase"))], post=edge_post(True), frame=False), "C02")
    reg.add(Contract(base + ".remove_edge", edge_spec(False), [Scenario("any network", edge_scen), Scenario("a MACIDBase", lambda eng, st: edge_scen(eng, st, "MACIDBase"))], post=edge_post(False), frame=False), "C02")
    reg.assume("C02 C08 C09 C10 C22", "Model.__setitem__ (assumed contract): storing a relationship registers it, recomputes tables and domains and changes neither nodes, edges, roles nor other relationships; it does not raise when a stored relationship is stored again or copied")
