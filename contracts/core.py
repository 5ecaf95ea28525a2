"""Contracts of the diagram classes: mechanism graph, reachability, relevance graph, recall, orders."""
import z3
from pyvc.logic import *
from pyvc.values import *
from pyvc.lib import CellModel, CellPath, cpdOf, cpdNone, isDD, isCC, mec_axiom, last3, topo_order
from pyvc.verify import *
from pyvc.world import *

MEC = strconst("mec")


def ghost_model(eng, st, args, kw):
    """Model(cbn): an empty table of relationships"""
    yield st, st.alloc(CellModel(defset(lambda x: FALSE, "K"), z3.Const("emptymap", MAP), z3.Const("notables", X)))


class ModelContract:
    modular, key = True, "Model"

    def apply(self, eng, st, args, kw):
        yield from ghost_model(eng, st, args, kw)


# ------------------------------------------------------------------ mechanism graph
def mecname(x):
    return cat(x, MEC)


def has_mec_node(w):
    x = binder(U, "x")
    return z3.Exists([x], z3.And(w.node(x), last3(x) == MEC))


def mec_edges(w):
    return defrel(lambda a, b: Or(edge(w.E, a, b), And(mem(w.N, b), a == mecname(b))), "Emec")


def mec_nodes(w):
    z = binder(U, "z")
    return defset(lambda a: Or(mem(w.N, a), Exists([z], And(mem(w.N, z), a == mecname(z)))), "Nmec")


def mg_spec(eng, st, env):
    w = W(eng, st, env["cid"])

    def make(s):
        rd, ru = s.alloc(CellRegion(w.BD)), s.alloc(CellRegion(w.BU))
        f = {"agent_decisions": s.alloc(CellBag(w.AKD, rd.id)), "agent_utilities": s.alloc(CellBag(w.AKU, ru.id)),
             "decision_agent": s.alloc(CellMap(w.KD, w.DA)), "utility_agent": s.alloc(CellMap(w.KU, w.UA))}
        for s1, m in ghost_model(eng, s, [], {}):
            f["model"] = m
        s.set(env["self"], CellGraph(s.heap[env["self"].id].cls, mec_nodes(w), mec_edges(w), f))
        return NoneV()
    return [ret(make, Not(has_mec_node(w))), raises("ValueError", has_mec_node(w))]


def mg_scen(eng, st):
    st.assume(mec_axiom())
    m = macid(eng, st)
    cls = eng.repo.classes["MechanismGraph"]
    return eng.lib.newobj(eng, cls, st), [m], {}


# ------------------------------------------------------------------ reachability
def Fa(w, d):
    return defset(lambda x: Or(x == d, edge(w.E, x, d)), "Fa")


def own_util(w, d, u):
    """u is a utility node of the agent owning decision d"""
    return And(mem(w.KU, u), app(w.UA, u) == app(w.DA, d))


def rr(w, d, v):
    """v is r-reachable from d"""
    u = binder(U, "u")
    return Exists([u], And(own_util(w, d, u), RT(w.E, d, u), u != d, DConn(mec_edges(w), mecname(v), u, Fa(w, d))))


def owned(w, d):
    """d is a decision whose owner is one of the agents"""
    return And(mem(w.KD, d), mem(w.AKU, app(w.DA, d)))


def as_set(eng, v, st):
    """the atoms denoted by a str-or-iterable argument"""
    return (lambda x: x == v.t) if isinstance(v, Atom) else (lambda x: eng.member(Atom(x), eng.iterable(v, st), st))


def allin(eng, v, st, pred):
    if isinstance(v, Atom):
        return pred(v.t)
    return And(*[ForAll(vs, Imp(g, pred(e.t))) for vs, g, e in eng.coll(v, st).inst()])


def some(eng, v, st, pred):
    if isinstance(v, Atom):
        return pred(v.t)
    return Or(*[Exists(vs, And(g, pred(e.t))) for vs, g, e in eng.coll(v, st).inst()])


def rr_spec(eng, st, env):
    w = W(eng, st, env["self"])
    f = some(eng, env["decisions"], st, lambda d: some(eng, env["nodes"], st, lambda v: rr(w, d, v)))
    return [ret(bool_(f)), raises("ValueError", has_mec_node(w))]


def rr_req(eng, st, env):
    w = W(eng, st, env["self"])
    return [("decisions are decisions of an agent", allin(eng, env["decisions"], st, lambda d: owned(w, d))),
            ("nodes are nodes", allin(eng, env["nodes"], st, lambda v: w.node(v)))]


def two(sa, sb, acyclic=True):
    """self, then two arguments: 's' a label, 'c' a collection"""
    def build(eng, st, cls):
        st.assume(mec_axiom())
        m = macid(eng, st, cls or "MACIDBase", acyclic=acyclic)
        arg = lambda k, n: Atom(uconst(n)) if k == "s" else st.alloc(CellColl("set", setcoll(z3.Const(n.upper(), SET))))
        return m, [arg(sa, "d0"), arg(sb, "v0")], {}
    return build


def sr_spec(eng, st, env):
    w = W(eng, st, env["self"])
    d2 = env["d2"]
    isd = mem(w.KD, d2.t)
    f = some(eng, env["d1"], st, lambda d: rr(w, d, d2.t))
    return [ret(bool_(f), isd), raises("ValueError", has_mec_node(w)), raises("AssertionError", Not(isd))]


def sr_req(eng, st, env):
    w = W(eng, st, env["self"])
    return [("d1 are decisions of an agent", allin(eng, env["d1"], st, lambda d: owned(w, d)))]


# ------------------------------------------------------------------ relevance graph
def rel_edges(w, ds):
    return defrel(lambda a, b: And(mem(ds, a), mem(ds, b), a != b, rr(w, a, b)), "Erel")


def rg_spec(eng, st, env):
    w = W(eng, st, env["cid"])
    d = env["decisions"]
    ds = w.KD if isinstance(d, NoneV) else eng.setterm(d, st)

    def make(s):
        s.set(env["self"], CellGraph(s.heap[env["self"].id].cls, ds, rel_edges(w, ds), {}))
        return NoneV()
    return [ret(make), raises("ValueError", has_mec_node(w))]


def rg_req(eng, st, env):
    w = W(eng, st, env["cid"])
    d = env["decisions"]
    x = binder(U, "x")
    ds = w.KD if isinstance(d, NoneV) else None
    if ds is not None:
        return [("every decision belongs to an agent", ForAll([x], Imp(mem(ds, x), owned(w, x))))]
    return [("decisions are decisions of an agent", allin(eng, d, st, lambda x: owned(w, x)))]


def rg_scen(kind):
    def build(eng, st):
        st.assume(mec_axiom())
        m = macid(eng, st)
        s = eng.lib.newobj(eng, eng.repo.classes["RelevanceGraph"], st)
        D = z3.Const("D0", SET)
        args = {"none": [], "set": [st.alloc(CellColl("set", setcoll(D)))] if kind == "set" else [],
                "list": [st.alloc(CellColl("list", setcoll(D, "list")))] if kind == "list" else []}[kind]
        return s, [m] + args, {}
    return build


def acyclic_spec(eng, st, env):
    return [ret(bool_(Acyc(st.heap[env["self"].id].E)))]


def rg_obj(eng, st):
    return st.alloc(CellGraph(eng.repo.classes["RelevanceGraph"], z3.Const("N", SET), z3.Const("E", REL), {})), [], {}


# ------------------------------------------------------------------ recall
def own_decs(w, a):
    return defset(lambda x: And(mem(w.KD, x), app(w.DA, x) == a, mem(w.AKD, a)), "Ds")


def recall(w, a):
    return Acyc(rel_edges(w, own_decs(w, a)))


def recall_spec(eng, st, env):
    w = W(eng, st, env["self"])
    a = env["agent"]
    if isinstance(a, NoneV):
        b = binder(U, "b")
        return [ret(bool_(ForAll([b], Imp(mem(w.AKU, b), recall(w, b))))), raises("ValueError", has_mec_node(w))]
    ok = mem(w.AKU, a.t)
    return [ret(bool_(recall(w, a.t)), ok), raises("ValueError", Or(Not(ok), has_mec_node(w)))]


def recall_req(eng, st, env):
    w = W(eng, st, env["self"])
    x = binder(U, "x")
    return [("every decision belongs to an agent", ForAll([x], Imp(mem(w.KD, x), owned(w, x))))]


def recall_scen(agent):
    def build(eng, st, cls):
        st.assume(mec_axiom())
        m = macid(eng, st, cls or "MACIDBase")
        return m, ([Atom(uconst("agent0"))] if agent else []), {}
    return build


# ------------------------------------------------------------------ orders
def order_set(eng, st, env):
    w = W(eng, st, env["self"])
    return w.KD if isinstance(env["nodes"], NoneV) else eng.setterm(env["nodes"], st)


def order_spec(eng, st, env):
    w = W(eng, st, env["self"])
    S = order_set(eng, st, env)
    x = binder(U, "x")
    bad = Not(ForAll([x], Imp(mem(S, x), w.node(x))))

    def make(s):
        t = fresh(P, "order")
        for _, f in order_facts(w, S, t):
            s.assume(f)
        return PathV(t)
    return [ret(make, And(Acyc(w.E), Not(bad))), raises("ValueError", Not(Acyc(w.E))), raises("KeyError", bad)]


def order_facts(w, S, t):
    i, j = binder(I, "i"), binder(I, "j")
    x = binder(U, "x")
    return [("lists only the nodes asked for", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < plen(t)), z3.And(mem(S, at(t, i)))), patterns=[at(t, i)])),
            ("lists all of them", z3.ForAll([x], z3.Implies(mem(S, x), z3.And(0 <= idx(t, x), idx(t, x) < plen(t), at(t, idx(t, x)) == x)), patterns=[mem(S, x)])),
            ("lists none twice", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < plen(t)), at(t, i) != at(t, j)), patterns=[z3.MultiPattern(at(t, i), at(t, j))])),
            ("ancestors come first", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < plen(t)), z3.Not(RT(w.E, at(t, j), at(t, i)))), patterns=[z3.MultiPattern(at(t, i), at(t, j))]))]


def order_post(eng, entry, st, env, v):
    if not isinstance(v, PathV):
        raise Unsupported("result is not an ordered list")
    w = W(eng, entry, env["self"])
    return order_facts(w, order_set(eng, entry, env), v.t)


def order_scen(kind):
    def build(eng, st, cls):
        m = macid(eng, st, cls or "MACIDBase", acyclic=False)
        return m, ([] if kind == "none" else [st.alloc(CellColl(kind, setcoll(z3.Const("S0", SET), kind)))]), {}
    return build


def register(reg):
    reg.contracts["MACIDBase.Model"] = reg.contracts["CausalBayesianNetwork.Model"] = ModelContract()
    c = reg.add(Contract("MechanismGraph.__init__", mg_spec, [Scenario("any diagram", mg_scen)]), "C03")
    reg.contracts["MechanismGraph"] = ClassContract("MechanismGraph", c, lambda eng, cls, st: eng.lib.newobj(eng, cls, st))
    reg.add(Contract("MACIDBase.is_r_reachable", rr_spec, [Scenario("label, label", two("s", "s")), Scenario("collection, collection", two("c", "c")),
                     Scenario("label, collection", two("s", "c")), Scenario("collection, label", two("c", "s"))], rr_req), "C03")
    reg.add(Contract("MACIDBase.is_s_reachable", sr_spec, [Scenario("label, label", two("s", "s")), Scenario("collection, label", two("c", "s"))], sr_req), "C03")
    c = reg.add(Contract("RelevanceGraph.__init__", rg_spec, [Scenario("all decisions", rg_scen("none")), Scenario("a set", rg_scen("set")), Scenario("a list", rg_scen("list"))], rg_req), "C03")
    reg.contracts["RelevanceGraph"] = ClassContract("RelevanceGraph", c, lambda eng, cls, st: eng.lib.newobj(eng, cls, st))
    reg.add(Contract("RelevanceGraph.is_acyclic", acyclic_spec, [Scenario("any", rg_obj)]), "C04")
    reg.add(Contract("MACIDBase.sufficient_recall", recall_spec, [Scenario("all agents", recall_scen(False)), Scenario("one agent", recall_scen(True))], recall_req), "C04")
    reg.add(Contract("MACIDBase.get_valid_order", order_spec, [Scenario("decisions", order_scen("none")), Scenario("a set", order_scen("set")), Scenario("a list", order_scen("list"))], post=order_post), "C04")
