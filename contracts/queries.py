"""Contracts of interventions and queries (C13)."""
import z3
from pyvc import lib as L
from pyvc.logic import *
from pyvc.values import *
from pyvc.lib import CellModel
from pyvc.verify import *
from pyvc.world import *
from pyvc.lib import cpdOf, cpdNone, isDD, mec_axiom
from .copying import network
from .core import mec_edges, mecname, has_mec_node
from .optimal import domOf

outs = z3.Function("outcomes", U, SET)          # the outcomes in a domain
relMap = z3.Function("distribution", SET, MAP, U)   # the relationship given by a dictionary outcome -> probability
congruent(relMap, {1: 0})
ZERO, ONE = (lambda: intatom(z3.IntVal(0))), (lambda: intatom(z3.IntVal(1)))


def domain_iter(eng, v, st):
    b = binder(U, "b")
    return Coll([Branch([b], mem(outs(v.t), b), Atom(b))], "list", nodup=True)


def store_map(eng, v, st):
    c = st.heap[v.id]
    return Obj(relMap(c.keys, c.m), "rel")


L.EXTRA["iter:domain"] = domain_iter
L.EXTRA["store:CellMap"] = store_map


def fixed(w, x, m):
    """the relationship that fixes x at the outcome m(x)"""
    return relMap(defset(lambda o: Or(mem(outs(domOf(app(w.MR, x))), o), o == app(m, x)), "K"), defmap(lambda o: z3.If(o == app(m, x), ONE(), ZERO()), "M"))


def intervened(w, keys, m):
    E = defrel(lambda a, b: And(edge(w.E, a, b), Not(mem(keys, b))), "E")
    M = defmap(lambda x: z3.If(mem(keys, x), fixed(w, x, m), app(w.MR, x)), "M")
    return E, M


def itv_spec(eng, st, env):
    w = W(eng, st, env["self"])
    d = st.heap[env["intervention"].id]
    E, M = intervened(w, d.keys, d.m)

    def make(s):
        s.set(env["self"], w.c.but(E=E))
        s.set(w.c.fields["model"], CellModel(w.MK, M, fresh(X, "tab")))
        return NoneV()
    return [ret(make)]


def itv_post(eng, entry, st, env, v):
    w, a = W(eng, entry, env["self"]), W(eng, st, env["self"])
    d = entry.heap[env["intervention"].id]
    E, M = intervened(w, d.keys, d.m)
    x, y = binder(U, "x"), binder(U, "y")
    return [("nodes unchanged", ForAll([x], mem(a.N, x) == mem(w.N, x))),
            ("exactly the edges into intervened variables are removed", ForAll([x, y], edge(a.E, x, y) == edge(E, x, y))),
            ("the same variables are specified", ForAll([x], mem(a.MK, x) == mem(w.MK, x))),
            ("the distributions of other variables are unchanged", ForAll([x], Imp(And(mem(w.MK, x), Not(mem(d.keys, x))), app(a.MR, x) == app(w.MR, x)))),
            ("intervened variables have the given outcome", ForAll([x], Imp(mem(d.keys, x), app(a.MR, x) == app(M, x)))),
            ("returns None", z3.BoolVal(isinstance(v, NoneV))),
            ("the intervention is unchanged", eng.cell_eq(st.cell(env["intervention"]), d, st, entry))] + \
        [(f"{k} unchanged", eng.eq(a.c.fields[k], w.c.fields[k], st, entry)) for k in w.c.fields if k != "model"]


def itv_req(eng, st, env):
    w = W(eng, st, env["self"])
    d = st.heap[env["intervention"].id]
    x = binder(U, "x")
    return [("intervened variables are specified", z3.ForAll([x], z3.Implies(mem(d.keys, x), And(mem(w.MK, x), mem(w.N, x))), patterns=[mem(d.keys, x)]))]


def itv_scen(cls):
    def build(eng, st):
        return network(eng, st, cls), [st.alloc(CellMap(z3.Const("doK", SET), z3.Const("doM", MAP)))], {}
    return build


# ------------------------------------------------------------------ queries
NET = [SET, REL, SET, MAP]                      # nodes, edges, specified variables, relationships
Fac = z3.Function("Fac", *NET, SET, MAP, SET, X)        # the conditional distribution of variables given a context
FacOK = z3.Function("FacDefined", *NET, SET, MAP, SET, B)
ModelOK = z3.Function("ModelOK", *NET, B)       # every variable has a table that fits its parents
congruent(Fac, {3: 2, 5: 4})
congruent(FacOK, {3: 2, 5: 4})
congruent(ModelOK, {3: 2})


def sym(E):
    return defrel(lambda a, b: Or(edge(E, a, b), edge(E, b, a)), "Sym")


def joined(E, x, y):
    """x and y are connected by edges, whatever their directions"""
    return Or(x == y, RT(sym(E), x, y))


def c_component(eng, fv, args, kw, st):
    if not (isinstance(args[0], Lib) and args[0].name == "undirected"):
        return None
    N, E = args[0].data
    b = binder(U, "b")
    return [(s, r or s.alloc(CellColl("set", Coll([Branch([b], And(mem(N, b), joined(E, args[1].t, b)), Atom(b))], "set", nodup=True))))
            for s, r in eng.guarded(st, mem(N, args[1].t), "KeyError")]


def all_joined(N, E):
    x, y = binder(U, "x"), binder(U, "y")
    return ForAll([x, y], Imp(And(mem(N, x), mem(N, y)), joined(E, x, y)))


def c_connected(eng, fv, args, kw, st):
    N, E = args[0].data
    x = binder(U, "x")
    return [(s, r or BoolV(all_joined(N, E))) for s, r in eng.guarded(st, Exists([x], mem(N, x)), "NetworkXPointlessConcept")]


def c_remove_node(eng, fv, args, kw, st):
    """a node is removed with its edges and its relationship"""
    ref = fv.selfv
    c = st.heap[ref.id]
    n = args[0].t
    out = []
    for s, r in eng.guarded(st, mem(c.nodes, n), "NetworkXError"):
        if not r:
            N, E = c.nodes, c.E
            s.set(ref, c.but(nodes=defset(lambda x: And(mem(N, x), x != n), "N"), E=defrel(lambda a, b: And(edge(E, a, b), a != n, b != n), "E")))
            m = s.heap[c.fields["model"].id]
            s.set(c.fields["model"], CellModel(defset(lambda x: And(mem(m.keys, x), x != n), "K"), m.m, fresh(X, "tab")))
        out.append((s, r or NoneV()))
    return out


def c_check_model(eng, fv, args, kw, st):
    w = W(eng, st, fv.selfv)
    return [(s, r or BoolV(TRUE)) for s, r in eng.guarded(st, ModelOK(w.N, w.E, w.MK, w.MR), "ValueError")]


L.EXTRA["in:domain"] = lambda eng, v, c, st: mem(outs(c.t), v.t)
L.EXTRA[".to_undirected"] = lambda eng, fv, args, kw, st: [(st, Lib("undirected", None, (st.heap[fv.selfv.id].nodes, st.heap[fv.selfv.id].E)))]
L.EXTRA["networkx.node_connected_component"] = c_component
L.EXTRA["networkx.is_connected"] = c_connected
L.EXTRA[".remove_node"] = c_remove_node
L.EXTRA[".check_model"] = c_check_model


def given(eng, st, v):
    """keys and values of a dictionary (None: empty)"""
    if isinstance(v, NoneV):
        return defset(lambda x: FALSE, "K"), z3.Const("emptymap", MAP)
    c = st.heap[v.id]
    if isinstance(c, CellLitDict) and not c.items or isinstance(c, CellAbsDict) and not c.coll.branches:
        return defset(lambda x: FALSE, "K"), z3.Const("emptymap", MAP)
    return c.keys, c.m


def none(eng, st, v):
    return isinstance(v, NoneV) or isinstance(st.heap[v.id], (CellLitDict, CellAbsDict))


def component(w, itv, S, unchanged=False):
    """the network made from the intervened one by keeping what is connected to the queried variables"""
    E, M = (w.E, w.MR) if unchanged else intervened(w, *itv)
    q = binder(U, "q")
    N2 = defset(lambda x: And(mem(w.N, x), Exists([q], And(mem(S, q), joined(E, q, x)))), "N")
    return (N2, defrel(lambda a, b: And(edge(E, a, b), mem(N2, a), mem(N2, b)), "E"), defset(lambda x: And(mem(w.MK, x), Or(mem(N2, x), Not(mem(w.N, x)))), "K"), M)


def query_spec(eng, st, env):
    w = W(eng, st, env["self"])
    ctx, itv = given(eng, st, env["context"]), given(eng, st, env["intervention"])
    S = eng.setterm(env["query"], st)
    x, y = binder(U, "x"), binder(U, "y")
    unknown = Exists([x], And(mem(ctx[0], x), Not(mem(w.MK, x))))
    outside = Exists([x], And(mem(ctx[0], x), Not(mem(outs(domOf(app(w.MR, x))), app(ctx[1], x)))))
    valid = And(Not(unknown), Not(outside))
    some_itv = Exists([y], mem(itv[0], y))
    out = [raises("KeyError", unknown), raises("ValueError", outside)]
    for case, plain in ((Not(some_itv), True), (some_itv, False)):      # without an intervention the network is as it is
        if none(eng, st, env["intervention"]):
            if not plain:
                continue
            case = TRUE
        n = component(w, itv, S, plain)
        c2 = (defset(lambda x: And(mem(ctx[0], x), mem(n[0], x)), "K"), ctx[1])
        conn, model, defined = all_joined(n[0], n[1]), ModelOK(*n), FacOK(*n, *c2, S)
        out += [ret(lambda s, n=n, c2=c2: Obj(Fac(*n, *c2, S), "factor"), And(case, valid, conn, model, defined)),
                raises("ValueError", And(case, valid, Not(And(conn, model)))), raises("Exception", And(case, valid, conn, model, Not(defined)))]
    return out


def macid_query_spec(eng, st, env):
    """as for networks, except that an answer which depends on a decision without a policy is an error"""
    w = W(eng, st, env["self"])
    ctx, itv = given(eng, st, env["context"]), given(eng, st, env["intervention"])
    S = eng.setterm(env["query"], st)
    x, d, q = binder(U, "x"), binder(U, "d"), binder(U, "q")
    unknown = Exists([x], And(mem(ctx[0], x), Not(mem(w.MK, x))))
    outside = Exists([x], And(mem(ctx[0], x), Not(mem(outs(domOf(app(w.MR, x))), app(ctx[1], x)))))
    unnamed = has_mec_node(w)
    M = mec_edges(w)
    some_itv = FALSE if none(eng, st, env["intervention"]) else Exists([q], mem(itv[0], q))
    E = defrel(lambda a, b: And(edge(M, a, b), Not(And(mem(itv[0], b), edge(w.E, a, b)))), "Emec")
    seen = defset(lambda x: Or(mem(ctx[0], x), mem(itv[0], x)), "S")
    cpd = cpdOf(w.TAB, d)
    opened = lambda E, seen: Exists([d, q], And(mem(w.KD, d), mem(S, q), DConn(E, mecname(d), q, seen), Or(cpdNone(cpd), isDD(cpd))))
    open_ = Or(And(some_itv, opened(E, seen)), And(Not(some_itv), opened(M, ctx[0])))
    bad = Or(unknown, outside, unnamed, open_)
    first = And(Not(unknown), Not(outside), Not(unnamed))
    out = [raises("KeyError", unknown), raises("ValueError", outside), raises("ValueError", And(Not(unknown), Not(outside), unnamed)), raises("ValueError", And(first, open_))]
    for o in query_spec(eng, st, env):
        o.guard = And(Not(bad), o.guard)
        out.append(o)
    return out


def query_req(eng, st, env):
    w = W(eng, st, env["self"])
    ctx, itv = given(eng, st, env["context"]), given(eng, st, env["intervention"])
    S = eng.setterm(env["query"], st)
    x = binder(U, "x")
    return [("something is queried", z3.Exists([x], mem(S, x))), ("queried variables are nodes", z3.ForAll([x], z3.Implies(mem(S, x), mem(w.N, x)), patterns=[mem(S, x)])),
            ("intervened variables are specified", z3.ForAll([x], z3.Implies(mem(itv[0], x), z3.And(mem(w.MK, x), mem(w.N, x))), patterns=[mem(itv[0], x)]))]


def macid_query_req(eng, st, env):
    w = W(eng, st, env["self"])
    ctx = given(eng, st, env["context"])
    x = binder(U, "x")
    return query_req(eng, st, env) + [("relationships belong to nodes", z3.ForAll([x], z3.Implies(z3.And(mem(ctx[0], x), mem(w.MK, x)), mem(w.N, x)), patterns=[mem(ctx[0], x)]))]


def eliminate_spec(eng, st, env):
    """assumed: the factor is the conditional distribution of the variables given the context, in this network"""
    w = W(eng, st, env["self"])
    S = eng.setterm(env["query"], st)
    a = (w.N, w.E, w.MK, w.MR, *given(eng, st, env["context"]), S)
    return [ret(lambda s: Obj(Fac(*a), "factor"), FacOK(*a)), raises("Exception", Not(FacOK(*a)))]


def query_scen(cls, itv):
    def build(eng, st):
        m = network(eng, st, cls)
        d = lambda n: st.alloc(CellMap(z3.Const(n + "K", SET), z3.Const(n + "M", MAP)))
        if cls != "CausalBayesianNetwork":
            st.assume(mec_axiom())
        q = st.alloc(CellColl("list", setcoll(z3.Const("query0", SET), "list")))
        return m, [q, d("ctx")], {"intervention": d("do")} if itv else {}
    return build


def register(reg):
    reg.add(Contract("CausalBayesianNetwork._eliminate", eliminate_spec, []))
    reg.add(Contract("CausalBayesianNetwork.query#network", query_spec, [Scenario("intervention", query_scen("CausalBayesianNetwork", True)), Scenario("no intervention", query_scen("CausalBayesianNetwork", False))], query_req), "C13")
    reg.add(Contract("MACIDBase.query#network", macid_query_spec, [Scenario("intervention", query_scen("MACIDBase", True)), Scenario("no intervention", query_scen("MACIDBase", False))], macid_query_req), "C13")
    reg.add(Contract("CausalBayesianNetwork.intervene", itv_spec, [Scenario(f"a {c}", itv_scen(c)) for c in ("CausalBayesianNetwork", "MACIDBase")], itv_req, post=itv_post, frame=False), "C13")
