"""Contracts for the components of the relevance graph and the subgames."""
import z3
from pyvc.logic import *
from pyvc.values import *
from pyvc.lib import CompOf, Quot
from pyvc.verify import *
from pyvc.world import *
from .core import has_mec_node, rel_edges, rg_req, rg_obj, mec_axiom, owned


def same(E, x, y):
    """in one component"""
    return Or(x == y, And(RT(E, x, y), RT(E, y, x)))


def members(eng, st, elem):
    return lambda y: eng.member(Atom(y), eng.coll(elem, st), st)


def components(eng, st, v, N, E, label="component"):
    """the collection of collections v lists the components of the graph (N, E), each once"""
    c = eng.coll(v, st)
    x, y = binder(U, "x"), binder(U, "y")
    out = []
    bs = list(c.inst())
    for vs, g, e in bs:
        m = members(eng, st, e)
        out.append((f"each {label} is a component", ForAll(vs + [x, y], Imp(And(g, m(x)), And(mem(N, x), m(y) == And(mem(N, y), same(E, x, y)))))))
        out.append((f"each {label} has an element", ForAll(vs, Imp(g, Exists([x], m(x))))))
    out.append((f"every node is in a {label}", ForAll([x], Imp(mem(N, x), Or(*[Exists(vs, And(g, members(eng, st, e)(x))) for vs, g, e in bs])))))
    if not c.nodup:
        for vs, g, e in bs:
            for ws, h, f in c.inst():
                if len(ws) == len(vs):
                    out.append((f"no {label} twice", ForAll(vs + ws + [x], Imp(And(g, h, members(eng, st, e)(x), members(eng, st, f)(x)), And(*[p == q for p, q in zip(vs, ws)])))))
        if len(bs) > 1:
            out.append((f"no {label} twice", FALSE))
    return out


def sccs_post(eng, entry, st, env, v):
    c = entry.heap[env["self"].id]
    return components(eng, st, v, c.nodes, c.E)


# ------------------------------------------------------------------ condensation
def comp_obj(eng, st, cls=None):
    """a condensed relevance graph"""
    E, m, N = z3.Const("Erel0", REL), z3.Const("comp0", MAP), z3.Const("D0", SET)
    x = binder(U, "x")
    st.assume(CompOf(E, m))
    mapping = st.alloc(CellMap(N, m))
    attrs = st.alloc(CellLitDict([(Atom(strconst("mapping")), mapping)]))
    return st.alloc(CellGraph(eng.repo.classes["CondensedRelevanceGraph"], defset(lambda i: Exists([x], And(mem(N, x), app(m, x) == i)), "N"), Quot(E, m), {"graph": attrs}))


def mapping_of(eng, st, ref):
    """the mapping kept by a condensed relevance graph"""
    attrs = st.heap[ref.id].fields.get("graph")
    for k, v in st.heap[attrs.id].items if attrs is not None else []:
        if eng.must(st, eng.eq(k, Atom(strconst("mapping")), st)) and isinstance(v, Ref) and isinstance(st.heap[v.id], CellMap):
            return st.heap[v.id]
    raise Unsupported("no mapping of decisions to components")


def con_spec(eng, st, env):
    w = W(eng, st, env["macid"])
    return [ret(lambda s: NoneV()), raises("ValueError", has_mec_node(w))]


def con_scen(eng, st):
    st.assume(mec_axiom())
    m = macid(eng, st)
    return eng.lib.newobj(eng, eng.repo.classes["CondensedRelevanceGraph"], st), [m], {}


def con_req(eng, st, env):
    return rg_req(eng, st, {"cid": env["macid"], "decisions": NoneV()})


def con_post(eng, entry, st, env, v):
    w = W(eng, entry, env["macid"])
    E = rel_edges(w, w.KD)
    c = st.heap[env["self"].id]
    M = mapping_of(eng, st, env["self"])
    x, y, i, j = (binder(U, n) for n in "xyij")
    return [("the mapping covers the decisions", ForAll([x], mem(M.keys, x) == mem(w.KD, x))),
            ("decisions share a number iff they are in one component", z3.ForAll([x, y], Imp(And(mem(w.KD, x), mem(w.KD, y)), (app(M.m, x) == app(M.m, y)) == same(E, x, y)))),
            ("the nodes are the components", ForAll([i], mem(c.nodes, i) == Exists([x], And(mem(w.KD, x), app(M.m, x) == i)))),
            ("the edges are between components", z3.ForAll([i, j], Imp(edge(c.E, i, j), And(i != j, Exists([x, y], And(edge(E, x, y), app(M.m, x) == i, app(M.m, y) == j)))))),
            ("there is an edge wherever components rely on each other", z3.ForAll([x, y], Imp(And(edge(E, x, y), app(M.m, x) != app(M.m, y)), edge(c.E, app(M.m, x), app(M.m, y))))),
            ("the diagram is unchanged", And(*[eng.cell_eq(st.heap[h], entry.heap[h], st, entry) for h in entry.heap if h != env["self"].id and not isinstance(entry.heap[h], CellRegion)]))]


def dec_post(eng, entry, st, env, v):
    M = mapping_of(eng, entry, env["self"])
    if not (isinstance(v, Ref) and isinstance(st.heap[v.id], CellBag)):
        raise Unsupported("result in another form")
    b = st.heap[v.id]
    bag = st.heap[b.region].bag
    x, i = binder(U, "x"), binder(U, "i")
    return [("the keys are the components", ForAll([i], mem(b.keys, i) == Exists([x], And(mem(M.keys, x), app(M.m, x) == i)))),
            ("each lists its decisions, each once", z3.ForAll([i, x], Imp(mem(b.keys, i), cnt(bag, i, x) == z3.If(And(mem(M.keys, x), app(M.m, x) == i), 1, 0))))]


def topo_post(eng, entry, st, env, v):
    E, N = z3.Const("Erel0", REL), z3.Const("D0", SET)
    c = eng.coll(v, st)
    if eng.kind(v, st) != "list" or len(c.branches) != 1 or getattr(c.branches[0], "ordered", None) is None:
        raise Unsupported("result whose order is not known")
    out = components(eng, st, v, N, E, "group")
    (i,), g, e = c.branches[0].inst()
    (j,), h, f = c.branches[0].inst()
    x, y = binder(U, "x"), binder(U, "y")
    out.append(("a group comes before every group it relies on", z3.ForAll([i, j, x, y], Imp(And(g, h, members(eng, st, e)(x), members(eng, st, f)(y), RT(E, x, y), Not(RT(E, y, x)), x != y), i < j))))
    inner = eng.coll(e, st)
    out.append(("a group lists no decision twice", z3.ForAll([i], Imp(g, TRUE if inner.nodup else eng.lib.nodup_formula(eng, inner, st)))))
    return out


# ------------------------------------------------------------------ subgames
def sub_spec(eng, st, env):
    return [ret(lambda s: NoneV()), raises("ValueError", has_mec_node(W(eng, st, env["self"])))]


def sub_req(eng, st, env):
    return rg_req(eng, st, {"cid": env["self"], "decisions": NoneV()})


def sub_scen(eng, st, cls):
    st.assume(mec_axiom())
    return macid(eng, st, "MACID"), [], {}


def sub_post(eng, entry, st, env, v):
    """each non-empty set of decisions that is closed under reliance, once"""
    w = W(eng, entry, env["self"])
    E = rel_edges(w, w.KD)
    c = eng.coll(v, st)
    sets = [[k for k in b.vars if k.sort() == SET] for b in c.branches]
    if len(sets) != 1 or len(sets[0]) != 1 or any(k.sort() not in (SET, I) for k in c.branches[0].vars):
        raise Unsupported("result in another form")
    vs, g, e = c.branches[0].inst()
    ws, h, f = c.branches[0].inst()
    x, y = binder(U, "x"), binder(U, "y")
    m, n = members(eng, st, e), members(eng, st, f)
    # any set of decisions that is not empty and closed under reliance
    T = fresh(SET, "T")
    closed = And(ForAll([x], Imp(mem(T, x), mem(w.KD, x))), Exists([x], mem(T, x)), z3.ForAll([x, y], Imp(And(mem(T, x), RT(E, x, y), mem(w.KD, y)), mem(T, y)), patterns=[RT(E, x, y)]))
    maps = {p.arg(1).get_id(): p.arg(1) for p in st.pc if z3.is_app(p) and p.decl().name() == "CompOf"}.values()
    found = []
    for M in maps:
        S = defset(lambda i: Exists([x], And(mem(T, x), app(M, x) == i)), "S")
        r = z3.Int("size0")
        to = [(k, S if k.sort() == SET else r) for k in vs]
        found.append((z3.substitute(g, *to), members(eng, st, subst(e, to)), S, r))
    out = [("each is a set", z3.BoolVal(eng.kind(e, st) == "set")),
           ("each is a set of decisions", ForAll(vs + [x], Imp(And(g, m(x)), mem(w.KD, x)))),
           ("none is empty", ForAll(vs, Imp(g, Exists([x], m(x))))),
           ("each contains what its decisions rely on", ForAll(vs + [x, y], Imp(And(g, m(x), RT(E, x, y)), m(y)))),
           ("none is given twice", ForAll(vs + ws, Imp(And(g, h, ForAll([x], m(x) == n(x))), And(*[p == q for p, q in zip(vs, ws)]))))]
    if len(found) != 1:
        raise Unsupported("result in another form")
    g1, m1, S, r = found[0]
    out += [("every closed set is found", Imp(And(closed, r == card(S) - 1), g1)),
            ("a closed set is found as it is", Imp(closed, z3.ForAll([x], m1(x) == mem(T, x))))]
    return out


def register(reg):
    g = "CondensedRelevanceGraph"
    reg.add(Contract("RelevanceGraph.get_sccs", None, [Scenario("any graph", rg_obj)], post=sccs_post), "C05")
    reg.add(Contract(g + ".__init__", con_spec, [Scenario("any diagram", con_scen)], con_req, post=con_post, frame=False, modular=False), "C05")
    reg.add(Contract(g + ".get_decisions_in_scc", None, [Scenario("any", lambda eng, st: (comp_obj(eng, st), [], {}))], post=dec_post, modular=False), "C05")
    reg.add(Contract(g + ".get_scc_topological_ordering", None, [Scenario("any", lambda eng, st: (comp_obj(eng, st), [], {}))], post=topo_post, modular=False), "C05")
    reg.add(Contract("MACID.decs_in_each_maid_subgame", sub_spec, [Scenario("any diagram", sub_scen)], sub_req, post=sub_post, modular=False), "C05")
