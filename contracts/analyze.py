"""Contracts of pycid.analyze: requisite graphs and incentives (C08, C09, C10)."""
import ast
import z3
from pyvc import logic
from pyvc.logic import *
from pyvc.values import *
from pyvc.lib import CellModel
from pyvc.verify import *
from pyvc.world import *
from . import core
from .core import own_util, owned, recall, has_mec_node
from .copying import clone, same_model, reachable
from .paths import BD, on

Fx = z3.Function("FaWithout", REL, U, U, SET)
ROLES = [SET, MAP, SET, MAP]
req = z3.Function("requisite", REL, U, U, *ROLES, B)
Red = z3.Function("Reduces", REL, REL, *ROLES, B)
reqE = z3.Function("requisiteEdges", REL, *ROLES, REL)


def _axioms():
    e, f, g = z3.Consts("e f g", REL)
    a, b, d, x, u = z3.Consts("a b d x u", U)
    kd, ku = z3.Consts("kd ku", SET)
    da, ua = z3.Consts("da ua", MAP)
    R = (kd, da, ku, ua)
    FA = z3.ForAll
    axiom([Fx], FA([e, d, a, x], mem(Fx(e, d, a), x) == z3.And(z3.Or(x == d, edge(e, x, d)), x != a), patterns=[mem(Fx(e, d, a), x)]))
    axiom([req], FA([e, d, a, *R], req(e, d, a, *R) == z3.Exists([u], z3.And(mem(ku, u), app(ua, u) == app(da, d), RT(e, d, u), u != d, DConn(e, a, u, Fx(e, d, a)))),
                   patterns=[req(e, d, a, *R)]), "definition of a requisite observation")
    step = FA([a, b], z3.And(z3.Implies(edge(g, a, b), edge(f, a, b)),
                             z3.Implies(z3.And(edge(f, a, b), z3.Not(edge(g, a, b))), z3.And(mem(kd, b), z3.Not(req(f, b, a, *R))))),
              patterns=[edge(g, a, b), edge(f, a, b)])
    axiom([Red], FA([e, *R], Red(e, e, *R), patterns=[Red(e, e, *R)]), "definition of a reduction: nothing removed")
    axiom([Red], FA([e, f, g, *R], z3.Implies(z3.And(Red(e, f, *R), step), Red(e, g, *R)), patterns=[z3.MultiPattern(Red(e, f, *R), Red(e, g, *R))]),
          "definition of a reduction: nonrequisite information links removed")
    axiom([Red], FA([e, f, *R, a, b], z3.Implies(z3.And(Red(e, f, *R), edge(f, a, b)), edge(e, a, b)), patterns=[z3.MultiPattern(Red(e, f, *R), edge(f, a, b))]),
          "a reduction only removes edges")
    axiom([Red], FA([e, f, *R, a, b], z3.Implies(z3.And(Red(e, f, *R), edge(e, a, b), z3.Not(edge(f, a, b))), mem(kd, b)),
                    patterns=[z3.MultiPattern(Red(e, f, *R), edge(e, a, b), edge(f, a, b))]), "a reduction only removes information links")
    axiom([Red], FA([e, f, *R], z3.Implies(z3.And(Red(e, f, *R), Acyc(e)), Acyc(f)), patterns=[z3.MultiPattern(Red(e, f, *R), Acyc(e))]), "a reduction is acyclic")
    G = reqE(e, *R)
    axiom([reqE], FA([e, *R], z3.Implies(Acyc(e), Acyc(G)), patterns=[Acyc(G)]), "the minimal reduction is acyclic")
    axiom([reqE], FA([e, *R, a, b], z3.Implies(edge(G, a, b), edge(e, a, b)), patterns=[edge(G, a, b)]), "the minimal reduction only removes edges")
    axiom([reqE], FA([e, *R, a, b], z3.Implies(z3.And(edge(e, a, b), z3.Not(edge(G, a, b))), mem(kd, b)), patterns=[z3.MultiPattern(edge(e, a, b), edge(G, a, b))]),
          "the minimal reduction only removes information links")
    EXTRA_OBS.append(reqE)


_axioms()


def roles(w):
    return (w.KD, w.DA, w.KU, w.UA)


def rq(w, d, a, E=None):
    return req(w.E if E is None else E, d, a, *roles(w))


# ------------------------------------------------------------------ C08
def requisite_spec(eng, st, env):
    w = W(eng, st, env["cid"])
    d, x = env["decision"].t, env["node"].t
    ok = edge(w.E, x, d)
    return [ret(bool_(rq(w, d, x)), ok), raises("KeyError", Not(ok))]


def dec_req(eng, st, env):
    w = W(eng, st, env["cid"])
    return [("the decision is a decision of an agent", owned(w, env["decision"].t)), ("the decision is a node", w.node(env["decision"].t))]


def requisite_list_spec(eng, st, env):
    w = W(eng, st, env["cid"])
    d = env["decision"].t
    return [ret(lambda s: s.alloc(CellColl("list", listcoll(lambda x: And(edge(w.E, x, d), rq(w, d, x))))))]


def diagram(cls="MACIDBase", names=("d0", "x0")):
    def build(eng, st):
        m = macid(eng, st, cls)
        st.assume(core.mec_axiom())
        return None, [m] + [Atom(uconst(n)) for n in names], {}
    return build


def stable(w, E, S=None):
    a, b = binder(U, "a"), binder(U, "b")
    S = w.KD if S is None else S
    return z3.ForAll([a, b], z3.Implies(z3.And(edge(E, a, b), mem(w.KD, b), mem(S, b)), rq(w, b, a, E)), patterns=[z3.MultiPattern(edge(E, a, b), mem(S, b)), rq(w, b, a, E)])


def all_owned(eng, st, env):
    w = W(eng, st, env["cid"])
    x = binder(U, "x")
    return [("every decision belongs to an agent", z3.ForAll([x], Imp(mem(w.KD, x), owned(w, x)), patterns=[mem(w.KD, x)]))]


def rgraph_facts(w, E):
    a, b = binder(U, "a"), binder(U, "b")
    return [("the links removed were nonrequisite when removed", Red(w.E, E, *roles(w))), ("no nonrequisite link is left", stable(w, E))]


def rgraph_spec(eng, st, env):
    w = W(eng, st, env["cid"])

    def make(s):
        ref = clone(eng, s, env["cid"], same_model)
        E = reqE(w.E, *roles(w))
        s.set(ref, s.heap[ref.id].but(E=E))
        return ref
    return [ret(make)]


def rgraph_post(eng, entry, st, env, v):
    if not isinstance(v, Ref) or not isinstance(st.heap[v.id], CellGraph):
        return [("result is a diagram", FALSE)]
    w, c = W(eng, entry, env["cid"]), st.heap[v.id]
    s2 = entry.clone()
    b = s2.heap[clone(eng, s2, env["cid"], same_model).id]
    x = binder(U, "x")
    out = [("same kind of diagram", z3.BoolVal(c.cls is b.cls)), ("same nodes", ForAll([x], mem(c.nodes, x) == w.node(x))),
           ("shares no mutable object with the original", z3.BoolVal(not (reachable(st, v) & set(entry.heap))))]
    out += rgraph_facts(w, c.E)
    for k in sorted(set(b.fields) - {"model"}):
        out.append((f"same {k}", eng.eq(c.fields[k], b.fields[k], st, s2)))
    return out


def rgraph_hook(eng, s, st, ctx, it):
    """loops that remove links from a diagram: what is left is a reduction of the original, and where nothing was removed the
    processed decisions have requisite links only"""
    if not any(isinstance(n, (ast.For, ast.While)) for n in ast.walk(s) if n is not s) and not isinstance(s, ast.While):
        return None
    w = W(eng, eng.entry, eng.args0["cid"])
    return eng.inv_loop(s, st, ctx, it, rgraph_cands(w))


def rgraph_cands(w):
    def cands(eng, st0, st, done):
        out = []
        for h, c in st.heap.items():
            if isinstance(c, CellGraph) and h != w.ref.id:
                if c.E.eq(w.E):
                    out.append((f"graph {h}: reduction", TRUE))
                else:
                    out.append((f"graph {h}: reduction", Red(w.E, c.E, *roles(w))))
                for f, fr in st.frames.items():
                    for n, v in fr.items():
                        if isinstance(v, BoolV):
                            out.append((f"graph {h}: stable where {n}", Imp(v.f, stable(w, c.E, done))))
                            out.append((f"graph {h}: stable where not {n}", Imp(Not(v.f), stable(w, c.E, done))))
                out.append((f"graph {h}: stable", stable(w, c.E, done)))
        return out
    return cands


# ------------------------------------------------------------------ C09
def errors(w, *nodes, need_recall=True):
    a = binder(U, "a")
    multi = card(w.AKU) > 1
    unknown = Or(*[Not(w.node(x)) for x in nodes]) if nodes else FALSE
    norec = Or(Not(ForAll([a], Imp(mem(w.AKU, a), recall(w, a)))), has_mec_node(w)) if need_recall else FALSE
    return multi, unknown, norec


def single_spec(value, names=("decision", "node"), need_recall=True, recall_first=True):
    def spec(eng, st, env):
        w = W(eng, st, env["cid"])
        xs = [env[n].t for n in names]
        multi, unknown, norec = errors(w, *xs, need_recall=need_recall)
        return [ret(bool_(value(w, *xs)), And(Not(multi), Not(unknown), Not(norec))), raises("ValueError", Or(multi, norec)), raises("KeyError", unknown)]
    return spec


def plus(w, a, b):
    return defrel(lambda x, y: Or(edge(w.E, x, y), And(x == a, y == b)), "Eplus")


def voi(w, d, x):
    return And(x != d, Not(RT(w.E, d, x)), edge(reqE(plus(w, x, d), *roles(w)), x, d))


def ri(w, d, x):
    return And(x != d, RT(reqE(w.E, *roles(w)), x, d))


def ici(w, d, x):
    u = binder(U, "u")
    return And(Or(x == d, RT(w.E, d, x)), Exists([u], And(mem(w.KU, u), Or(u == x, RT(w.E, x, u)))))


def voc(w, x):
    u = binder(U, "u")
    R = reqE(w.E, *roles(w))
    return And(Not(mem(w.KD, x)), Exists([u], And(mem(w.KU, u), Or(u == x, RT(R, x, u)))))


def dvoc(w, x):
    u, p, i = binder(U, "u"), binder(P, "p"), binder(I, "i")
    R = reqE(w.E, *roles(w))
    return z3.Exists([u, p], z3.And(mem(w.KU, u), DirPath(R, p, x, u), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < plen(p)), z3.Not(mem(w.KD, at(p, i)))), patterns=[at(p, i)])))


class Reduced:
    """the diagram with the edges of its requisite graph"""
    def __init__(self, w):
        self.__dict__.update(w.__dict__)
        self.E = reqE(w.E, *roles(w))


def ivoc(w, d, x):
    u, p = binder(U, "u"), binder(P, "p")
    g = Reduced(w)
    return And(Not(mem(w.KD, x)), z3.Exists([u], z3.And(mem(w.KU, u), z3.Exists([p], z3.And(DirPath(g.E, p, x, u), on(p, d))),
                                                       BD(g.E, x, u, Fx(w.E, d, x)))))


def list_spec(value, names=("decision",), need_recall=True, cand=None):
    def spec(eng, st, env):
        w = W(eng, st, env["cid"])
        xs = [env[n].t for n in names]
        multi, unknown, norec = errors(w, *xs, need_recall=need_recall)
        x = binder(U, "x")
        some = Exists([x], And(w.node(x), cand(w, *xs, x) if cand else TRUE))
        res = lambda s: s.alloc(CellColl("list", listcoll(lambda y: And(w.node(y), value(w, *xs, y)))))
        return [ret(res, Or(Not(some), And(Not(multi), Not(unknown), Not(norec)))), raises("ValueError", And(some, Or(multi, norec))), raises("KeyError", And(some, unknown))]
    return spec


def dec_node(eng, st, env):
    w = W(eng, st, env["cid"])
    return all_owned(eng, st, env) + [("the decision is a node", w.node(env["decision"].t))]


def register(reg):
    reg.assume("C09 C10", "lemma (assumed): the minimal reduction of a diagram exists and is unique (Lauritzen and Nilsson 2001), so that the result of requisite_graph is the function requisiteEdges of the diagram; that the result is a reduction with no nonrequisite link left is proved")
    reg.assume("C08 C09 C10", "termination of the loops is not proved (partial correctness)")
    D2 = [Scenario("any diagram", diagram())]
    reg.add(Contract("requisite", requisite_spec, D2, dec_req), "C08")
    reg.add(Contract("requisite_list", requisite_list_spec, [Scenario("any diagram", diagram(names=("d0",)))], dec_req), "C08")
    reg.add(Contract("requisite_graph", rgraph_spec, [Scenario("any MACIDBase", diagram(names=())), Scenario("any CID", diagram("CID", names=()))], all_owned, post=rgraph_post), "C08")
    reg.hooks["requisite_graph"] = rgraph_hook
    S2, S1, S0 = ([Scenario("any diagram", diagram("CID", names=n))] for n in (("d0", "x0"), ("x0",), ()))
    SD = [Scenario("any diagram", diagram("CID", names=("d0",)))]
    reg.add(Contract("admits_voi", single_spec(voi), S2, all_owned), "C09")
    reg.add(Contract("admits_voi_list", list_spec(voi, cand=lambda w, d, x: And(x != d, Not(RT(w.E, d, x)))), SD, dec_node), "C09")
    reg.add(Contract("admits_ri", single_spec(ri), S2, all_owned), "C09")
    reg.add(Contract("admits_ri_list", list_spec(ri), SD, all_owned), "C09")
    reg.add(Contract("admits_ici", single_spec(ici, need_recall=False), S2, all_owned), "C10")
    reg.add(Contract("admits_ici_list", list_spec(ici, need_recall=False), SD, all_owned), "C10")
    reg.add(Contract("admits_voc", single_spec(voc, ("node",)), S1, all_owned), "C10")
    reg.add(Contract("admits_voc_list", list_spec(voc, ()), S0, all_owned), "C10")
    reg.add(Contract("admits_dir_voc", single_spec(dvoc, ("node",)), S1, all_owned), "C10")
    reg.add(Contract("admits_dir_voc_list", list_spec(dvoc, ()), S0, all_owned), "C10")
    reg.add(Contract("admits_indir_voc", single_spec(ivoc), S2, all_owned), "C10")
    reg.add(Contract("admits_indir_voc_list", list_spec(ivoc), SD, all_owned), "C10")
