"""Contracts of the optima: value of information and of control (C22)."""
import z3
from pyvc import lib as L
from pyvc.logic import *
from pyvc.values import *
from pyvc.lib import CellModel
from pyvc.verify import *
from pyvc.world import *
from .numeric import EV, Ans, net, ev, eu, utilities, NODICT, dictterm

# the largest expected utility that policies can give: nodes, edges, variables with a distribution and their
# distributions, decisions and their domains, utilities
Opt = z3.Function("Opt", SET, REL, SET, MAP, SET, MAP, SET, R)
congruent(Opt, {3: 2, 5: 4})
domOf = z3.Function("domOf", U, U)              # the outcomes of a relationship
relOf = z3.Function("decisionDomain", U, U)     # the relationship made from a list of outcomes
x_ = z3.Const("x_", U)
axiom([relOf], z3.ForAll([x_], domOf(relOf(x_)) == x_, patterns=[relOf(x_)]), "domain of a decision")
DEFAULT = lambda: intatom(z3.IntVal(0))


def optv(eng, st, w, E=None, KD=None, US=None):
    E, KD = E if E is not None else w.E, KD if KD is not None else w.KD
    K, M = w.MK, w.MR
    return Opt(w.N, E, defset(lambda x: And(mem(K, x), Not(mem(KD, x))), "K"), M, KD, defmap(lambda x: domOf(app(M, x)), "D"),
               US if US is not None else utilities(w, DEFAULT()))


def c_domain(eng, v, st):
    return Lib("modeldomain", v)


def c_getdomain(eng, v, k, st):
    c = st.heap[v.selfv.id]
    return [(s, r or Obj(domOf(app(c.m, k.t)), "domain")) for s, r in eng.guarded(st, mem(c.dom if c.dom is not None else c.keys, k.t), "KeyError")]


def store_domain(eng, v, st):
    return Obj(relOf(v.t), "rel")


L.EXTRA["CellModel.domain"] = c_domain
L.EXTRA["getitem:modeldomain"] = c_getdomain
L.EXTRA["store:domain"] = store_domain


def specified(eng, st, env):
    w = W(eng, st, env["self"])
    x = binder(U, "x")
    return [("every decision has a domain", z3.ForAll([x], z3.Implies(mem(w.KD, x), mem(w.MK, x)), patterns=[mem(w.KD, x)]))]


def rules_spec(eng, st, env):
    w = W(eng, st, env["self"])

    def make(s):
        s.set(w.c.fields["model"], CellModel(w.MK, defmap(lambda x: z3.If(mem(w.KD, x), relOf(domOf(app(w.MR, x))), app(w.MR, x)), "M"), fresh(X, "tab")))
        return NoneV()
    return [ret(make)]


def rules_post(eng, entry, st, env, v):
    w, a = W(eng, entry, env["self"]), W(eng, st, env["self"])
    x = binder(U, "x")
    return [("no variable is added or removed", ForAll([x], mem(a.MK, x) == mem(w.MK, x))),
            ("other relationships stay", ForAll([x], Imp(And(mem(w.MK, x), Not(mem(w.KD, x))), app(a.MR, x) == app(w.MR, x)))),
            ("decisions have their domain, and no policy", ForAll([x], Imp(mem(w.KD, x), app(a.MR, x) == relOf(domOf(app(w.MR, x)))))),
            ("returns None", z3.BoolVal(isinstance(v, NoneV)))] + \
        [(f"{k} unchanged", eng.eq(a.c.fields[k], w.c.fields[k], st, entry)) for k in w.c.fields if k != "model"] + \
        [("nodes", ForAll([x], mem(a.N, x) == mem(w.N, x))), ("edges", z3.BoolVal(a.E.eq(w.E)))]


def impute_spec(eng, st, env):
    """assumed: afterwards the expected utility is the largest possible, and only the decisions have other relationships"""
    w = W(eng, st, env["self"])
    best = optv(eng, st, w)

    def make(s):
        M2 = fresh(MAP, "policy")
        m = defmap(lambda x: z3.If(mem(w.KD, x), app(M2, x), app(w.MR, x)), "M")
        x = binder(U, "x")
        s.assume(z3.ForAll([x], z3.Implies(mem(w.KD, x), domOf(app(M2, x)) == domOf(app(w.MR, x))), patterns=[app(M2, x)]))
        s.set(w.c.fields["model"], CellModel(w.MK, m, fresh(X, "tab")))
        none = s.alloc(CellLitDict([]))
        v, ok, _ = eu(eng, s, env["self"], none, none, DEFAULT())
        s.assume(v == best)
        s.assume(ok)
        return NoneV()
    return [ret(make)]


def cid(eng, st):
    ref = macid(eng, st, "CID")
    w = W(eng, st, ref)
    x = binder(U, "x")
    st.assume(z3.ForAll([x], mem(w.AKD, x) == (x == DEFAULT()), patterns=[mem(w.AKD, x)]))
    st.assume(z3.ForAll([x], mem(w.AKU, x) == (x == DEFAULT()), patterns=[mem(w.AKU, x)]))
    st.assume(z3.ForAll([x], z3.Implies(mem(w.N, x), mem(w.MK, x)), patterns=[mem(w.N, x)]))
    st.assume(z3.ForAll([x], z3.Implies(mem(w.MK, x), mem(w.N, x)), patterns=[mem(w.MK, x)]))
    return ref


def rules_scen(eng, st):
    return cid(eng, st), [], {}


def voi_spec(eng, st, env):
    w = W(eng, st, env["cid"])
    d, n = env["decision"].t, env["node"].t
    known, later = mem(w.N, n), Or(n == d, RT(w.E, d, n))
    plus = defrel(lambda a, b: Or(edge(w.E, a, b), And(a == n, b == d)), "E")
    minus = defrel(lambda a, b: And(edge(w.E, a, b), Not(And(a == n, b == d))), "E")
    v = optv(eng, st, w, plus) - optv(eng, st, w, minus)
    return [ret(lambda s: Num(v), And(known, Not(later))), raises("KeyError", Not(known)), raises("ValueError", And(known, later))]


def voi_scen(eng, st):
    ref = cid(eng, st)
    w = W(eng, st, ref)
    st.assume(mem(w.KD, uconst("d0")))
    return None, [ref, Atom(uconst("d0")), Atom(uconst("n0"))], {}


def voc_spec(eng, st, env):
    w = W(eng, st, env["cid"])
    n = env["node"].t
    known = mem(w.N, n)
    KD = defset(lambda x: Or(mem(w.KD, x), x == n), "K")
    US = defset(lambda u: And(mem(utilities(w, DEFAULT()), u), u != n), "Us")
    v = optv(eng, st, w, KD=KD, US=US) - optv(eng, st, w)
    return [ret(lambda s: Num(v), known), raises("KeyError", Not(known))]


def voc_scen(eng, st):
    return None, [cid(eng, st), Atom(uconst("n0"))], {}


def register(reg):
    reg.assume("C22", "CID.impute_optimal_policy attains the largest expected utility over all policies and changes only the relationships of the decisions, not their domains (that is C16)")
    reg.assume("C22", "the outcomes of a specified variable depend only on the relationship stored for it, and a decision given a list of outcomes has these outcomes")
    reg.assume("C22", "the diagram is fully specified: every node has a relationship, every decision at least a domain")
    reg.add(Contract("CID.impute_optimal_policy", impute_spec, [], specified))
    reg.add(Contract("MACIDBase.remove_all_decision_rules", rules_spec, [Scenario("a CID", rules_scen)], specified, post=rules_post, frame=False), "C22")
    reg.add(Contract("quantitative_voi", voi_spec, [Scenario("any specified CID", voi_scen)]), "C22")
    reg.add(Contract("quantitative_voc", voc_spec, [Scenario("any specified CID", voc_scen)]), "C22")
