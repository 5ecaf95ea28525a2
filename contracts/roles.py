"""Contracts of the role changes and the constructors (C01)."""
import z3
from pyvc.logic import *
from pyvc.values import *
from pyvc.verify import *
from pyvc.world import *
from .copying import reachable


def pairs(eng, st, ref):
    """the items of a dictionary: [(variables, guard, key, value)]"""
    return [(vs, g, e.items[0], e.items[1]) for vs, g, e in eng.coll(Lib("itemsview", ref), st).inst()]


class Roles:
    """what the four role attributes of a diagram say, for any representation of the dictionaries"""
    def __init__(self, eng, st, ref):
        self.eng, self.st = eng, st
        f = st.heap[ref.id].fields
        self.own = {"decision": f["decision_agent"], "utility": f["utility_agent"]}
        self.lists = {"decision": f["agent_decisions"], "utility": f["agent_utilities"]}

    def owner(self, kind, x, a):
        return Or(*[Exists(vs, And(g, self.eng.eq(k, Atom(x), self.st), self.eng.eq(v, Atom(a), self.st))) for vs, g, k, v in pairs(self.eng, self.st, self.own[kind])])

    def has(self, kind, x):
        return Or(*[Exists(vs, And(g, self.eng.eq(k, Atom(x), self.st))) for vs, g, k, v in pairs(self.eng, self.st, self.own[kind])])

    def agent(self, kind, a):
        return Or(*[Exists(vs, And(g, self.eng.eq(k, Atom(a), self.st))) for vs, g, k, v in pairs(self.eng, self.st, self.lists[kind])])

    def listed(self, kind, a, x):
        return Or(*[Exists(vs, And(g, self.eng.eq(k, Atom(a), self.st), self.eng.member(Atom(x), self.eng.iterable(v, self.st), self.st))) for vs, g, k, v in pairs(self.eng, self.st, self.lists[kind])])

    def norepeat(self, kind):
        out = []
        for vs, g, k, v in pairs(self.eng, self.st, self.lists[kind]):
            c = self.eng.coll(v, self.st)
            if not c.nodup:
                out.append(ForAll(vs, Imp(g, self.eng.lib.nodup_formula(self.eng, c, self.st))))
        return And(*out)


def role_facts(r, own, agents):
    """the role attributes describe exactly the wanted roles: own(kind, agent, node), agents(kind, agent)"""
    out = []
    x, a = binder(U, "x"), binder(U, "a")
    for kind in ("decision", "utility"):
        out += [(f"the {kind} nodes and their owners", ForAll([x, a], r.owner(kind, x, a) == own(kind, a, x))),
                (f"the {kind} nodes", ForAll([x], r.has(kind, x) == Exists([a], own(kind, a, x)))),
                (f"the agents with a {kind} list", ForAll([a], r.agent(kind, a) == agents(kind, a))),
                (f"each {kind} list has the {kind} nodes of its agent", ForAll([a, x], r.listed(kind, a, x) == own(kind, a, x))),
                (f"each {kind} list has each node once", r.norepeat(kind))]
    return out


def role_spec(kind):
    def spec(eng, st, env):
        ok = W(eng, st, env["self"]).node(env["node"].t)
        return [ret(lambda s: NoneV(), ok), raises("KeyError", Not(ok))]
    return spec


def role_post(kind):
    def post(eng, entry, st, env, v):
        w0, w = W(eng, entry, env["self"]), W(eng, st, env["self"])
        agent = env["agent"] if "agent" in env else None
        agent = agent.t if isinstance(agent, Atom) else intatom(agent.t) if isinstance(agent, Num) else None
        x, y = binder(U, "x"), binder(U, "y")
        node = env["node"].t
        M = {"decision": (w0.KD, w0.DA, w0.AKD), "utility": (w0.KU, w0.UA, w0.AKU)}

        def own(k, a, x):
            old = And(mem(M[k][0], x), app(M[k][1], x) == a, x != node)
            return Or(old, And(x == node, a == agent)) if k == kind else old

        def agents(k, a):
            return Or(mem(M[k][2], a), a == agent) if k == kind else mem(M[k][2], a)
        both = ("no node has two roles", ForAll([x], Not(And(mem(w.KD, x), mem(w.KU, x)))))
        return [("returns None", z3.BoolVal(isinstance(v, NoneV))), ("nodes unchanged", ForAll([x], mem(w.N, x) == mem(w0.N, x))),
                ("edges unchanged", ForAll([x, y], edge(w.E, x, y) == edge(w0.E, x, y))),
                ("distributions unchanged", z3.BoolVal(w.model is w0.model)),
                ("every node with a role is a node", ForAll([x], Imp(Or(mem(w.KD, x), mem(w.KU, x)), mem(w.N, x)))), both] + role_facts(Roles(eng, st, env["self"]), own, agents)
    return post


def role_scen(agent):
    def build(eng, st, cls):
        m = macid(eng, st, cls or "MACIDBase")
        return m, [Atom(uconst("n0"))] + ([Atom(uconst("a0"))] if agent else []), {}
    return build


def view_spec(get):
    def spec(eng, st, env):
        return [ret(lambda s: s.alloc(CellColl("set", setcoll(get(W(eng, s, env["self"]))))))]
    return spec


def obj_scen(eng, st, cls):
    return macid(eng, st, cls or "MACIDBase"), [], {}


# ------------------------------------------------------------------ constructors
def init_scen(cls, with_edges=True, names=("agent_decisions", "agent_utilities"), shape="maps"):
    def build(eng, st, k=None):
        c = z3.Const
        E, AKD, AKU, BD, BU = c("E0", REL), c("AKD0", SET), c("AKU0", SET), c("BD0", BAG), c("BU0", BAG)
        ref = eng.lib.newobj(eng, k or eng.repo.classes[cls], st)
        a, b = binder(U, "a"), binder(U, "b")
        kw = {}
        if with_edges:
            kw["edges"] = st.alloc(CellColl("list", Coll([Branch([a, b], edge(E, a, b), Tup([Atom(a), Atom(b)]))], "list")))
        if shape == "maps":
            for n, keys, bag in ((names[0], AKD, BD), (names[1], AKU, BU)):
                kw[n] = st.alloc(CellBag(keys, st.alloc(CellRegion(bag)).id))
        elif shape == "lists":
            for n, s in ((names[0], "D0"), (names[1], "U0")):
                kw[n] = st.alloc(CellColl("list", setcoll(c(s, SET), "list")))
        return ref, [], kw
    return build


def wanted(eng, st, env):
    """the roles given to a constructor, as (decisions, owner relation, agents) twice"""
    out = []
    single = not any(n in env for n in ("agent_decisions", "agent_utilities"))
    for one, many in (("agent_decisions", "decisions"), ("agent_utilities", "utilities")):
        if one in env:
            v = env[one]
            if isinstance(v, NoneV):
                out.append((lambda a, x: FALSE, lambda a: FALSE))
            else:
                b = st.heap[v.id]
                bag = st.heap[b.region].bag
                out.append((lambda a, x, b=b, bag=bag: And(mem(b.keys, a), cnt(bag, a, x) > 0), lambda a, b=b: mem(b.keys, a)))
        else:
            v = env[many]
            s = defset(lambda x: FALSE) if isinstance(v, NoneV) else eng.setterm(v, st)
            zero = strconst(0)
            out.append((lambda a, x, s=s: And(a == zero, mem(s, x)), lambda a: a == zero))
    return out


def init_req(eng, st, env):
    """each node has at most one role"""
    (d, _), (u, _) = wanted(eng, st, env)
    a, b, x = binder(U, "a"), binder(U, "b"), binder(U, "x")
    out = [("each node has at most one role", ForAll([a, b, x], Not(Or(And(d(a, x), d(b, x), a != b), And(u(a, x), u(b, x), a != b), And(d(a, x), u(b, x))))))]
    for one in ("agent_decisions", "agent_utilities"):
        if one in env and isinstance(env[one], Ref):
            bag = st.heap[st.heap[env[one].id].region].bag
            out.append((f"{one} lists each node once", z3.ForAll([a, x], And(cnt(bag, a, x) <= 1, cnt(bag, a, x) >= 0), patterns=[cnt(bag, a, x)])))
    return out


def init_spec(eng, st, env):
    E = edges_of(eng, st, env)
    bad = Not(Acyc(E)) if isinstance(env.get("edges"), Ref) else FALSE
    return [ret(lambda s: NoneV(), Not(bad)), raises("ValueError", bad)]


def edges_of(eng, st, env):
    v = env.get("edges", NoneV())
    if isinstance(v, NoneV):
        return defrel(lambda a, b: FALSE)
    return z3.Const("E0", REL)


def init_post(eng, entry, st, env, v):
    c = st.heap[env["self"].id]
    given = dict(zip(("decision", "utility"), wanted(eng, entry, env)))
    E = edges_of(eng, entry, env)
    x, y = binder(U, "x"), binder(U, "y")
    inside = reachable(st, env["self"]) - {env["self"].id}
    m = st.heap[c.fields["model"].id]
    return [("the edges are those given", ForAll([x, y], edge(c.E, x, y) == edge(E, x, y))),
            ("the nodes are the ends of the edges", ForAll([x], mem(c.nodes, x) == Exists([y], Or(edge(E, x, y), edge(E, y, x))))),
            ("no list of the arguments is shared", z3.BoolVal(not (inside & set(entry.heap)))),
            ("no distributions", ForAll([x], Not(mem(m.keys, x)))),
            ("the arguments are unchanged", And(*[eng.cell_eq(st.heap[h], entry.heap[h], st, entry) for h in entry.heap if h != env["self"].id]))] \
        + role_facts(Roles(eng, st, env["self"]), lambda k, a, x: given[k][0](a, x), lambda k, a: given[k][1](a))


def register(reg):
    base = "MACIDBase"
    for n, kind, agent in (("make_decision", "decision", True), ("make_utility", "utility", True), ("make_chance", "chance", False)):
        scens = [Scenario("any agent" if agent else "any node", role_scen(agent))] + ([Scenario("agent 0", role_scen(False))] if agent else [])
        reg.add(Contract(f"{base}.{n}", role_spec(kind), scens, post=role_post(kind), frame=False, atomic=True, modular=False), "C01")
    for n, get in (("decisions", lambda w: w.KD), ("utilities", lambda w: w.KU), ("agents", lambda w: w.AKU)):
        reg.add(Contract(f"{base}.{n}", view_spec(get), [Scenario("any diagram", obj_scen)], modular=False), "C01")
    two = ("agent_decisions", "agent_utilities")
    reg.add(Contract(f"{base}.__init__", init_spec, [Scenario("edges and roles", init_scen(base)), Scenario("roles only", init_scen(base, False)), Scenario("edges only", init_scen(base, True, two, "none"))],
                     init_req, post=init_post, frame=False, modular=False), "C01")
    reg.add(Contract("CID.__init__", init_spec, [Scenario("edges and roles", init_scen("CID", True, ("decisions", "utilities"), "lists")), Scenario("edges only", init_scen("CID", True, two, "none"))],
                     init_req, post=init_post, frame=False, modular=False), "C01")
