"""Contracts of pycid.core.get_paths: path searches, classification, activity (C06, C07)."""
import z3
from pyvc.logic import *
from pyvc.values import *
from pyvc.lib import CellPath
from pyvc.verify import *
from pyvc.world import *

FWD, BWD, COL, FORK, END = (strconst(s) for s in ("forward", "backward", "collider", "fork", "endpoint"))
prevp = z3.Function("prevp", P, I, U)
mot = z3.Function("motif", REL, P, I, U)
pwit = z3.Function("pathvia", REL, U, U, U, P)


def adj(E, x, y):
    return Or(edge(E, x, y), edge(E, y, x))


def is_motif(E, p, i, m):
    """position i (not an end) has motif m"""
    u, v, w = at(p, i - 1), at(p, i), at(p, i + 1)
    return {"forward": And(edge(E, u, v), edge(E, v, w)), "backward": And(edge(E, w, v), edge(E, v, u)),
            "collider": And(edge(E, u, v), edge(E, w, v)), "fork": And(edge(E, v, u), edge(E, v, w))}[m]


def motif_def(E, p, i):
    return z3.If(i == plen(p) - 1, END, z3.If(is_motif(E, p, i, "forward"), FWD, z3.If(is_motif(E, p, i, "backward"), BWD,
                 z3.If(is_motif(E, p, i, "collider"), COL, FORK))))


def _axioms():
    e = z3.Const("e", REL)
    p = z3.Const("p", P)
    a, b, x = z3.Consts("a b x", U)
    i, j = z3.Ints("i j")
    FA = z3.ForAll
    rng = lambda i: z3.And(0 <= i, i < plen(p))
    axiom([DirPath], FA([e, p, a, b], DirPath(e, p, a, b) == z3.And(plen(p) >= 1, at(p, 0) == a, at(p, plen(p) - 1) == b,
          FA([i, j], z3.Implies(z3.And(rng(i), rng(j), j == i + 1, trig(p, j)), edge(e, at(p, i), at(p, j))), patterns=[z3.MultiPattern(at(p, i), at(p, j))])),
          patterns=[DirPath(e, p, a, b)]), "definition of a directed path")
    axiom([UndPath], FA([e, p, a, b], UndPath(e, p, a, b) == z3.And(plen(p) >= 1, at(p, 0) == a, at(p, plen(p) - 1) == b,
          FA([i, j], z3.Implies(z3.And(rng(i), rng(j), j == i + 1, trig(p, j)), z3.Or(edge(e, at(p, i), at(p, j)), edge(e, at(p, j), at(p, i)))), patterns=[z3.MultiPattern(at(p, i), at(p, j))]),
          FA([i, j], z3.Implies(z3.And(rng(i), rng(j), i < j, trig(p, j)), at(p, i) != at(p, j)), patterns=[z3.MultiPattern(at(p, i), at(p, j))])),
          patterns=[UndPath(e, p, a, b)]), "definition of an undirected path")
    axiom([UndPath], FA([e, p, a, b, i], z3.Implies(z3.And(UndPath(e, p, a, b), rng(i)), z3.Or(at(p, i) == a, edge(e, at(p, i), prevp(p, i)), edge(e, prevp(p, i), at(p, i)))),
          patterns=[z3.MultiPattern(UndPath(e, p, a, b), at(p, i))]), "every node of an undirected path but the first is adjacent to its predecessor")
    axiom([mot], FA([e, p, i], mot(e, p, i) == motif_def(e, p, i), patterns=[mot(e, p, i)]), "definition of the motif at a position")
    reach = lambda u, v: z3.Or(u == v, RT(e, u, v))
    axiom([DirPath], FA([e, p, a, b, i], z3.Implies(z3.And(DirPath(e, p, a, b), rng(i)), z3.And(z3.Or(i == 0, RT(e, a, at(p, i))), z3.Or(i == plen(p) - 1, RT(e, at(p, i), b)))),
          patterns=[z3.MultiPattern(DirPath(e, p, a, b), at(p, i))]), "nodes on a directed path are descendants of its start and ancestors of its end")
    q = pwit(e, a, x, b)
    axiom([DirPath, RT], FA([e, a, b, x], z3.Implies(z3.And(reach(a, x), reach(x, b)), z3.And(DirPath(e, q, a, b), 0 <= idx(q, x), idx(q, x) < plen(q), at(q, idx(q, x)) == x)),
          patterns=[z3.MultiPattern(RT(e, a, x), RT(e, x, b)), q]), "a descendant is reached along a directed path")
    axiom([DirPath, RT], FA([e, a, b], z3.Implies(RT(e, a, b), DirPath(e, pwit(e, a, a, b), a, b)), patterns=[RT(e, a, b)]), "a descendant is reached along a directed path")


_axioms()


def nodes_ok(w, p):
    i = binder(I, "i")
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < plen(p)), w.node(at(p, i))), patterns=[at(p, i)])


def on(p, x):
    i = binder(I, "i")
    return z3.Exists([i], z3.And(0 <= i, i < plen(p), at(p, i) == x))


def pterm(eng, v, st):
    if isinstance(v, PathV):
        return v.t
    if isinstance(v, Ref):
        c = st.cell(v)
        if isinstance(c, CellPath):
            return c.t
        if isinstance(c, CellColl) and isinstance(c.content, PathV):
            return c.content.t
        v = c.content if isinstance(c, CellColl) else v
    if isinstance(v, Tup) and v.items and all(isinstance(x, Atom) for x in v.items):
        t = sing(v.items[0].t)
        for x in v.items[1:]:
            t = snoc(t, x.t)
        return t
    raise Unsupported(f"path argument {v!r}")


def collider(E, p, i):
    return mot(E, p, i) == COL


def motif_ok(E, p, i):
    """neighbours of position i on the path are its neighbours in the graph"""
    return Or(i == plen(p) - 1, And(adj(E, at(p, i - 1), at(p, i)), adj(E, at(p, i), at(p, i + 1))))


def gm_spec(eng, st, env):
    w = W(eng, st, env["cbn"])
    p, i = pterm(eng, env["path"], st), env["idx"].t
    ok = nodes_ok(w, p)
    inr = i <= plen(p) - 1
    cls = motif_ok(w.E, p, i)
    return [ret(lambda s: Atom(mot(w.E, p, i)), And(ok, inr, cls)), raises("KeyError", Not(ok)), raises("IndexError", And(ok, Not(inr))),
            raises("RuntimeError", And(ok, inr, Not(cls)))]


def gm_req(eng, st, env):
    return [("index is positive", env["idx"].t >= 1)]


def gm_scen(eng, st):
    m = macid(eng, st)
    return None, [m, PathV(z3.Const("p0", P)), Num(z3.Const("i0", I))], {}


def first_motif(E, p):
    return z3.If(edge(E, at(p, z3.IntVal(0)), at(p, z3.IntVal(1))), FWD, BWD)


def walk_ok(E, p):
    i, j = binder(I, "i"), binder(I, "j")
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, j == i + 1, j < plen(p)), z3.Or(edge(E, at(p, i), at(p, j)), edge(E, at(p, j), at(p, i)))),
                     patterns=[z3.MultiPattern(at(p, i), at(p, j))])


def gms_spec(eng, st, env):
    w = W(eng, st, env["cbn"])
    p = pterm(eng, env["path"], st)
    ok = nodes_ok(w, p)

    def make(s):
        return s.alloc(CellColl("list", Seq(plen(p), lambda i: Atom(z3.If(i == 0, first_motif(w.E, p), mot(w.E, p, i))))))
    return [ret(make, ok), raises("KeyError", Not(ok))]


def path_req(eng, st, env):
    w = W(eng, st, env["cbn"])
    p = pterm(eng, env["path"], st)
    return [("consecutive nodes of the path are adjacent", walk_ok(w.E, p)), ("at least two nodes", plen(p) >= 2)]


def nodup_path(p):
    i, j = binder(I, "i"), binder(I, "j")
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < plen(p)), at(p, i) != at(p, j)), patterns=[z3.MultiPattern(at(p, i), at(p, j))])


def observed(eng, v, st):
    return (lambda x: FALSE) if isinstance(v, NoneV) else (lambda s: (lambda x: mem(s, x)))(eng.setterm(v, st))


def active(E, p, Z):
    """the path is active given the set of nodes satisfying Z"""
    i, z = binder(I, "i"), binder(U, "z")
    c = collider(E, p, i)
    return z3.ForAll([i], z3.Implies(z3.And(1 <= i, i + 1 < plen(p), trig(p, i), trig(p, i + 1)), And(Imp(Not(c), Not(Z(at(p, i)))),
                     Imp(c, Exists([z], And(Z(z), Or(z == at(p, i), RT(E, at(p, i), z))))))))


def observed_ok(eng, st, w, v):
    x = binder(U, "x")
    Z = observed(eng, v, st)
    return ForAll([x], Imp(Z(x), w.node(x)))


def ap_spec(eng, st, env):
    w = W(eng, st, env["cbn"])
    p = pterm(eng, env["path"], st)
    ok = And(nodes_ok(w, p), observed_ok(eng, st, w, env["observed"]))
    return [ret(bool_(active(w.E, p, observed(eng, env["observed"], st))), ok), raises("KeyError", Not(ok))]


def ap_req(eng, st, env):
    w = W(eng, st, env["cbn"])
    p = pterm(eng, env["path"], st)
    return [("consecutive nodes of the path are adjacent", walk_ok(w.E, p)), ("the path repeats no node", nodup_path(p))]


def path_scen(kind):
    def build(eng, st):
        m = macid(eng, st)
        return None, [m, PathV(z3.Const("p0", P))] + ({"-": [], "none": [NoneV()], "set": [st.alloc(CellColl("set", setcoll(z3.Const("Z0", SET))))]}[kind]), {}
    return build


# ------------------------------------------------------------------ searches
def fdp_spec(eng, st, env):
    w = W(eng, st, env["cbn"])
    a, b = env["start_node"].t, env["end_node"].t
    ok = And(w.node(a), w.node(b))

    def make(s):
        p = binder(P, "p")
        return Coll([Branch([p], DirPath(w.E, p, a, b), PathV(p))], "iter", nodup=True)
    return [ret(make, ok), raises("KeyError", Not(ok))]


def fup_spec(eng, st, env):
    w = W(eng, st, env["cbn"])
    a, b = env["start_node"].t, env["end_node"].t
    ok = And(w.node(a), w.node(b))

    def make(s):
        p = binder(P, "p")
        return Coll([Branch([p], UndPath(w.E, p, a, b), PathV(p))], "iter", nodup=True)
    return [ret(make, ok), raises("KeyError", Not(ok))]


def ends_scen(extra=None):
    def build(eng, st):
        m = macid(eng, st)
        return None, [m, Atom(uconst("a0")), Atom(uconst("b0"))] + (extra(eng, st) if extra else []), {}
    return build


def obs_arg(kind):
    return lambda eng, st: {"-": [], "none": [NoneV()], "set": [st.alloc(CellColl("set", setcoll(z3.Const("Z0", SET))))]}[kind]


def dec_free(w, p):
    i = binder(I, "i")
    return z3.ForAll([i], z3.Implies(z3.And(1 <= i, i < plen(p) - 1), z3.Not(mem(w.KD, at(p, i)))), patterns=[at(p, i)])


def ddf(w, a, b):
    p = binder(P, "p")
    return z3.Exists([p], z3.And(DirPath(w.E, p, a, b), dec_free(w, p)), patterns=[DirPath(w.E, p, a, b)])


def ddf_spec(eng, st, env):
    w = W(eng, st, env["cbn"])
    a, b = env["start_node"].t, env["end_node"].t
    ok = And(w.node(a), w.node(b))
    return [ret(bool_(DDF(w.E, w.KD, a, b)), ok), raises("KeyError", Not(ok))]


def backdoor(w, a, b, Z):
    p = binder(P, "p")
    return z3.Exists([p], And(UndPath(w.E, p, a, b), plen(p) >= 2, edge(w.E, at(p, z3.IntVal(1)), at(p, z3.IntVal(0))), active(w.E, p, Z)))


def frontdoor(w, a, b, Z):
    p, i = binder(P, "p"), binder(I, "i")
    return z3.Exists([p], And(UndPath(w.E, p, a, b), edge(w.E, at(p, z3.IntVal(0)), at(p, z3.IntVal(1))), active(w.E, p, Z),
                              z3.Exists([i], And(1 <= i, i + 1 < plen(p), collider(w.E, p, i)))))


DDF = z3.Function("DecisionFreePath", REL, SET, U, U, B)
BD = z3.Function("BackdoorTrail", REL, U, U, SET, B)
FD = z3.Function("FrontdoorTrail", REL, U, U, SET, B)


class Edges:
    def __init__(self, e, kd=None):
        self.E, self.KD = e, kd


def _trails():
    e, a, b, s = z3.Const("e", REL), *z3.Consts("a b", U), z3.Const("s", SET)
    axiom([DDF], z3.ForAll([e, s, a, b], DDF(e, s, a, b) == ddf(Edges(e, s), a, b), patterns=[DDF(e, s, a, b)]), "definition of a directed decision-free path")
    EXTRA_OBS.append(DDF)
    for f, d in ((BD, backdoor), (FD, frontdoor)):
        axiom([f], z3.ForAll([e, a, b, s], f(e, a, b, s) == d(Edges(e), a, b, lambda x: mem(s, x)), patterns=[f(e, a, b, s)]), "definition of an active backdoor or frontdoor trail")
        EXTRA_OBS.append(f)


_trails()


def trail_spec(pred):
    def spec(eng, st, env):
        w = W(eng, st, env["cbn"])
        a, b = env["start_node"].t, env["end_node"].t
        ok = And(w.node(a), w.node(b), observed_ok(eng, st, w, env["observed"]))
        Z = observed(eng, env["observed"], st)
        return [ret(bool_(pred(w.E, a, b, defset(Z, "Z"))), ok), raises("KeyError", Not(ok))]
    return spec


def fd_req(eng, st, env):
    return [("the ends differ", env["start_node"].t != env["end_node"].t)]


def gpe_spec(eng, st, env):
    w = W(eng, st, env["cbn"])
    p = pterm(eng, env["path"], st)

    def make(s):
        def el(i):
            f = edge(w.E, at(p, i), at(p, i + 1))
            return Tup([Atom(z3.If(f, at(p, i), at(p, i + 1))), Atom(z3.If(f, at(p, i + 1), at(p, i)))])
        return s.alloc(CellColl("list", Seq(plen(p) - 1, el)))
    return [ret(make)]


def register(reg):
    reg.add(Contract("get_motif", gm_spec, [Scenario("any path", gm_scen)], gm_req), "C07")
    reg.add(Contract("get_motifs", gms_spec, [Scenario("any path", path_scen("-"))], path_req), "C07")
    reg.add(Contract("is_active_path", ap_spec, [Scenario("observed set", path_scen("set")), Scenario("observed None", path_scen("none"))], ap_req), "C07")
    reg.add(Contract("find_all_dir_paths", fdp_spec, [Scenario("any ends", ends_scen())]), "C06")
    reg.add(Contract("find_all_undir_paths", fup_spec, [Scenario("any ends", ends_scen())]), "C06")
    reg.add(Contract("directed_decision_free_path", ddf_spec, [Scenario("any ends", ends_scen())]), "C07")
    reg.add(Contract("is_active_backdoor_trail", trail_spec(BD), [Scenario("observed set", ends_scen(obs_arg("set"))), Scenario("no observed", ends_scen(obs_arg("-")))]), "C07")
    reg.add(Contract("is_active_indirect_frontdoor_trail", trail_spec(FD), [Scenario("observed set", ends_scen(obs_arg("set"))), Scenario("no observed", ends_scen(obs_arg("-")))], fd_req), "C07")


def fap_facts(w, p, a, b, Z):
    return [("result is a path between the nodes", UndPath(w.E, p, a, b)), ("result is active", active(w.E, p, Z))]


def fap_spec(eng, st, env):
    w = W(eng, st, env["cbn"])
    a, b = env["start_node"].t, env["end_node"].t
    Z = observed(eng, env["observed"], st)
    ok = And(w.node(a), w.node(b), observed_ok(eng, st, w, env["observed"]))
    q = binder(P, "q")
    some = And(Not(Z(b)), Or(a == b, z3.Exists([q], And(UndPath(w.E, q, a, b), active(w.E, q, Z)))))

    def make(s):
        t = fresh(P, "active")
        for _, f in fap_facts(w, t, a, b, Z):
            s.assume(f)
        return PathV(t)
    return [ret(make, And(ok, some)), raises("KeyError", Not(ok)), raises("ValueError", And(ok, Not(some)))]


def fap_post(eng, entry, st, env, v):
    w = W(eng, entry, env["cbn"])
    return fap_facts(w, pterm(eng, v, st), env["start_node"].t, env["end_node"].t, observed(eng, env["observed"], entry))


def fap_req(eng, st, env):
    return [("the start is not observed", Not(observed(eng, env["observed"], st)(env["start_node"].t)))]


_register = register


def register(reg):
    _register(reg)
    reg.add(Contract("find_active_path", fap_spec, [Scenario("observed set", ends_scen(obs_arg("set"))), Scenario("no observed", ends_scen(obs_arg("-")))], fap_req, post=fap_post), "C07")
