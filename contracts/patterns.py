"""Contracts of pycid.analyze.reasoning_patterns (C11)."""
import ast
import z3
from pyvc.logic import *
from pyvc.values import *
from pyvc.lib import CellPath
from pyvc.verify import *
from pyvc.world import *
from .analyze import all_owned
from .paths import (DDF, FORK, active, ends_scen, mot, nodes_ok, nodup_path, observed, observed_ok, on, pterm, walk_ok)

ARGS = [REL, SET]                      # edges, decisions
Eff = z3.Function("Effective", *ARGS, P, SET, B)
DPE = z3.Function("EffectiveDirPath", *ARGS, U, U, SET, SET, B)
BDE = z3.Function("EffectiveBackdoor", *ARGS, P, U, U, SET, SET, B)
UPE = z3.Function("EffectiveUndirPath", *ARGS, U, U, SET, SET, B)
FDE = z3.Function("EffectiveFrontdoor", *ARGS, U, U, SET, SET, B)
key = z3.Function("keynode", REL, P, U)
keyi = z3.Function("keyindex", REL, P, I)
forki = z3.Function("forkindex", REL, P, I)


def eff_def(e, kd, p, s):
    i = binder(I, "i")
    return z3.ForAll([i], z3.Implies(z3.And(1 <= i, i < plen(p), mem(kd, at(p, i))), z3.Or(mem(s, at(p, i)), mot(e, p, i) == FORK)), patterns=[at(p, i)])


def off(p, s):
    i = binder(I, "i")
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < plen(p)), z3.Not(mem(s, at(p, i)))), patterns=[at(p, i)])


CRIT = [REL, SET, MAP, BAG, U]         # edges, decisions, their agents, the utilities of agents; a decision
Direct = z3.Function("HasDirectEffect", *CRIT, B)
Manip = z3.Function("HasManipulation", *CRIT, SET, B)
Sig = z3.Function("HasSignaling", *CRIT, SET, B)
RevDen = z3.Function("HasRevealingOrDenying", *CRIT, SET, B)
Dropped = z3.Function("DecisionsLeft", REL, SET, MAP, BAG, SET, B)


def _axioms():
    e, kd, s, y = z3.Const("e", REL), *z3.Consts("kd s y", SET)
    a, b = z3.Consts("a b", U)
    p = z3.Const("p", P)
    z0, z1 = z3.IntVal(0), z3.IntVal(1)
    FA = z3.ForAll
    Y = lambda x: mem(y, x)

    def df(f, vs, body, note):
        axiom([f], FA([e, kd, *vs], f(e, kd, *vs) == body, patterns=[f(e, kd, *vs)]), note)
        EXTRA_OBS.append(f)
    df(Eff, [p, s], eff_def(e, kd, p, s), "definition of an effective path")
    df(DPE, [a, b, s, y], z3.Exists([p], z3.And(DirPath(e, p, a, b), off(p, y), Eff(e, kd, p, s)), patterns=[DirPath(e, p, a, b)]), "definition")
    df(BDE, [p, a, b, s, y], z3.And(UndPath(e, p, a, b), plen(p) >= 2, edge(e, at(p, z1), at(p, z0)), active(e, p, Y), Eff(e, kd, p, s)), "definition")
    df(UPE, [a, b, s, y], z3.Exists([p], z3.And(UndPath(e, p, a, b), active(e, p, Y), Eff(e, kd, p, s)), patterns=[UndPath(e, p, a, b)]), "definition")
    i = binder(I, "i")
    df(FDE, [a, b, s, y], z3.Exists([p], z3.And(UndPath(e, p, a, b), edge(e, at(p, z0), at(p, z1)), active(e, p, Y), Eff(e, kd, p, s),
                                               z3.Exists([i], z3.And(1 <= i, i + 1 < plen(p), mot(e, p, i) == COLL), patterns=[mot(e, p, i), at(p, i)])), patterns=[UndPath(e, p, a, b)]), "definition")
    j, k = binder(I, "j"), keyi(e, p)
    some = z3.Exists([i], z3.And(1 <= i, i + 1 < plen(p), mot(e, p, i) == FORK))
    axiom([key], FA([e, p], z3.Implies(some, z3.And(1 <= k, k + 1 < plen(p), mot(e, p, k) == FORK, key(e, p) == at(p, k),
          FA([j], z3.Implies(z3.And(1 <= j, j < k), mot(e, p, j) != FORK), patterns=[mot(e, p, j)]))), patterns=[key(e, p)]), "definition of the key node: the first fork")
    fk = forki(e, p)
    axiom([BDE], FA([e, kd, p, a, b, s, y], z3.Implies(z3.And(BDE(e, kd, p, a, b, s, y), Acyc(e), childless(e, b)),
                                                 z3.And(1 <= fk, fk + 1 < plen(p), mot(e, p, fk) == FORK)), patterns=[BDE(e, kd, p, a, b, s, y)]),
          "a backdoor path that ends in a childless node has a fork")


def childless(e, b):
    y = binder(U, "y")
    return z3.ForAll([y], z3.Not(edge(e, b, y)), patterns=[edge(e, b, y)])


COLL = strconst("collider")
_axioms()


def eset(eng, v, st):
    return defset(lambda x: FALSE, "none") if isinstance(v, NoneV) else eng.setterm(v, st)


def path_is_effective_spec(eng, st, env):
    w = W(eng, st, env["mb"])
    p = pterm(eng, env["path"], st)
    return [ret(bool_(Eff(w.E, w.KD, p, eset(eng, env["effective_set"], st))))]


def path_req(eng, st, env):
    w = W(eng, st, env["mb"])
    p = pterm(eng, env["path"], st)
    return [("consecutive nodes of the path are adjacent", walk_ok(w.E, p)), ("the nodes of the path are nodes", nodes_ok(w, p))]


def SET0(n):
    return lambda eng, st: st.alloc(CellColl("set", setcoll(z3.Const(n, SET))))


def path_scen(eng, st):
    return None, [macid(eng, st), PathV(z3.Const("p0", P)), SET0("S0")(eng, st)], {}


def two(*extra):
    return ends_scen(lambda eng, st: [x(eng, st) for x in extra])


def rel_spec(f, cond=True, start="start", finish="finish"):
    def spec(eng, st, env):
        w = W(eng, st, env["mb"])
        a, b = env[start].t, env[finish].t
        y = env.get("y", env.get("w", NoneV()))
        Y = eset(eng, y, st)
        ok = And(w.node(a), w.node(b))
        return [ret(bool_(f(w.E, w.KD, a, b, eset(eng, env["effective_set"], st), Y)), ok), raises("KeyError", Not(ok))]
    return spec


def differ(eng, st, env):
    return [("the ends differ", env["start"].t != env["finish"].t)] + obs_nodes(eng, st, env)


def obs_nodes(eng, st, env):
    return [("the observed are nodes", observed_ok(eng, st, W(eng, st, env["mb"]), env["w"]))]


def key_spec(eng, st, env):
    w = W(eng, st, env["mb"])
    p = pterm(eng, env["path"], st)
    i = binder(I, "i")
    some = z3.Exists([i], z3.And(1 <= i, i + 1 < plen(p), mot(w.E, p, i) == FORK))
    return [ret(lambda s: Atom(key(w.E, p)), some), raises("ValueError", Not(some))]


def up_spec(eng, st, env):
    """None, or some effective path that is not blocked"""
    w = W(eng, st, env["mb"])
    a, b = env["start"].t, env["finish"].t
    S, Y = eset(eng, env["effective_set"], st), eset(eng, env["w"], st)
    some = UPE(w.E, w.KD, a, b, S, Y)
    ok = And(w.node(a), w.node(b))

    def make(s):
        t = fresh(P, "effective")
        for _, f in up_facts(w, t, a, b, S, Y):
            s.assume(f)
        return PathV(t)
    return [ret(make, And(ok, some)), ret(lambda s: NoneV(), And(ok, Not(some))), raises("KeyError", Not(ok))]


def up_facts(w, t, a, b, S, Y):
    return [("result is a path between the nodes", UndPath(w.E, t, a, b)), ("result is not blocked", active(w.E, t, lambda x: mem(Y, x))), ("result is effective", Eff(w.E, w.KD, t, S))]


def up_post(eng, entry, st, env, v):
    w = W(eng, entry, env["mb"])
    a, b = env["start"].t, env["finish"].t
    S, Y = eset(eng, env["effective_set"], entry), eset(eng, env["w"], entry)
    if isinstance(v, NoneV):
        return [("no path is reported only where there is none", Not(UPE(w.E, w.KD, a, b, S, Y)))]
    return up_facts(w, pterm(eng, v, st), a, b, S, Y)


def patterns_req(eng, st, env, mac="macid"):
    w = W(eng, st, env[mac])
    x, y = binder(U, "x"), binder(U, "y")
    return [("every decision belongs to an agent", z3.ForAll([x], Imp(mem(w.KD, x), mem(w.AKU, app(w.DA, x))), patterns=[mem(w.KD, x)])),
            ("utilities have no children", z3.ForAll([x, y], Not(And(mem(w.KU, x), edge(w.E, x, y))), patterns=[edge(w.E, x, y)]))]


def dec_req(eng, st, env):
    return patterns_req(eng, st, env) + [("the decision is a decision", mem(W(eng, st, env["macid"]).KD, env["decision"].t))]


def reach_dec(w, d, b, S):
    return z3.And(mem(w.KD, b), b != d, mem(S, b), DDF(w.E, w.KD, d, b))


def owns(w, d, u):
    """u is listed as a utility of the agent of d"""
    return cnt(w.BU, app(w.DA, d), u) > 0


def helped(w, d, b, S):
    """the agent of d has a utility that b reaches effectively"""
    u = binder(U, "u")
    return z3.Exists([u], z3.And(owns(w, d, u), DPE(w.E, w.KD, b, u, S, NONE)), patterns=[DPE(w.E, w.KD, b, u, S, NONE)])


NONE = defset(lambda x: FALSE, "none")


def p_direct(w, d, S=None):
    u = binder(U, "u")
    return z3.Exists([u], z3.And(owns(w, d, u), DDF(w.E, w.KD, d, u)))


def utils_of(w, b, f):
    u = binder(U, "v")
    return z3.Exists([u], z3.And(owns(w, b, u), f(u)), patterns=[cnt(w.BU, app(w.DA, b), u)])


def p_manip(w, d, S):
    b = binder(U, "b")
    return z3.Exists([b], z3.And(reach_dec(w, d, b, S), helped(w, d, b, S), utils_of(w, b, lambda v: DPE(w.E, w.KD, d, v, S, one(b)))), patterns=[DDF(w.E, w.KD, d, b)])


def one(b):
    return defset(lambda x: x == b, "one")


def given(w, d, b):
    """b and its parents that are not descendants of d"""
    return defset(lambda x: Or(x == b, And(edge(w.E, x, b), Not(RT(w.E, d, x)))), "given")


def p_revden(w, d, S):
    b = binder(U, "b")
    return z3.Exists([b], z3.And(reach_dec(w, d, b, S), helped(w, d, b, S), utils_of(w, b, lambda v: FDE(w.E, w.KD, d, v, S, given(w, d, b)))), patterns=[DDF(w.E, w.KD, d, b)])


def p_signal(w, d, S):
    b, u, p = binder(U, "b"), binder(U, "u"), binder(P, "p")
    k = key(w.E, p)
    return z3.Exists([b, u], z3.And(reach_dec(w, d, b, S), owns(w, d, u), DPE(w.E, w.KD, b, u, S, NONE),
                                   utils_of(w, b, lambda v: z3.Exists([p], z3.And(BDE(w.E, w.KD, p, d, v, S, given(w, d, b)), UPE(w.E, w.KD, k, u, S, given(w, k, d))), patterns=[k]))), patterns=[DPE(w.E, w.KD, b, u, S, NONE)])


class _W:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def crit(f, w, d, S=None):
    return f(w.E, w.KD, w.DA, w.BU, d, *([S] if S is not None else []))


def some_pattern(w, d, S):
    return z3.Or(crit(Direct, w, d), *[crit(f, w, d, S) for f in (Manip, Sig, RevDen)])


def _criteria():
    e, kd, da, bu, d, s, t = z3.Const("e", REL), binder(SET, "kd"), z3.Const("da", MAP), z3.Const("bu", BAG), z3.Const("d", U), z3.Const("s", SET), z3.Const("t", SET)
    e, kd, da, bu, d, s = binder(REL, "e"), binder(SET, "kd"), binder(MAP, "da"), binder(BAG, "bu"), binder(U, "d"), binder(SET, "s")
    w = _W(E=e, KD=kd, DA=da, BU=bu)
    for f, p, vs in ((Direct, p_direct, []), (Manip, p_manip, [s]), (Sig, p_signal, [s]), (RevDen, p_revden, [s])):
        axiom([f], z3.ForAll([e, kd, da, bu, d, *vs], crit(f, w, d, *vs) == p(w, d, *vs), patterns=[crit(f, w, d, *vs)]), "definition of a reasoning pattern")
        EXTRA_OBS.append(f)
    D = lambda s: Dropped(e, kd, da, bu, s)
    x = binder(U, "x")
    EXTRA_OBS.append(Dropped)
    axiom([Dropped], z3.ForAll([e, kd, da, bu], D(kd), patterns=[D(kd)]), "definition of the decisions left: at first all of them")
    axiom([Dropped], z3.ForAll([e, kd, da, bu, s, t], z3.Implies(z3.And(D(s), z3.ForAll([x], mem(t, x) == z3.And(mem(s, x), some_pattern(w, x, s)), patterns=[mem(t, x), mem(s, x)])), D(t)),
                               patterns=[z3.MultiPattern(D(s), D(t))]), "definition of the decisions left: those with a pattern stay")


def all_patterns_post(eng, entry, st, env, v):
    """the lists divide what is left when decisions without a pattern are dropped until nothing changes"""
    w = W(eng, entry, env["mb"])
    c = st.heap.get(v.id) if isinstance(v, Ref) else None
    if not isinstance(c, CellLitDict):
        raise Unsupported("result in another form")
    x = binder(U, "x")
    names = ("dir_effect", "sig", "manip", "rev_den")
    lists = {}
    for n in names:
        hit = [val for k, val in c.items if eng.must(st, eng.eq(k, Atom(strconst(n)), st))]
        if len(hit) != 1:
            return [("the result has an entry for each pattern", FALSE)]
        lists[n] = hit[0]
    sets = {n: eng.setterm(l, st) for n, l in lists.items()}
    left = defset(lambda y: z3.Or(*[mem(s, y) for s in sets.values()]), "left")
    first = [crit(Direct, w, x), crit(Sig, w, x, left), crit(Manip, w, x, left), crit(RevDen, w, x, left)]
    out = [("the result has an entry for each pattern", z3.BoolVal(len(c.items) == 4)),
           ("the decisions listed are those left after dropping decisions without a pattern", Dropped(w.E, w.KD, w.DA, w.BU, left)),
           ("every decision left has a pattern", z3.ForAll([x], Imp(mem(left, x), some_pattern(w, x, left)), patterns=[mem(left, x)]))]
    for i, n in enumerate(names):
        out.append((f"{n} lists the decisions left whose first pattern it is", z3.ForAll([x], mem(sets[n], x) == z3.And(mem(left, x), first[i], *[z3.Not(g) for g in first[:i]]), patterns=[mem(sets[n], x)])))
        cl = eng.coll(lists[n], st)
        if not cl.nodup:
            out.append((f"{n} lists no decision twice", eng.lib.nodup_formula(eng, cl, st)))
    return out


def patterns_hook(eng, s, st, ctx, it):
    if not isinstance(s, ast.While):
        return None
    w = W(eng, eng.entry, eng.args0["mb"])

    def cands(eng, st0, st, done):
        x = binder(U, "x")
        sub = lambda t: z3.ForAll([x], z3.Implies(mem(t, x), mem(w.KD, x)), patterns=[mem(t, x)])
        return [(f"{f}.{n}: decisions", sub(eng.setterm(v, st))) for f, fr in st.frames.items() for n, v in fr.items() if eng.shape(v, st) == "set"] + \
            [(f"{f}.{n}: decisions left", Dropped(w.E, w.KD, w.DA, w.BU, eng.setterm(v, st))) for f, fr in st.frames.items() for n, v in fr.items() if eng.shape(v, st) == "set"]
    return eng.inv_loop(s, st, ctx, it, cands)


def pattern_spec(f):
    def spec(eng, st, env):
        w = W(eng, st, env["macid"])
        d = env["decision"].t
        S = eset(eng, env["effective_set"], st) if "effective_set" in env else None
        x = binder(U, "x")
        bad = Exists([x], And(mem(S, x), Not(w.node(x)))) if S is not None else FALSE
        return [ret(bool_(crit(f, w, d, S)), Not(bad)), raises("KeyError", bad)]
    return spec


def dec_scen(effective=True):
    def build(eng, st):
        m = macid(eng, st, "MACID")
        return None, [m, Atom(uconst("d0"))] + ([SET0("S0")(eng, st)] if effective else []), {}
    return build


def bd_spec(eng, st, env):
    w = W(eng, st, env["mb"])
    a, b = env["start"].t, env["finish"].t
    ok = And(w.node(a), w.node(b))
    S, Y = eset(eng, env["effective_set"], st), eset(eng, env["w"], st)

    def make(s):
        p = binder(P, "p")
        return Coll([Branch([p], BDE(w.E, w.KD, p, a, b, S, Y), PathV(p))], "iter", nodup=True)
    return [ret(make, ok), raises("KeyError", Not(ok))]


_criteria()


def register(reg):
    reg.hooks["get_reasoning_patterns"] = patterns_hook
    reg.add(Contract("get_reasoning_patterns", None, [Scenario("any diagram", lambda eng, st: (None, [macid(eng, st, "MACID")], {}))], lambda eng, st, env: patterns_req(eng, st, env, "mb"), post=all_patterns_post), "C11")
    reg.add(Contract("_path_is_effective", path_is_effective_spec, [Scenario("any path", path_scen)], path_req), "C11")
    reg.add(Contract("_effective_dir_path_exists", rel_spec(DPE), [Scenario("any ends", two(SET0("S0")))]), "C11")
    reg.add(Contract("_effective_undir_path_exists", rel_spec(lambda e, k, a, b, s, y: UP(e, k, a, b, s)), [Scenario("any ends", two(SET0("S0")))]), "C11")
    reg.add(Contract("_directed_effective_path_not_through_set_y", rel_spec(DPE), [Scenario("a set", two(SET0("S0"), SET0("Y0"))), Scenario("no set", two(SET0("S0")))]), "C11")
    reg.add(Contract("_effective_backdoor_paths_not_blocked_by_set_w", bd_spec, [Scenario("a set", two(SET0("S0"), SET0("Y0"))), Scenario("no set", two(SET0("S0")))], differ), "C11")
    reg.add(Contract("_effective_indirect_frontdoor_path_exists", rel_spec(FDE), [Scenario("a set", two(SET0("S0"), SET0("Y0")))], differ), "C11")
    reg.add(Contract("_get_key_node", key_spec, [Scenario("any path", lambda eng, st: (None, path_scen(eng, st)[1][:2], {}))], lambda *a: path_req(*a) + [("the path repeats no node", nodup_path(pterm(a[0], a[2]["path"], a[1])))]), "C11")
    reg.add(Contract("_effective_undir_path_not_blocked_by_set_w", up_spec, [Scenario("a set", two(SET0("S0"), SET0("Y0"))), Scenario("no set", two(SET0("S0")))], obs_nodes, post=up_post), "C11")
    reg.add(Contract("direct_effect", pattern_spec(Direct), [Scenario("any decision", dec_scen(False))], dec_req), "C11")
    reg.add(Contract("manipulation", pattern_spec(Manip), [Scenario("any decision", dec_scen())], dec_req), "C11")
    reg.add(Contract("revealing_or_denying", pattern_spec(RevDen), [Scenario("any decision", dec_scen())], dec_req), "C11")
    reg.add(Contract("signaling", pattern_spec(Sig), [Scenario("any decision", dec_scen())], dec_req), "C11")


def UP(e, kd, a, b, s):
    p = binder(P, "p")
    return z3.Exists([p], z3.And(UndPath(e, p, a, b), Eff(e, kd, p, s)))
