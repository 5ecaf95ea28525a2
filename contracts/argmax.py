"""Contracts of the optimal policies (C16): the search for the largest expected utility."""
import ast
import z3
from pyvc import lib as L
from pyvc.logic import *
from pyvc.values import *
from pyvc.interp import expand
from pyvc.lib import CellModel, isDD, last3
from pyvc.verify import *
from pyvc.world import *
from . import lemmas
from .core import rr, owned, MEC
from .numeric import EV, Ans, net, eu
from .optimal import domOf

close = z3.Function("close", R, R, R, B)        # math.isclose(x, y, rel_tol=r)
minusInf = z3.Const("minusInf", R)
Pols = z3.Function("Policies", REL, SET, MAP, SET)      # the pure policies of decisions: edges, decisions, their domains
prel = z3.Function("rule", U, U, U)             # the decision rule of a policy for a decision
cpdRel = z3.Function("tableOf", U, U)           # the table object of a relationship, where every variable has one
randomRule = z3.Function("randomRule", U, U)    # the uniform decision rule over a domain
congruent(Pols, {2: 1})
x_, y_, z_, r_ = z3.Reals("x_ y_ z_ r_")
FA = z3.ForAll
mag = lambda a: z3.If(a < 0, -a, a)
top = lambda a, b: z3.If(mag(a) < mag(b), mag(b), mag(a))
near = lambda r, x, y: mag(x - y) <= r * top(x, y)
isclose = lambda r, x, y: z3.Or(x == y, z3.And(x != minusInf, y != minusInf, near(r, x, y)))     # what the library documents
axiom([close], FA([r_, x_], z3.Implies(r_ >= 0, close(r_, x_, x_)), patterns=[close(r_, x_, x_)]), "every number is close to itself")
axiom([close], FA([r_, x_, y_, z_], z3.Implies(z3.And(0 <= r_, r_ <= 1, minusInf <= z_, close(r_, x_, z_), z_ <= y_, y_ <= x_), close(r_, y_, z_)), patterns=[z3.MultiPattern(close(r_, x_, z_), close(r_, y_, z_))]),
      "numbers between close numbers are close")
axiom([close], FA([r_, x_], z3.Implies(x_ != minusInf, z3.Not(close(r_, x_, minusInf))), patterns=[close(r_, x_, minusInf)]), "no number is close to minus infinity")


def c_isclose(eng, fv, args, kw, st):
    r = kw.get("rel_tol")
    if len(args) != 2 or set(kw) - {"rel_tol"} or not all(isinstance(a, Num) for a in args) or r is not None and not isinstance(r, Num):
        raise Unsupported("math.isclose")
    real = lambda v: v if v.sort() == R else z3.ToReal(v)
    return [(st, BoolV(close(real(r.t) if r is not None else z3.RealVal("1e-9"), *[real(a.t) for a in args])))]


def c_float(eng, fv, args, kw, st):
    if len(args) == 1 and isinstance(args[0], Atom) and args[0].py == "-inf":
        return [(st, Num(minusInf))]
    return old_float(eng, fv, args, kw, st) if old_float else None


old_float = L.EXTRA.get("float")
L.EXTRA["float"] = c_float
L.EXTRA["math.isclose"] = c_isclose


def get_cpds(eng, fv, args, kw, st):
    """in a fully specified diagram the table of a variable is made from its relationship"""
    if not st.ghost.get("specified") or len(args) != 1:
        return None
    c = st.heap[fv.selfv.id]
    m = st.heap[c.fields["model"].id]
    return [(s, r or Obj(cpdRel(app(m.m, args[0].t)), "cpd")) for s, r in eng.guarded(st, And(mem(c.nodes, args[0].t), mem(m.keys, args[0].t)), "ValueError")]


L.EXTRA[".get_cpds"] = get_cpds


def policy_iter(eng, v, st):
    x = binder(U, "x")
    return Coll([Branch([x], mem(v.data[0], x), Obj(prel(v.t, x), "rel"))], "iter", nodup=True)


L.EXTRA["iter:policy"] = policy_iter


# ------------------------------------------------------------------ assumed contracts
def random_spec(eng, st, env):
    w = W(eng, st, env["self"])
    d = env["d"].t

    def make(s):
        M = w.MR
        s.set(w.c.fields["model"], CellModel(w.MK, defmap(lambda x: z3.If(x == d, randomRule(domOf(app(M, x))), app(M, x)), "M"), fresh(X, "tab")))
        return NoneV()
    return [ret(make, mem(w.MK, d)), raises("ValueError", Not(mem(w.MK, d)))]


def policies(w, S, M=None):
    M = w.MR if M is None else M
    return Pols(w.E, S, defmap(lambda x: domOf(app(M, x)), "D"))


def pols_spec(eng, st, env):
    w = W(eng, st, env["self"])
    D = eng.setterm(env["decision_nodes"], st)
    p = binder(U, "p")
    return [ret(lambda s: Coll([Branch([p], mem(policies(w, D), p), Obj(p, "policy", (D,)))], "iter", nodup=True))]


def add_spec(eng, st, env):
    """the rules of a policy become the relationships of its decisions"""
    w = W(eng, st, env["self"])
    c = env["cpds"]
    if not (isinstance(c, Coll) and len(c.branches) == 1 and isinstance(c.branches[0], Branch) and isinstance(env.get("relationships"), Ref) and not st.heap[env["relationships"].id].items):
        raise Unsupported("adding other distributions than a policy")
    (v,), g, e = c.branches[0].inst()
    if not (isinstance(e, Obj) and e.t.decl().eq(prel) and e.t.arg(1).eq(v)):
        raise Unsupported("adding other distributions than a policy")
    p = e.t.arg(0)

    def make(s):
        M, K = w.MR, w.MK
        D = lambda x: z3.substitute(g, (v, x))
        s.set(w.c.fields["model"], CellModel(defset(lambda x: Or(mem(K, x), D(x)), "K"), defmap(lambda x: z3.If(D(x), prel(p, x), app(M, x)), "M"), fresh(X, "tab")))
        return NoneV()
    return [ret(make)]


# ------------------------------------------------------------------ the search
def is_policies(eng, it):
    return isinstance(it, Coll) and len(it.branches) == 1 and isinstance(it.branches[0], Branch) and isinstance(it.branches[0].elem, Obj) and it.branches[0].elem.tag == "policy"


def argmax_hook(eng, s, st, ctx, it):
    """a loop over the policies of a diagram that keeps a number and a list of policies"""
    if not isinstance(s, ast.For):
        return None
    if isinstance(it, (Lib, Ref)):
        try:
            it = eng.coll(it, st)
        except Unsupported:
            return None
    if is_policies(eng, it):
        return argmax_rule(eng, s, st, ctx, it)
    return each_rule(eng, s, st, ctx, it) if isinstance(it, Coll) and len(it.branches) == 1 and isinstance(it.branches[0], Branch) and isinstance(it.branches[0].elem, Atom) else None


argmax_hook.anywhere = "MACIDBase.optimal_pure_policies"       # also in helpers that it calls


def each_rule(eng, s, st, ctx, it):
    """a loop over names in which every iteration changes the relationship of that name only (which is proved of the body)"""
    fr = ctx.chain[-1]
    vs, g, e = it.branches[0].inst()
    if len(vs) != 1 or not e.t.eq(vs[0]):
        return None
    x = binder(U, "d")
    g = z3.substitute(g, (vs[0], x))
    stored = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

    def body(b):
        for b1, r in eng.bind_target(s.target, Atom(x), b, ctx):
            if isinstance(r, Raised):
                yield b1, ("raise", r.exc)
            else:
                yield from eng.ex(s.body, b1, ctx)

    def forgetful(b):
        for n in stored:
            if n in b.frames[fr]:
                b.frames[fr][n] = Unknown()
        return b
    side0 = len(eng.side)
    probe = forgetful(st.clone()).assume(g)
    before, changed = probe.clone(), set()
    for s1, o in body(probe):
        if o is not None and o[0] not in ("continue", "raise"):
            return None
        changed |= {h for h in before.heap if s1.heap[h] is not before.heap[h]}
    if len(changed) != 1 or not isinstance(st.heap[h := changed.pop()], CellModel):
        del eng.side[side0:]
        return None
    del eng.side[side0:]
    return each_go(eng, s, st, ctx, h, x, g, body, forgetful, it.nodup)


def each_go(eng, s, st, ctx, h, x, g, body, forgetful, nodup):
    m0 = st.heap[h]
    K0, M0, n0 = m0.keys, m0.m, len(st.pc)
    if not nodup:
        raise Unsupported("a loop that may visit a name twice")
    hK, hM = fresh(SET, "hK"), fresh(MAP, "hM")
    y = binder(U, "y")
    b = forgetful(st.clone()).assume(g)
    # what other iterations have done to other names is not known, only that a name that had a relationship has one
    K, M = defset(lambda z: z3.If(z == x, mem(K0, z), mem(hK, z)), "K"), defmap(lambda z: z3.If(z == x, app(M0, z), app(hM, z)), "M")
    b.assume(FA([y], z3.Implies(mem(K0, y), mem(hK, y)), patterns=[mem(hK, y)]))
    b.heap[h] = CellModel(K, M, fresh(X, "tab"))
    b0, n1, outs = b.clone(), len(b.pc), []
    own = {hK.decl().name(), hM.decl().name()}
    for b1, o in body(b):
        c = b1.heap[h]
        if o is not None and o[0] == "raise":
            t = b1.clone()
            t.heap[h] = CellUnknown()
            yield t, o
            continue
        if o is not None and o[0] != "continue" or any(k != h and b1.heap[k] is not b0.heap[k] for k in b0.heap):
            raise Unsupported("a loop over names that changes other state")
        z = binder(U, "z")
        lab = "loop over names: "
        if c is not b0.heap[h]:
            eng.side.append((lab + "other names keep their relationships", list(b1.pc), ForAll([z], Imp(z != x, And(app(c.m, z) == app(M, z), mem(c.keys, z) == mem(K, z))))))
            eng.side.append((lab + "names keep having relationships", list(b1.pc), Imp(mem(K0, x), mem(c.keys, x))))
            if len(b1.fresh) > len(b0.fresh):
                raise Unsupported("an iteration depends on an unspecified value")
        outs.append((And(*b1.pc[n1:]), b1.fresh[len(b0.fresh):], c, c is not b0.heap[h]))
    # the state of the own name in terms of the state before the loop
    def at(f, z):
        f = z3.simplify(expand(f))
        names, todo, seen = set(consts_of(f)[1]), list(consts_of(f)[0]), set()
        while todo:
            n = todo.pop()
            if n not in seen:
                seen.add(n)
                for ax in DEFS.get(n, []):
                    a, b = consts_of(ax)
                    names |= set(b)
                    todo += list(a)
        if names & own:
            raise Unsupported("an iteration depends on what earlier ones did to other names")
        return z3.substitute(f, (x, z))
    M1, K1 = M0, K0
    if any(w for *_, w in outs):
        def fold(z, get, init):
            t = init(z)
            for pc, fs, c, w in outs:
                if w:
                    t = z3.If(at(And(g, pc), z), at(get(c), z), t)
            return t
        M1 = defmap(lambda z: fold(z, lambda c: app(c.m, x), lambda z: app(M0, z)), "M")
        K1 = defset(lambda z: fold(z, lambda c: mem(c.keys, x), lambda z: mem(K0, z)), "K")
    d = forgetful(st.clone())
    d.heap[h] = CellModel(K1, M1, fresh(X, "tab"))
    yield from eng.ex(s.orelse, d, ctx)


def model_of(eng, st, ids):
    hits = [h for h in ids if isinstance(st.heap[h], CellModel)]
    gs = [h for h, c in st.heap.items() if isinstance(c, CellGraph) and "model" in c.fields and c.fields["model"].id in hits]
    if len(hits) != 1 or len(gs) != 1:
        raise Unsupported("a search for the best policy in another form")
    return Ref(gs[0]), Ref(hits[0])


def argmax_rule(eng, s, st, ctx, it):
    (v,), g, e = it.branches[0].inst()
    P, D = g.arg(0), e.data[0]
    fr = ctx.chain[-1]
    stored = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    names = stored | {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name)}
    best = [n for n in names if isinstance(st.frames[fr].get(n), Num) and st.frames[fr][n].t.eq(minusInf)]
    found = [n for n in names if isinstance(w := st.frames[fr].get(n), Ref) and isinstance(c := st.heap[w.id], CellColl) and c.kind == "list" and not (c.content.items if isinstance(c.content, Tup) else c.content.branches)]
    if len(best) != 1 or len(found) != 1:
        raise Unsupported("a search for the best policy in another form")
    best, found = best[0], found[0]
    # which diagram changes: run the body once
    probe = st.clone()
    p = fresh(U, "p")
    probe.assume(mem(P, p))
    side0 = len(eng.side)

    def body(b, p):
        for b1, r in eng.bind_target(s.target, Obj(p, "policy", (D,)), b, ctx):
            if isinstance(r, Raised):
                yield b1, ("raise", r.exc)
            else:
                yield from eng.ex(s.body, b1, ctx)
    before = probe.clone()
    changed = set()
    for s1, o in body(probe, p):
        changed |= {h for h in before.heap if s1.heap[h] is not before.heap[h]}
    del eng.side[side0:]
    lst = st.frames[fr][found]
    graph, model = model_of(eng, st, changed)
    if changed - {lst.id, model.id}:
        raise Unsupported("the search changes other state")
    m0 = st.heap[model.id]
    K0, M0 = m0.keys, m0.m
    agent = agent_of(eng, st, ctx)
    none = st.alloc(CellLitDict([]))

    def value(p):
        """the expected utility under a policy"""
        t = st.clone()
        t.heap[model.id] = CellModel(defset(lambda x: Or(mem(K0, x), mem(D, x)), "K"), defmap(lambda x: z3.If(mem(D, x), prel(p, x), app(M0, x)), "M"), m0.tabs)
        return eu(eng, t, graph, none, NoneV(), agent)
    UP = z3.Function(f"value!{fresh(U).decl().name()}", U, R)
    q = binder(U, "q")
    val, ok, known = value(q)
    defs = [FA([q], UP(q) == val, patterns=[UP(q)]), FA([q], z3.Implies(mem(P, q), And(UP(q) > minusInf, ok)), patterns=[UP(q), mem(P, q)])]
    st.assume(defs[0])
    eng.argmax = (P, UP)
    r = eng.args0["rel_tol"].t
    x, a = binder(U, "x"), binder(U, "a")

    def inv(done, S, m, K, M):
        """S, done: predicates"""
        return [("listed policies are close to the best", FA([x], Imp(S(x), And(done(x), close(r, UP(x), m))), patterns=[UP(x)])),
                ("no policy is better, unless it is close", FA([x], Imp(done(x), z3.Or(UP(x) <= m, close(r, UP(x), m))), patterns=[UP(x)])),
                ("the best policies are listed", FA([x], Imp(z3.And(done(x), UP(x) >= m), S(x)), patterns=[UP(x)])),
                ("the best value is that of a listed policy", z3.Or(And(m == minusInf, FA([x], Not(done(x)), patterns=[UP(x)])), z3.Exists([a], z3.And(S(a), UP(a) == m), patterns=[UP(a)]))),
                ("the other relationships stay", And(FA([x], Imp(Not(mem(D, x)), app(M, x) == app(M0, x)), patterns=[app(M, x)]) if not M.eq(M0) else TRUE,
                                                     FA([x], Imp(Not(mem(D, x)), mem(K, x) == mem(K0, x)), patterns=[mem(K, x)]) if not K.eq(K0) else TRUE))]
    lab = "best policy invariant: "
    no = lambda x: FALSE
    for l, f in inv(no, no, minusInf, K0, M0):
        eng.side.append((lab + l + " (entry)", list(st.pc), f))
    b = st.clone()
    S, done, m, K, M = fresh(SET, "best"), fresh(SET, "done"), fresh(R, "m"), fresh(SET, "K"), fresh(MAP, "M")
    b.assume(defs[1])
    for l, f in inv(lambda x: mem(done, x), lambda x: mem(S, x), m, K, M):
        b.assume(f)
    b.assume(FA([x], z3.Implies(mem(done, x), mem(P, x)), patterns=[mem(done, x)]))
    b.assume(z3.And(mem(P, p), z3.Not(mem(done, p)), UP(p) == UP(p)))
    for n in stored:
        if n in b.frames[fr]:
            b.frames[fr][n] = Unknown()
    coll = setcoll(S, "list")
    branch = Branch(coll.branches[0].vars, coll.branches[0].guard, Obj(coll.branches[0].elem.t, "policy", (D,)))
    ref = b.alloc(CellColl("list", Coll([branch], "list", nodup=True)))
    b.frames[fr][found] = ref
    b.frames[fr][best] = Num(m)
    b.heap[model.id] = CellModel(K, M, fresh(X, "tab"))
    b0 = b.clone()
    for b1, o in body(b, p):
        if o is not None and o[0] == "raise":
            if eng.must(b1, FALSE, 3000):
                continue
            yield b1, o
            continue
        if o is not None and o[0] != "continue":
            raise Unsupported(f"{o[0]} inside the search")
        for h in b0.heap:
            if h not in (ref.id, model.id) and b1.heap[h] is not b0.heap[h]:
                raise Unsupported("the search changes other state")
        w, n = b1.frames[fr][found], b1.frames[fr][best]
        if not isinstance(w, Ref) or not isinstance(n, Num) or not isinstance(b1.heap[w.id], CellColl):
            raise Unsupported("a search for the best policy in another form")
        k = b1.heap[w.id].content
        items = k.items if isinstance(k, Tup) else [y.elem for y in k.branches if y is not branch]
        old = not isinstance(k, Tup) and branch in k.branches
        if any(not (isinstance(y, Obj) and y.tag == "policy") for y in items) or not isinstance(k, Tup) and any(y.vars or not z3.is_true(y.guard) for y in k.branches if y is not branch):
            raise Unsupported("a search for the best policy in another form")
        if len(items) > 1:
            raise Unsupported("adding several policies at once")
        if old and items:
            eng.side.append((lab + "no policy is listed twice", list(b1.pc), Not(mem(S, items[0].t))))
        nS = lambda x: Or(mem(S, x) if old else FALSE, *[x == y.t for y in items])
        c = b1.heap[model.id]
        for l, f in inv(lambda x: Or(mem(done, x), x == p), nS, n.t, c.keys, c.m):
            eng.side.append((lab + l + " (kept)", list(b1.pc), f))
    d = st.clone()
    S, m, K, M = fresh(SET, "best"), fresh(R, "m"), fresh(SET, "K"), fresh(MAP, "M")
    d.assume(defs[1])
    for l, f in inv(lambda x: mem(P, x), lambda x: mem(S, x), m, K, M):
        d.assume(f)
    for n in stored:
        if n in d.frames[fr]:
            d.frames[fr][n] = Unknown()
    coll = setcoll(S, "list")
    branch = Branch(coll.branches[0].vars, coll.branches[0].guard, Obj(coll.branches[0].elem.t, "policy", (D,)))
    d.frames[fr][found] = d.alloc(CellColl("list", Coll([branch], "list", nodup=True)))
    d.frames[fr][best] = Num(m)
    d.heap[model.id] = CellModel(K, M, fresh(X, "tab"))
    d.ghost["best"] = (P, UP, m)
    yield from eng.ex(s.orelse, d, ctx)


def agent_of(eng, st, ctx):
    """the agent of the decisions (any one of them)"""
    w = W(eng, eng.entry, eng.args0["self"])
    D = eng.setterm(eng.args0["decisions"], eng.entry)
    d = z3.Const("someDecision", U)
    st.assume(mem(D, d))
    return Atom(app(w.DA, d)).t


def final(w, D):
    """the relationships after unreached decisions without a policy have been given one"""
    d = binder(U, "d")
    reached = lambda x: Exists([d], And(mem(D, d), rr(w, d, x)))
    return defmap(lambda x: z3.If(And(mem(w.KD, x), isDD(cpdRel(app(w.MR, x))), Not(reached(x)), Not(mem(D, x))), randomRule(domOf(app(w.MR, x))), app(w.MR, x)), "M")


def opt_spec(eng, st, env):
    w = W(eng, st, env["self"])
    D = eng.setterm(env["decisions"], st)
    d, e = binder(U, "d"), binder(U, "e")
    some = Exists([d], mem(D, d))
    unknown = Exists([d], And(mem(D, d), Not(mem(w.KD, d))))
    several = Exists([d, e], And(mem(D, d), mem(D, e), app(w.DA, d) != app(w.DA, e)))
    return [ret(lambda s: NoneV(), Or(Not(some), And(Not(unknown), Not(several)))), raises("KeyError", unknown), raises("ValueError", And(Not(unknown), several))]


def opt_post(eng, entry, st, env, v):
    w = W(eng, entry, env["self"])
    D = eng.setterm(env["decisions"], entry)
    x, y = binder(U, "x"), binder(U, "y")
    some = Exists([x], mem(D, x))
    if eng.kind(v, st) != "list":
        return [("returns a list", FALSE)]
    c = eng.coll(v, st)
    inres = lambda p: eng.member(Obj(p, "policy"), c, st)
    if "best" not in st.ghost:
        return [("a search takes place", Not(some)), ("without decisions there are no policies", ForAll([x], Not(inres(x))))]
    P, UP, m = st.ghost["best"]
    ref = env["self"]
    M1 = final(w, D)
    d0 = z3.Const("someDecision", U)

    def value(p):
        t = entry.clone()
        t.heap[w.c.fields["model"].id] = CellModel(w.MK, defmap(lambda x: z3.If(mem(D, x), prel(p, x), app(M1, x)), "M"), w.TAB)
        return eu(eng, t, ref, t.alloc(CellLitDict([])), NoneV(), app(w.DA, d0))[0]
    p = fresh(U, "p")
    r = env["rel_tol"].t
    P1 = policies(w, D)
    return [("there are decisions", some),
            ("the policies compared are those of the decisions", ForAll([x], mem(P, x) == mem(P1, x))),
            ("they are compared by the agent's expected utility, given the policies of others", UP(p) == value(p)),
            ("only policies of the decisions are listed", ForAll([x], Imp(inres(x), mem(P, x)))),
            ("every best policy is listed", ForAll([x], Imp(And(mem(P, x), ForAll([y], Imp(mem(P, y), UP(y) <= UP(x)))), inres(x)))),
            ("listed policies are the best up to the tolerance", And(ForAll([x], Imp(inres(x), close(r, UP(x), m))), ForAll([y], Imp(mem(P, y), z3.Or(UP(y) <= m, close(r, UP(y), m)))))),
            ("if there is a policy, some are listed", Imp(Exists([x], mem(P, x)), Exists([x], And(inres(x), UP(x) == m)))),
            ("no policy is listed twice", z3.BoolVal(c.nodup) if c.nodup else eng.lib.nodup_formula(eng, c, st))]


def specified(eng, st, env):
    w = W(eng, st, env["self"])
    x, a = binder(U, "x"), binder(U, "a")
    out = [("no variable is named like a mechanism", z3.ForAll([x], z3.Implies(mem(w.N, x), last3(x) != MEC), patterns=[mem(w.N, x)])),
           ("every node has a relationship", z3.ForAll([x], z3.Implies(mem(w.N, x), mem(w.MK, x)), patterns=[mem(w.N, x)])),
           ("every decision's agent has utilities", z3.ForAll([x], z3.Implies(mem(w.KD, x), mem(w.AKU, app(w.DA, x))), patterns=[app(w.DA, x)])),
           ("the tolerance is between zero and one", z3.And(0 <= env["rel_tol"].t, env["rel_tol"].t <= 1))]
    return out


def opt_scen(kind, tol):
    def build(eng, st):
        st.ghost["specified"] = True
        st.assume(mec_axiom())
        m = macid(eng, st)
        D = z3.Const("D0", SET)
        kw = {"rel_tol": Num(z3.Const("tol0", R))} if tol else {}
        return m, [st.alloc(CellColl(kind, setcoll(D, kind)))], kw
    return build


def register(reg):
    if "every number is close to itself" not in LEMMAS:
        definition = FA([r_, x_, y_], close(r_, x_, y_) == isclose(r_, x_, y_), patterns=[close(r_, x_, y_)])
        lemmas.proof("every number is close to itself", choice=[definition])
        lemmas.proof("numbers between close numbers are close",
                     ("in numbers", FA([r_, x_, y_, z_], z3.Implies(z3.And(0 <= r_, r_ <= 1, minusInf <= z_, isclose(r_, x_, z_), z_ <= y_, y_ <= x_), isclose(r_, y_, z_))), []), choice=[definition])
        lemmas.proof("no number is close to minus infinity", choice=[definition])
    reg.hooks["MACIDBase.optimal_pure_policies"] = argmax_hook
    reg.assume("C16", "MACIDBase.pure_policies lists every pure policy once (that is C15); it depends on the graph and on the decisions' domains only")
    reg.assume("C16", "add_cpds makes the rules of a policy the relationships of its decisions, impute_random_decision that of one decision the uniform rule over its domain; domains stay")
    reg.assume("C16", "the diagram is specified: every node has a relationship, which determines its table, and expected utilities are defined (finite numbers) for every policy compared")
    reg.add(Contract("MACIDBase.impute_random_decision", random_spec, []))
    reg.add(Contract("MACIDBase.pure_policies", pols_spec, []))
    reg.add(Contract("CausalBayesianNetwork.add_cpds", add_spec, []))
    reg.add(Contract("MACIDBase.optimal_pure_policies", opt_spec, [Scenario("a set of decisions", opt_scen("set", True)), Scenario("a list of decisions, default tolerance", opt_scen("list", False))], specified, post=opt_post), "C16")
