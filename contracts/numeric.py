"""Contracts of the numeric layer: expected values, expected utility, effects (C14)."""
import z3
from pyvc import lib as L
from pyvc.logic import *
from pyvc.values import *
from pyvc.lib import CellModel
from pyvc.verify import *
from pyvc.world import *
from .copying import network

NETARGS = [SET, REL, SET, MAP]                  # nodes, edges, specified variables, relationships
DICT = [SET, MAP]                               # a dictionary variable -> outcome
EV = z3.Function("EV", *NETARGS, *DICT, *DICT, U, R)        # expected value given a context under an intervention
Ans = z3.Function("Answerable", *NETARGS, *DICT, *DICT, SET, B)
numval = z3.Function("numval", U, R)            # the number that an outcome is
congruent(EV, {3: 2, 5: 4, 7: 6})
congruent(Ans, {3: 2, 5: 4, 7: 6})


def atomof(v):
    if isinstance(v, Atom):
        return v.t
    if isinstance(v, Num) and v.t.sort() == I:
        return intatom(v.t)
    raise Unsupported(f"{v!r} as an outcome")


def net(eng, st, ref):
    c = st.heap[ref.id]
    m = st.heap[c.fields["model"].id]
    return (c.nodes, c.E, m.keys, m.m)


def dictterm(eng, st, v):
    if isinstance(v, NoneV):
        return (defset(lambda x: FALSE, "K"), z3.Const("emptymap", MAP))
    c = st.heap[v.id] if isinstance(v, Ref) else None
    if isinstance(c, CellMap):
        return (c.keys, c.m)
    if isinstance(c, CellLitDict):
        ks = [(atomof(k), atomof(w)) for k, w in c.items]
        if not ks:
            return (defset(lambda x: FALSE, "K"), z3.Const("emptymap", MAP))

        def val(x):
            r = ks[0][1]
            for k, w in ks[1:]:
                r = z3.If(x == k, w, r)
            return r
        return (defset(lambda x: Or(*[x == k for k, _ in ks]), "K"), defmap(val, "M") if len(ks) > 1 else defmap(lambda x: ks[0][1], "M"))
    if isinstance(c, CellAbsDict) and not c.coll.branches:
        return (defset(lambda x: FALSE, "K"), z3.Const("emptymap", MAP))
    raise Unsupported(f"{v!r} as a context or intervention")


def ev(eng, st, ref, ctx, itv):
    """the expected value of a variable (an observed variable has the observed value), and whether that of a set is defined"""
    n, c, i = net(eng, st, ref), dictterm(eng, st, ctx), dictterm(eng, st, itv)

    def ok(S):
        T = defset(lambda x: And(mem(S, x), Not(mem(c[0], x))), "S")
        x = binder(U, "x")
        return Or(Not(Exists([x], mem(T, x))), Ans(*n, *c, *i, T))
    none = isinstance(ctx, Ref) and isinstance(st.heap[ctx.id], CellLitDict) and not st.heap[ctx.id].items
    return (lambda x: EV(*n, *c, *i, x) if none else z3.If(mem(c[0], x), numval(app(c[1], x)), EV(*n, *c, *i, x))), ok


def elements(eng, v, st):
    """the set of atoms in a collection"""
    c = eng.iterable(v, st)
    if isinstance(c, Tup):
        return defset(lambda x: Or(*[x == e.t for e in c.items]), "S")
    return eng.setterm(v, st)


def values(eng, s, vs, f):
    """the list of f(x) for the x in vs, in the same order"""
    c = eng.iterable(vs, s)
    if isinstance(c, Tup):
        return s.alloc(CellColl("list", Tup([Num(f(e.t)) for e in c.items], "list")))
    q = eng.seq(vs, s)
    if q is not None:
        return Seq(q.n, lambda i: Num(f(q.at(i).t)), "list", q.raw)
    c = eng.coll(vs, s)
    out = Coll([Branch(b.vars, b.guard, Num(f(b.elem.t))) for b in c.branches], "list")
    out.image = (c, f)
    return s.alloc(CellColl("list", out))


def ev_spec(eng, st, env):
    f, ok = ev(eng, st, env["self"], env["context"], env["intervention"])
    good = ok(elements(eng, env["variables"], st))
    return [ret(lambda s: values(eng, s, env["variables"], f), good), raises("Exception", Not(good))]


def once(eng, st, v):
    """no element is listed twice"""
    c = eng.iterable(v, st)
    if isinstance(c, Tup):
        return And(*[a.t != b.t for i, a in enumerate(c.items) for b in c.items[:i]])
    q = eng.seq(v, st)
    if q is not None:
        i, j = binder(I, "i"), binder(I, "j")
        return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < q.n), q.at(i).t != q.at(j).t), patterns=[z3.MultiPattern(q.at(i).t, q.at(j).t)])
    return z3.BoolVal(True) if eng.coll(v, st).nodup else eng.lib.nodup_formula(eng, eng.coll(v, st), st)


def ev_req(eng, st, env):
    return [("no variable is asked for twice", once(eng, st, env["variables"]))]


def ev_scen(ctx, itv, cls="CausalBayesianNetwork"):
    def build(eng, st):
        m = network(eng, st, cls)
        d = lambda n: st.alloc(CellMap(z3.Const(n + "K", SET), z3.Const(n + "M", MAP)))
        vs = PathV(z3.Const("vars0", P))
        x = binder(U, "x")
        kw = {"context": d("ctx") if ctx else st.alloc(CellLitDict([]))}
        if itv:
            kw["intervention"] = d("do")
        return m, [vs], kw
    return build


# ------------------------------------------------------------------ factors
FacN = z3.Function("FacN", *NETARGS, *DICT, *DICT, SET, X)
fvars = z3.Function("fvars", X, P)              # the axes of a factor
frows = z3.Function("frows", X, SET)            # the positions of its table
prob = z3.Function("prob", X, U, R)             # the entry at a position
coord = z3.Function("coord", U, I, I)           # the coordinate of a position along an axis
outcome = z3.Function("outcome", X, U, I, U)    # the outcome of a variable with a number
congruent(FacN, {3: 2, 5: 4, 7: 6})


def mean(F, x):
    return Sigma(frows(F), defrmap(lambda t: prob(F, t) * numval(outcome(F, x, coord(t, idx(fvars(F), x))))))


def query_spec(eng, st, env):
    n, c, i = net(eng, st, env["self"]), dictterm(eng, st, env["context"]), dictterm(eng, st, env["intervention"])
    S = elements(eng, env["query"], st)
    ok = Ans(*n, *c, *i, S)

    def make(s):
        F = FacN(*n, *c, *i, S)
        x, k = binder(U, "x"), binder(I, "k")
        V = fvars(F)
        s.assume(z3.ForAll([x], z3.Implies(mem(S, x), z3.And(0 <= idx(V, x), idx(V, x) < plen(V), at(V, idx(V, x)) == x)), patterns=[mem(S, x), idx(V, x)]))
        s.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < plen(V)), z3.And(mem(S, at(V, k)), idx(V, at(V, k)) == k)), patterns=[at(V, k)]))
        s.assume(z3.ForAll([x], z3.Implies(mem(S, x), mean(F, x) == EV(*n, *c, *i, x)), patterns=[EV(*n, *c, *i, x)]))
        return Obj(F, "factor")
    return [ret(make, ok), raises("Exception", Not(ok))]


def is_factor(v):
    return isinstance(v, Obj) and v.tag == "factor"


def attr(f):
    f.is_attr = True
    return f


L.EXTRA["factor.variables"] = attr(lambda eng, v, st: PathV(fvars(v.t)))
L.EXTRA["factor.values"] = attr(lambda eng, v, st: Lib("factortable", None, (v,)))
L.EXTRA["factor.state_names"] = attr(lambda eng, v, st: Lib("factorstates", None, (v,)))
L.EXTRA["getitem:factorstates"] = lambda eng, v, k, st: [(st, Lib("factoroutcomes", None, (v.data[0], k)))]
L.EXTRA["getitem:factoroutcomes"] = lambda eng, v, k, st: [(st, Atom(outcome(v.data[0].t, v.data[1].t, k.t)))]
L.EXTRA["getitem:position"] = lambda eng, v, k, st: [(s, r or Num(coord(v.t, k.t))) for s, r in eng.guarded(st, z3.And(0 <= k.t, k.t < plen(fvars(v.data[0].t))), "IndexError")]


def c_ndenumerate(eng, fv, args, kw, st):
    if not (isinstance(args[0], Lib) and args[0].name == "factortable"):
        return None
    F, = args[0].data
    b = binder(U, "t")
    return [(st, Coll([Branch([b], mem(frows(F.t), b), Tup([Obj(b, "position", (F,)), Num(prob(F.t, b))]))], "iter", nodup=True))]


def c_array(eng, fv, args, kw, st):
    q = eng.seq(eng.iterable(args[0], st), st)
    if q is None:
        raise Unsupported("array of an unordered collection")
    num = lambda v: v if isinstance(v, Num) and v.t.sort() == R else Num(z3.ToReal(v.t)) if isinstance(v, Num) else Num(numval(v.t))
    return [(st, Seq(q.n, lambda i: num(q.at(i)), "array", q.raw))]


def array_op(eng, op, a, b, st):
    isarr = lambda v: isinstance(v, Seq) and v.kind == "array"
    if not (isarr(a) or isarr(b)):
        return None
    if isarr(a) and isarr(b):
        if not eng.must(st, a.n == b.n):
            raise Unsupported("arrays of different shapes")
        n = a
    else:
        n = a if isarr(a) else b
    if not all(isarr(v) or isinstance(v, Num) for v in (a, b)):
        raise Unsupported("array arithmetic")
    r = lambda v, i: (v.at(i) if isarr(v) else v)

    def at_(i):
        x, y = r(a, i), r(b, i)
        return next(v for s, v in eng.binop(op, x, y, st))
    return [(st, Seq(n.n, at_, "array", n.raw))]


L.EXTRA["numpy.ndenumerate"] = c_ndenumerate
L.EXTRA["numpy.array"] = c_array
L.EXTRA["binop"] = array_op
L.EXTRA["numpy.isnan"] = lambda eng, fv, args, kw, st: [(st, Lib("nonans"))]     # real numbers only
L.EXTRA["nonans.any"] = lambda eng, fv, args, kw, st: [(st, BoolV(FALSE))]
L.EXTRA[".any"] = lambda eng, fv, args, kw, st: [(st, BoolV(FALSE))] if isinstance(fv.selfv, Lib) and fv.selfv.name == "nonans" else None
L.EXTRA[".tolist"] = lambda eng, fv, args, kw, st: [(st, Seq(fv.selfv.n, fv.selfv.at, "list", fv.selfv.raw))] if isinstance(fv.selfv, Seq) else None
L.EXTRA[".normalize"] = lambda eng, fv, args, kw, st: [(st, fv.selfv if "inplace" in kw else NoneV())] if is_factor(fv.selfv) else None
L.EXTRA["float"] = lambda eng, fv, args, kw, st: [(st, Num(numval(args[0].t)))] if isinstance(args[0], Atom) and args[0].py is None else None


# ------------------------------------------------------------------ sums
def c_sum(eng, fv, args, kw, st):
    c = eng.iterable(args[0], st)
    if isinstance(c, Tup) and all(isinstance(e, Num) for e in c.items):
        t = z3.RealVal(0)
        for e in c.items:
            t = t + e.t
        return [(st, Num(t))]
    if not isinstance(c, Coll) or len(c.branches) != 1:
        return None
    src = getattr(c, "image", None)
    b = c.branches[0]
    if len(b.vars) == 1 and b.vars[0].sort() == U and isinstance(b.elem, Num) and (c.nodup or src and src[0].nodup):
        v = b.vars[0]
        S = defset(lambda x: z3.substitute(b.guard, (v, x)), "S")
        return [(st, Num(Sigma(S, defrmap(lambda x: z3.substitute(b.elem.t, (v, x))))))]
    raise Unsupported("sum")


L.EXTRA["sum"] = c_sum


# ------------------------------------------------------------------ expected utility, effects
def utilities(w, a):
    return defset(lambda u: And(mem(w.KU, u), app(w.UA, u) == a), "Us")


def eu(eng, st, ref, ctx, itv, a):
    w = W(eng, st, ref)
    f, ok = ev(eng, st, ref, ctx, itv)
    S = utilities(w, a)
    return Sigma(S, defrmap(f)), ok(S), mem(w.AKU, a)


def eu_spec(eng, st, env):
    v, ok, known = eu(eng, st, env["self"], env["context"], env["intervention"], atomof(env["agent"]))
    return [ret(lambda s: Num(v), And(known, ok)), raises("KeyError", Not(known)), raises("Exception", And(known, Not(ok)))]


def eu_scen(cls, ctx=True, agent=True, itv=True):
    def build(eng, st):
        m = macid(eng, st, cls)
        d = lambda n: st.alloc(CellMap(z3.Const(n + "K", SET), z3.Const(n + "M", MAP)))
        kw = {"context": d("ctx")}
        if itv:
            kw["intervention"] = d("do")
        if agent:
            kw["agent"] = Atom(uconst("agent0"))
        return m, [], kw
    return build


def single(eng, st, x):
    return defset(lambda y: y == x, "S")


def do(eng, a, v):
    return (defset(lambda x: x == a, "K"), defmap(lambda x: v, "M"))


NODICT = lambda: (defset(lambda x: FALSE, "K"), z3.Const("emptymap", MAP))


def te(eng, st, env, x):
    n, a = net(eng, st, env["cid"]), env["a"].t
    e = [EV(*n, *NODICT(), *do(eng, a, atomof(env[k])), x) for k in ("a0", "a1")]
    ok = And(*[Ans(*n, *NODICT(), *do(eng, a, atomof(env[k])), single(eng, st, x)) for k in ("a0", "a1")])
    return e[1] - e[0], ok


def te_spec(eng, st, env):
    v, ok = te(eng, st, env, env["x"].t)
    return [ret(lambda s: Num(v), ok), raises("Exception", Not(ok))]


def ite_spec(eng, st, env):
    d, ok1 = te(eng, st, env, env["d"].t)
    y, ok2 = te(eng, st, env, env["y"].t)
    flip = And(eng.truth(env["adapt_marginalized"], st), y < 0)
    v = z3.If(flip, y - d, d - y)
    return [ret(lambda s: Num(v), And(ok1, ok2)), raises("Exception", Not(And(ok1, ok2)))]


def te_scen(names, defaults, adapt=None):
    def build(eng, st):
        m = macid(eng, st, "CID")
        kw = {} if defaults else {"a0": Atom(uconst("o0")), "a1": Atom(uconst("o1"))}
        if adapt:
            kw["adapt_marginalized"] = BoolV(z3.Const("adapt0", B))
        return None, [m] + [Atom(uconst(n)) for n in names], kw
    return build


def register(reg):
    reg.assume("C14 C16 C22", "the numbers are real numbers (no rounding, no NaN)")
    reg.add(Contract("CausalBayesianNetwork.query", query_spec, []))
    reg.add(Contract("CausalBayesianNetwork.expected_value", ev_spec, [Scenario("context and intervention", ev_scen(True, True)), Scenario("no intervention", ev_scen(True, False)),
                                                                       Scenario("no context", ev_scen(False, True))], ev_req), "C14")
    reg.add(Contract("MACIDBase.expected_utility", eu_spec, [Scenario(f"a {c}", eu_scen(c)) for c in ("MACIDBase", "CID")] +
                     [Scenario("default agent", eu_scen("CID", agent=False)), Scenario("no intervention", eu_scen("MACID", itv=False))]), "C14")
    reg.add(Contract("total_effect", te_spec, [Scenario("any diagram", te_scen(("a", "x"), False)), Scenario("default outcomes", te_scen(("a", "x"), True))]), "C14")
    reg.add(Contract("introduced_total_effect", ite_spec, [Scenario("any diagram", te_scen(("a", "d", "y"), False, True)), Scenario("default adaptation", te_scen(("a", "d", "y"), False)),
                                                            Scenario("default outcomes", te_scen(("a", "d", "y"), True))]), "C14")
