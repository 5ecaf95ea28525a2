"""Contracts of random distributions (C20): numpy's global random state is a ghost cell of the heap."""
import ast
import z3
from pyvc import lib as L
from pyvc.logic import *
from pyvc.values import *
from pyvc.lib import CellGhost, CellRMap
from pyvc.verify import *
from pyvc.world import *
from . import lemmas
from .numeric import array_op, attr

RNG = -1                                        # the heap cell of the random state
seeded = z3.Function("seeded", I, X)            # the state after seeding
stepped = z3.Function("stepped", X, I, R, X)    # the state after drawing
drawn = z3.Function("drawn", X, I, R, X)        # the vector drawn from a symmetric Dirichlet distribution
drawnint = z3.Function("drawnint", X, I, I, I)
hashOf = z3.Function("hashOf", SET, MAP, I)     # the hash of a set of pairs
ventry = z3.Function("ventry", X, I, R)
vsum = z3.Function("vsum", X, I, R)             # the sum of the first entries
isfinite = z3.Function("vfinite", X, B)
hasnan = z3.Function("vnan", X, B)
onehot = z3.Function("onehot", I, X)
psum = z3.Function("psum", RMAP, P, I, R)       # the sum of the values of the first elements of a list
pdiff = z3.Function("pdiff", RMAP, P, X, I)
congruent(hashOf, {1: 0})
v_, F_, p_ = z3.Const("v_", X), z3.Const("F_", RMAP), z3.Const("p_", P)
i_, k_ = z3.Ints("i_ k_")
FA = z3.ForAll
axiom([vsum], FA([v_], vsum(v_, 0) == 0, patterns=[z3.MultiPattern(vsum(v_, 0))]), "definition of the sum of a vector")
axiom([vsum], FA([v_, k_], z3.Implies(k_ >= 0, vsum(v_, k_ + 1) == vsum(v_, k_) + ventry(v_, k_)), patterns=[vsum(v_, k_ + 1)]), "definition of the sum of a vector")
axiom([psum], FA([F_, p_], psum(F_, p_, 0) == 0, patterns=[z3.MultiPattern(psum(F_, p_, 0))]), "definition of the sum over a list")
axiom([psum], FA([F_, p_, k_], z3.Implies(k_ >= 0, psum(F_, p_, k_ + 1) == psum(F_, p_, k_) + rapp(F_, at(p_, k_))), patterns=[psum(F_, p_, k_ + 1)]), "definition of the sum over a list")
axiom([onehot], FA([i_, k_], ventry(onehot(i_), k_) == z3.If(k_ == i_, 1.0, 0.0), patterns=[ventry(onehot(i_), k_)]), "definition of a unit vector")
axiom([onehot], FA([i_], isfinite(onehot(i_)), patterns=[onehot(i_)]), "definition of a unit vector")
axiom([onehot], FA([i_, k_], z3.Implies(z3.And(0 <= i_, i_ < k_), vsum(onehot(i_), k_) == 1), patterns=[vsum(onehot(i_), k_)]), "the entries of a unit vector sum to one")
same = lambda F, p, v: z3.And(0 <= pdiff(F, p, v), pdiff(F, p, v) < plen(p), rapp(F, at(p, pdiff(F, p, v))) != ventry(v, pdiff(F, p, v)))
axiom([psum], FA([F_, p_, v_, k_], z3.Or(k_ != plen(p_), same(F_, p_, v_), psum(F_, p_, k_) == vsum(v_, k_)), patterns=[z3.MultiPattern(psum(F_, p_, k_), vsum(v_, k_))]), "equal entries have equal sums")


def rng(st):
    if RNG not in st.heap:
        raise Unsupported("the random state outside its contracts")
    return st.heap[RNG].t


def setrng(st, t):
    st.heap[RNG] = CellGhost(t)
    return st


def world(st):
    setrng(st, z3.Const("rng0", X))


# ------------------------------------------------------------------ numpy
def c_get_state(eng, fv, args, kw, st):
    return [(st, Obj(rng(st), "rngstate"))]


def c_set_state(eng, fv, args, kw, st):
    if not (isinstance(args[0], Obj) and args[0].tag == "rngstate"):
        raise Unsupported("setting the random state")
    return [(setrng(st, args[0].t), NoneV())]


def c_seed(eng, fv, args, kw, st):
    if len(args) != 1 or not (isinstance(args[0], Num) and args[0].t.sort() == I):
        raise Unsupported("seeding with something else than a number")
    rng(st)
    s = args[0].t
    return [(s1, r or (setrng(s1, seeded(s)) and NoneV())) for s1, r in eng.guarded(st, z3.And(0 <= s, s < 2 ** 32), "ValueError")]


def c_randint(eng, fv, args, kw, st):
    if kw or not 1 <= len(args) <= 2 or not all(isinstance(a, Num) and a.t.sort() == I for a in args):
        raise Unsupported("randint")
    lo, hi = (z3.IntVal(0), args[0].t) if len(args) == 1 else (args[0].t, args[1].t)
    out = []
    for s, r in eng.guarded(st, lo < hi, "ValueError"):
        if r is None:
            t = drawnint(rng(s), lo, hi)
            s.assume(z3.And(lo <= t, t < hi))
            setrng(s, stepped(rng(s), hi - lo, z3.RealVal(0)))
        out.append((s, r or Num(t)))
    return out


def vector(n, v):
    s = Seq(n, lambda i: Num(ventry(v, i)), "array", n)
    s.vec = v
    return s


def c_dirichlet(eng, fv, args, kw, st):
    a = args[0]
    size = kw.get("size", args[1] if len(args) > 1 else None)
    if not (isinstance(a, Seq) and len(args) <= 2 and set(kw) <= {"size"} and (size is None or isinstance(size, NoneV) or isinstance(size, Num) and size.py == 1)):
        raise Unsupported("dirichlet")
    k = binder(I, "k")
    w = z3.simplify(a.at(k).t)
    w = w if w.sort() == R else z3.ToReal(w)
    if k.decl().name() in consts_of(w)[1]:
        raise Unsupported("a Dirichlet distribution that is not symmetric")
    out = []
    for s, r in eng.guarded(st, w > 0, "ValueError"):
        if r is None:
            v = drawn(rng(s), a.n, w)
            s.assume(z3.Implies(isfinite(v), z3.And(vsum(v, a.n) == 1, z3.Not(hasnan(v)))))
            s.assume(z3.ForAll([k], z3.Implies(z3.And(isfinite(v), 0 <= k, k < a.n), ventry(v, k) >= 0), patterns=[ventry(v, k)]))
            setrng(s, stepped(rng(s), a.n, w))
            r = vector(a.n, v)
            if size is not None and not isinstance(size, NoneV):
                r = Obj(r.vec, "rowmatrix", (r,))
        out.append((s, r))
    return out


def c_ones(eng, fv, args, kw, st):
    if len(args) != 1 or kw or not (isinstance(args[0], Num) and args[0].t.sort() == I):
        raise Unsupported("numpy.ones")
    return [(st, Seq(args[0].t, lambda i: Num(z3.RealVal(1)), "array", args[0].t))]


def c_eye(eng, fv, args, kw, st):
    if len(args) != 1 or kw or not (isinstance(args[0], Num) and args[0].t.sort() == I):
        raise Unsupported("numpy.eye")
    return [(st, Obj(z3.Function("eye", I, X)(args[0].t), "unitmatrix", (args[0],)))]


def row(eng, v, k, st):
    n = v.data[0].t
    if not (isinstance(k, Num) and k.t.sort() == I):
        raise Unsupported("a row of a matrix")
    return [(s, r or vector(n, onehot(z3.simplify(z3.If(k.t < 0, k.t + n, k.t))))) for s, r in eng.guarded(st, z3.And(-n <= k.t, k.t < n), "IndexError")]


def first(eng, v, k, st):
    return [(s, r or v.data[0]) for s, r in eng.guarded(st, z3.Or(k.t == 0, k.t == -1), "IndexError")]


def c_flatten(eng, fv, args, kw, st):
    v = fv.selfv
    return [(st, v.data[0] if isinstance(v, Obj) and v.tag == "rowmatrix" else v)] if isinstance(v, Seq) or isinstance(v, Obj) and v.tag == "rowmatrix" else None


def mask(name):
    before = L.EXTRA.get("numpy." + name)

    def f(eng, fv, args, kw, st):
        v = args[0]
        if isinstance(v, Obj) and v.tag == "rowmatrix":
            v = v.data[0]
        if getattr(v, "vec", None) is None:
            return before(eng, fv, args, kw, st) if before else None
        return [(st, Obj(v.vec, "mask:" + name))]
    return f


def quantified(name):
    before = L.EXTRA.get("." + name)

    def f(eng, fv, args, kw, st):
        v = fv.selfv if fv.selfv is not None else args[0]
        if isinstance(v, Obj) and (v.tag, name) == ("mask:isfinite", "all"):
            return [(st, BoolV(isfinite(v.t)))]
        if isinstance(v, Obj) and (v.tag, name) == ("mask:isnan", "any"):
            return [(st, BoolV(hasnan(v.t)))]
        return before(eng, fv, args, kw, st) if before and fv.selfv is not None else None
    return f


def c_hash(eng, fv, args, kw, st):
    """the hash of a set of pairs depends only on the pairs (within a process)"""
    v = args[0]
    if isinstance(v, Lib) and v.name == "itemsview" or eng.kind(v, st) != "set":
        raise Unsupported("hash")
    c = eng.coll(v, st)
    b = c.branches[0] if len(c.branches) == 1 else None
    if b is None or len(b.vars) != 1 or not (isinstance(b.elem, Tup) and len(b.elem.items) == 2 and all(isinstance(e, Atom) for e in b.elem.items) and b.elem.items[0].t.eq(b.vars[0])):
        raise Unsupported("hash")
    x = b.vars[0]
    return [(st, Num(hashOf(defset(lambda y: z3.substitute(b.guard, (x, y)), "K"), defmap(lambda y: z3.substitute(b.elem.items[1].t, (x, y)), "M"))))]


for n, f in (("random.get_state", c_get_state), ("random.set_state", c_set_state), ("random.seed", c_seed), ("random.randint", c_randint), ("random.dirichlet", c_dirichlet),
             ("ones", c_ones), ("eye", c_eye), ("isfinite", mask("isfinite")), ("isnan", mask("isnan")), ("all", quantified("all")), ("any", quantified("any"))):
    L.EXTRA["numpy." + n] = f
L.EXTRA["getitem:unitmatrix"] = row
L.EXTRA["getitem:rowmatrix"] = first
L.EXTRA[".flatten"] = L.EXTRA[".ravel"] = c_flatten
L.EXTRA[".all"], L.EXTRA[".any"] = quantified("all"), quantified("any")
L.EXTRA["hash"] = c_hash


# ------------------------------------------------------------------ with blocks
class Manager(Contract):
    """a generator used as a context manager: enter(eng, st, env) -> [(st, value or Raised, token)], leave(eng, st, token)"""
    def __init__(self, key, enter, leave, scenarios, requires, spec, post):
        super().__init__(key, spec, scenarios, requires, post=post, atomic=True)
        self.enter, self.leave = enter, leave


def with_(eng, s, st, ctx):
    item = s.items[0]
    if len(s.items) > 1:
        inner = ast.With(items=s.items[1:], body=s.body)
        ast.copy_location(inner, s)
        s = ast.With(items=[item], body=[inner])
    call = item.context_expr
    if not isinstance(call, ast.Call) or any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        raise Unsupported("with statement")
    for st1, vs in eng.evs([call.func] + call.args + [k.value for k in call.keywords], st, ctx):
        if isinstance(vs, Raised):
            yield st1, ("raise", vs.exc)
            continue
        fv, args, kw = vs[0], vs[1:1 + len(call.args)], {k.arg: v for k, v in zip(call.keywords, vs[1 + len(call.args):])}
        con = eng.contract_for(fv, st1) if isinstance(fv, Func) else None
        if not isinstance(con, Manager):
            raise Unsupported("with statement")
        eng.used_contracts.add(con.key)
        r = eng.bindargs(fv, args, kw, st1)
        if r is None:
            yield st1, ("raise", "TypeError")
            continue
        for st2, env in eng.fill_defaults(fv, *r, st1):
            for label, f in con.requires(eng, st2, env):
                if not eng.must(st2, f, 200):
                    eng.side.append((f"precondition of {con.key}: {label}", list(st2.pc), f))
                    st2.assume(f)
            for st3, v, token in con.enter(eng, st2, env):
                if isinstance(v, Raised):
                    yield st3, ("raise", v.exc)
                    continue
                if item.optional_vars is not None:
                    if not isinstance(item.optional_vars, ast.Name):
                        raise Unsupported("with statement")
                    st3.frames[ctx.chain[-1]][item.optional_vars.id] = v
                for st4, o in eng.ex(s.body, st3, ctx):
                    con.leave(eng, st4, token)
                    yield st4, o


L.EXTRA["with"] = with_


def yielded(eng, v, st, ctx):
    """the block of a with statement, as its context manager sees it: anything may happen to the random state, and it may
    end in an exception"""
    if st.ghost.get("entered"):
        raise Unsupported("a context manager that yields twice")
    seed = eng.args0["seed"].t
    eng.side.append(("the block starts from the seed", list(st.pc), rng(st) == seeded(seed)))
    for exc in (None, "KeyboardInterrupt", "ArithmeticError"):
        s = st.clone()
        s.ghost["entered"], s.ghost["threw"] = True, exc
        setrng(s, fresh(X, "rng"))
        yield s, ("raise", exc) if exc else None


L.EXTRA["yield"] = yielded


# ------------------------------------------------------------------ contracts
def seed_req(eng, st, env):
    return [("the seed is in range", z3.And(0 <= env["seed"].t, env["seed"].t < 2 ** 32))]


def seed_scen(eng, st):
    world(st)
    return None, [Num(z3.Const("seed0", I))], {}


def seed_post(eng, entry, st, env, v):
    return [("the block is executed", z3.BoolVal(bool(st.ghost.get("entered")))), ("the exception of the block goes on", z3.BoolVal(not st.ghost.get("threw"))),
            ("the random state is as before", rng(st) == rng(entry))]


def seed_enter(eng, st, env):
    token = rng(st)
    setrng(st, seeded(env["seed"].t))
    return [(st, NoneV(), token)]


def distribution(eng, st):
    """an arbitrary random distribution over a list of different outcomes"""
    world(st)
    D = z3.Const("domain0", P)
    i, x = binder(I, "i"), binder(U, "x")
    st.assume(z3.And(plen(D) >= 1))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < plen(D)), idx(D, at(D, i)) == i), patterns=[at(D, i)]))
    return st.alloc(CellObj(eng.repo.classes["RandomCPD"], {"seed": Num(z3.Const("seed0", I)), "smoothness": Num(z3.Const("smooth0", R)), "domain": PathV(D)}))


def call_scen(eng, st):
    ref = distribution(eng, st)
    return ref, [], {"**": st.alloc(CellMap(z3.Const("parentK", SET), z3.Const("parentM", MAP)))}


def call_spec(eng, st, env):
    s = st.heap[env["self"].id].fields["smoothness"].t
    return [ret(lambda s: NoneV(), s > 0), raises("ValueError", Not(s > 0))]


def origins(eng, st, entry, *terms):
    """the symbols that what was learned since the entry depends on"""
    seen, todo = set(), list(st.pc[len(entry.pc):]) + list(terms)
    while todo:
        names, consts = consts_of(todo.pop())
        for c in set(names) | set(consts):
            if c not in seen:
                seen.add(c)
                todo += DEFS.get(c, [])
    return seen


def call_post(eng, entry, st, env, v):
    D = entry.heap[env["self"].id].fields["domain"].t
    c = st.heap[v.id] if isinstance(v, Ref) else None
    if isinstance(c, CellAbsDict):
        raise Unsupported("the result is not a dictionary from outcomes to numbers")
    if not isinstance(c, CellRMap):
        return [("returns a dictionary from outcomes to numbers", FALSE)]
    x, i = binder(U, "x"), binder(I, "i")
    inD = lambda i: z3.And(0 <= i, i < plen(D))
    return [("only outcomes of the domain have a probability", ForAll([x], Imp(mem(c.keys, x), Exists([i], And(inD(i), at(D, i) == x))))),
            ("every outcome of the domain has a probability", ForAll([i], Imp(inD(i), mem(c.keys, at(D, i))))),
            ("no probability is negative", ForAll([i], Imp(inD(i), rapp(c.m, at(D, i)) >= 0))),
            ("the probabilities sum to one", psum(c.m, D, plen(D)) == 1),
            ("nothing depends on the random state before the call", z3.BoolVal("rng0" not in origins(eng, st, entry, c.keys, c.m)))]


def init_scen(dom, seed):
    def build(eng, st):
        world(st)
        ref = st.alloc(CellObj(eng.repo.classes["RandomCPD"], {}))
        kw = {"smoothness": Num(z3.Const("smooth0", R))}
        if dom:
            kw["domain"] = PathV(z3.Const("domain0", P))
            st.assume(plen(kw["domain"].t) >= 1)
        if seed:
            kw["seed"] = Num(z3.Const("seed0", I))
        return ref, [], kw
    return build


def init_spec(eng, st, env):
    given = isinstance(env["seed"], Num)

    def make(s):
        if not given:
            setrng(s, fresh(X, "rng"))
        return NoneV()
    return [ret(make)]


def init_post(eng, entry, st, env, v):
    f = st.heap[env["self"].id].fields
    given = isinstance(env["seed"], Num)
    seed = f.get("seed")
    d = env["domain"]
    i = binder(I, "i")
    dom = eng.iterable(f["domain"], st)
    zo = [intatom(z3.IntVal(n)) for n in (0, 1)]
    if isinstance(d, NoneV):
        okd = isinstance(dom, Tup) and len(dom.items) == 2 and And(*[eng.eq(a, Atom(b), st) for a, b in zip(dom.items, zo)])
    else:
        okd = eng.eq(f["domain"], d, st, entry)
    return [("the seed is a number", z3.BoolVal(isinstance(seed, Num) and seed.t.sort() == I))] + \
        ([("the given seed is used", eng.eq(seed, env["seed"], st, entry)), ("the random state is not used", rng(st) == rng(entry))] if given else []) + \
        [("the given smoothness is used", eng.eq(f["smoothness"], env["smoothness"], st, entry)), ("the given domain is used", okd if okd is not False else FALSE)]


def register(reg):
    if "the entries of a unit vector sum to one" not in LEMMAS:
        I_ = lemmas.Induction
        lemmas.proof("the entries of a unit vector sum to one",
                     I_("partial sums", [i_], 0, lambda k: z3.Implies(0 <= i_, vsum(onehot(i_), k) == z3.If(k > i_, 1.0, 0.0)), lambda k: [vsum(onehot(i_), k)]))
        far = z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < plen(p_)), rapp(F_, at(p_, i_)) == ventry(v_, i_)), patterns=[at(p_, i_), ventry(v_, i_)])
        lemmas.proof("equal entries have equal sums",
                     I_("partial sums", [F_, p_, v_], 0, lambda k: z3.Implies(z3.And(far, k <= plen(p_)), z3.And(psum(F_, p_, k) == vsum(v_, k), trig(p_, k))), lambda k: [z3.MultiPattern(psum(F_, p_, k), vsum(v_, k))]),
                     choice=[lemmas.chosen([F_, p_, v_], i_, lambda i: z3.And(0 <= i, i < plen(p_), rapp(F_, at(p_, i)) != ventry(v_, i)), pdiff(F_, p_, v_), [z3.MultiPattern(rapp(F_, at(p_, i_)), ventry(v_, i_))][0:1] and [rapp(F_, at(p_, i_)), ventry(v_, i_)])])
    reg.assume("C20", "numpy's random functions determine their results and the next state from the state and their arguments; a finite symmetric Dirichlet draw is a distribution (real numbers)")
    reg.assume("C20", "the hash of a set of pairs depends only on the pairs within a process")
    reg.assume("C20", "the domain lists no outcome twice; the block of a with statement affects the random state of the caller only")
    reg.add(Manager("temp_seed", seed_enter, lambda eng, st, t: setrng(st, t), [Scenario("any block", seed_scen)], seed_req,
                    lambda eng, st, env: [ret(lambda s: NoneV()), raises("KeyboardInterrupt"), raises("ArithmeticError")], seed_post), "C20")
    reg.add(Contract("RandomCPD.__call__", call_spec, [Scenario("any parents", call_scen)], post=call_post, atomic=True), "C20")
    reg.add(Contract("RandomCPD.__init__", init_spec, [Scenario(f"{'a' if d else 'no'} domain, {'a' if s else 'no'} seed", init_scen(d, s)) for d in (0, 1) for s in (0, 1)], post=init_post, frame=False), "C20")
