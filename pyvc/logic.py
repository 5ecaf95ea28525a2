"""Logic layer: sorts, symbols, definitional extensions, and the prover.

Everything symbolic lives in a small many-sorted first-order vocabulary.  Sets, edge
relations and maps are elements of uninterpreted sorts with membership functions and
explicit extensionality, so that z3 works by plain E-matching.
"""
import random
import re
import time
import z3

_mp = z3.MultiPattern


def MultiPattern(*args):
    """z3py drops its own references to the terms before it builds the pattern: hold them here"""
    keep = list(args)
    r = _mp(*keep)
    r._keep = keep
    return r


z3.MultiPattern = MultiPattern
z3.set_param("auto_config", False)

U = z3.DeclareSort("U")        # labels, agents, outcomes: every atom of the program
SET = z3.DeclareSort("USet")   # finite sets of atoms
REL = z3.DeclareSort("Rel")    # edge relations
MAP = z3.DeclareSort("UMap")   # maps atom -> atom
BAG = z3.DeclareSort("Bags")   # maps atom -> list of atoms (as multiplicities)
P = z3.DeclareSort("Path")     # finite sequences of atoms
RMAP = z3.DeclareSort("RMap") # maps atom -> number
X = z3.DeclareSort("Obj")      # everything else (distributions, models, ...)
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()

mem = z3.Function("mem", SET, U, B)
edge = z3.Function("edge", REL, U, U, B)
app = z3.Function("app", MAP, U, U)
cnt = z3.Function("cnt", BAG, U, U, I)
rapp = z3.Function("rapp", RMAP, U, R)
Sigma = z3.Function("Sigma", SET, RMAP, R)        # the sum of a map over a finite set
ndiff = z3.Function("ndiff", RMAP, RMAP, SET, U)
mdiff = z3.Function("mdiff", MAP, MAP, SET, U)
plen = z3.Function("plen", P, I)
at = z3.Function("at", P, I, U)
idx = z3.Function("idx", P, U, I)
cat = z3.Function("cat", U, U, U)
card = z3.Function("card", SET, I)
truthy = z3.Function("truthy", U, B)
RT = z3.Function("RT", REL, U, U, B)              # proper descendant
DConn = z3.Function("DConn", REL, U, U, SET, B)   # d-connection (library contract)
Acyc = z3.Function("Acyc", REL, B)
DirPath = z3.Function("DirPath", REL, P, U, U, B)
UndPath = z3.Function("UndPath", REL, P, U, U, B)
pre = z3.Function("pre", P, I, P)
snoc = z3.Function("snoc", P, U, P)
sing = z3.Function("sing", U, P)
sdiff = z3.Function("sdiff", SET, SET, U)
rdiff1 = z3.Function("rdiff1", REL, REL, U)
rdiff2 = z3.Function("rdiff2", REL, REL, U)
trig = z3.Function("trig", P, I, B)               # true everywhere; marks the positions worth instantiating
pdiff = z3.Function("pdiff", P, P, I)

_n = [0]


def fresh(sort, name="k"):
    _n[0] += 1
    return z3.Const(f"{name}!{_n[0]}", sort)


def reset():
    pass


STR = {}


intatom = z3.Function("int", I, U)      # an integer as an atom
atomint = z3.Function("intval", U, I)


def strconst(s):
    """a string or number literal used as an atom"""
    if isinstance(s, int):
        return intatom(z3.IntVal(int(s)))
    key = (type(s).__name__, s)
    if key not in STR:
        STR[key] = z3.Const(f"lit_{type(s).__name__}_{s}", U)
    return STR[key]


class Axiom:
    """rank 0: a definition or an assumed fact; a lemma has the rank of its proof (contracts/lemmas.py), which may use
    only what has a lower rank"""
    def __init__(self, syms, formula, name=""):
        self.syms, self.f, self.name, self.rank = set(syms), formula, name, 0


DEFS = {}      # symbol name -> [formula]   (definitional extensions made during execution)
BASE = []      # library axioms, included when all their symbols occur
LEMMAS = {}    # name -> Lemma
RANK = [10 ** 9]   # axioms of this rank and above are out of reach (while a lemma is being proved)
USED = set()   # names of the axioms and lemmas that took part in a proof


class Lemma:
    def __init__(self, name, steps, rank, axioms, note):
        self.name, self.steps, self.rank, self.axioms, self.note = name, steps, rank, axioms, note


def lemma(name, steps, note=""):
    """the axioms called name are proved: steps() -> [(label, assumptions, goal)]"""
    axs = [a for a in BASE if a.name == name]
    assert axs, name
    LEMMAS[name] = Lemma(name, steps, len(LEMMAS) + 1, axs, note)
    for a in axs:
        a.rank = LEMMAS[name].rank


def axiom(syms, f, name=""):
    BASE.append(Axiom([s.name() for s in syms], f, name))


def consts_of(t, acc=None, seen=None):
    """uninterpreted symbol names and constants in a term"""
    names, consts = acc if acc else (set(), {})
    seen = seen if seen is not None else set()
    stack = [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            stack.append(u.body())
            for i in range(u.num_patterns()):
                stack.append(u.pattern(i))
        elif z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names.add(u.decl().name())
                if u.num_args() == 0:
                    consts[u.decl().name()] = u
            stack.extend(u.children())
    return names, consts


BINDERS = set()   # names of constants that stand for bound variables


def binder(sort, name="b"):
    c = fresh(sort, name)
    BINDERS.add(c.decl().name())
    return c


def _scope(*terms):
    """binder constants in the terms, in order of first occurrence"""
    out, names, seen = [], set(), set()

    def go(t):
        stack = [t]
        while stack:
            u = stack.pop()
            if u.get_id() in seen:
                continue
            seen.add(u.get_id())
            if z3.is_quantifier(u):
                stack.append(u.body())
            elif z3.is_app(u):
                if u.num_args() == 0:
                    n = u.decl().name()
                    if n in BINDERS and n not in names:
                        names.add(n)
                        out.append(u)
                else:
                    stack.extend(reversed(u.children()))
    for t in terms:
        go(t)
    return out


_CACHE = {}
_KEEP = []


def _bound(t):
    """the names of the bound variables of a formula, in order"""
    out, seen, stack = [], set(), [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            out += [u.var_name(i) for i in range(u.num_vars())]
            stack.append(u.body())
        elif z3.is_app(u):
            stack.extend(reversed(u.children()))
    return out


def _alpha(t):
    """the same for formulas that differ only in the names of bound variables"""
    names = _bound(t)
    if not names:
        return t.get_id()
    n = {v: f"bv{i}" for i, v in enumerate(dict.fromkeys(names))}
    return re.sub(r"[^\s()]+", lambda m: n.get(m[0], m[0]), t.sexpr())


def _define(sort, name, vars, head, body):
    """symbol s (depending on the binders in body other than vars) with forall. head(s, vars) <-> body;
    the same definition always gives the same symbol"""
    body = z3.simplify(body) if z3.is_bool(body) and len(body.children()) < 2 else body
    names = {v.decl().name() for v in vars}
    sc = [c for c in _scope(body) if c.decl().name() not in names]
    canon = [z3.Const(f"cn{i}_{c.sort()}", c.sort()) for i, c in enumerate(sc)]
    cvars = [z3.Const(f"cv{i}_{v.sort()}", v.sort()) for i, v in enumerate(vars)]
    cb = z3.substitute(body, *zip(sc, canon), *zip(vars, cvars)) if sc or vars else body
    key = (str(sort), tuple(str(v.sort()) for v in vars), tuple(str(c.sort()) for c in canon), _alpha(cb), head.__name__)
    nm = _CACHE.get(key)
    if nm is None:
        _n[0] += 1
        nm = f"{name}!{_n[0]}"
        _CACHE[key] = nm
        _KEEP.append(cb)
        s = z3.Function(nm, *[c.sort() for c in canon], sort)(*canon) if canon else z3.Const(nm, sort)
        h = head(s, *cvars)
        allv = canon + cvars
        eqf = h == cb
        DEFS[nm] = [z3.ForAll(allv, eqf, patterns=[h]) if allv else eqf]
    return z3.Function(nm, *[c.sort() for c in sc], sort)(*sc) if sc else z3.Const(nm, sort)


def _self(fname, body, vars):
    """fname(s, *vars) with s free of vars is s itself"""
    if z3.is_app(body) and body.decl().name() == fname and all(z3.eq(body.arg(i + 1), v) for i, v in enumerate(vars)):
        s = body.arg(0)
        if not {v.decl().name() for v in vars} & set(consts_of(s)[1]):
            return s
    return None


def _h_mem(s, x):
    return mem(s, x)


def _h_edge(s, a, b):
    return edge(s, a, b)


def _h_app(s, x):
    return app(s, x)


def _h_cnt(s, a, x):
    return cnt(s, a, x)


def defset(pred, name="S"):
    """the set {x | pred(x)} as a term"""
    x = binder(U, "x")
    body = pred(x)
    s = _self("mem", body, [x])
    return s if s is not None else _define(SET, name, [x], _h_mem, body)


def defrel(pred, name="E"):
    a, b = binder(U, "a"), binder(U, "b")
    body = pred(a, b)
    s = _self("edge", body, [a, b])
    return s if s is not None else _define(REL, name, [a, b], _h_edge, body)


def defmap(val, name="M"):
    x = binder(U, "x")
    body = val(x)
    s = _self("app", body, [x])
    return s if s is not None else _define(MAP, name, [x], _h_app, body)


def _h_rapp(s, x):
    return rapp(s, x)


def defrmap(val, name="F"):
    x = binder(U, "x")
    body = val(x)
    s = _self("rapp", body, [x])
    return s if s is not None else _define(RMAP, name, [x], _h_rapp, body)


def defbag(val, name="C"):
    a, x = binder(U, "a"), binder(U, "x")
    body = val(a, x)
    s = _self("cnt", body, [a, x])
    return s if s is not None else _define(BAG, name, [a, x], _h_cnt, body)


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def And(*fs):
    out = []
    for f in fs:
        if z3.is_true(f):
            continue
        if z3.is_false(f):
            return FALSE
        out.append(f)
    return TRUE if not out else out[0] if len(out) == 1 else z3.And(*out)


def Or(*fs):
    out = []
    for f in fs:
        if z3.is_false(f):
            continue
        if z3.is_true(f):
            return TRUE
        out.append(f)
    return FALSE if not out else out[0] if len(out) == 1 else z3.Or(*out)


def Not(f):
    if z3.is_true(f):
        return FALSE
    if z3.is_false(f):
        return TRUE
    if z3.is_not(f):
        return f.arg(0)
    return z3.Not(f)


def Imp(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return TRUE
    return z3.Implies(a, b)


def offset_of(t, v):
    """c if t is v + c for the integer variable v, else None"""
    if z3.eq(t, v):
        return 0
    if z3.is_add(t) or z3.is_sub(t):
        d = z3.simplify(t - v)
        if z3.is_int_value(d):
            return d.as_long()
    return None


def arith_occurs(t, v):
    """v occurs in t outside the arguments of functions"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return z3.eq(t, v)
    return any(arith_occurs(c, v) for c in t.children())


def reindex(vs, f):
    """shift integer variables that occur in function arguments only as v + c, for one c"""
    for v in vs:
        if v.sort() != I:
            continue
        offs, seen, stack = set(), set(), [f]
        while stack:
            u = stack.pop()
            if u.get_id() in seen:
                continue
            seen.add(u.get_id())
            if z3.is_quantifier(u):
                stack.append(u.body())
                continue
            if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for a in u.children():
                    if a.sort() == I and arith_occurs(a, v):
                        offs.add(offset_of(a, v))
            stack.extend(u.children())
        if len(offs) == 1 and offs != {0} and None not in offs:
            f = z3.substitute(f, (v, v - offs.pop()))
            f = normal_offsets(f)
    return f


def normal_offsets(f):
    """simplify integer arguments of functions"""
    pairs, seen, stack = [], set(), [f]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            stack.append(u.body())
            continue
        if z3.is_app(u) and u.sort() == I and (z3.is_add(u) or z3.is_sub(u)):
            w = z3.simplify(u)
            if not w.eq(u) and not has_var(u):
                pairs.append((u, w))
                continue
        stack.extend(u.children())
    return z3.substitute(f, *pairs) if pairs else f


def has_var(u):
    stack = [u]
    while stack:
        t = stack.pop()
        if z3.is_var(t):
            return True
        stack.extend(t.children())
    return False


def conjuncts(f):
    return [d for c in f.children() for d in conjuncts(c)] if z3.is_and(f) else [f]


def Exists(vs, f):
    """existential quantifier with one-point simplification"""
    f = reindex(vs, f)
    vs = [v for v in vs if v.decl().name() in consts_of(f)[1]]
    changed = True
    while changed and vs:
        changed = False
        conj = conjuncts(f)
        for c in conj:
            if z3.is_eq(c):
                for l, r in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    if z3.is_add(l) and l.num_args() == 2 and z3.is_int_value(l.arg(1)) and l.arg(0).sort() == I:
                        l, r = l.arg(0), r - l.arg(1)
                    hit = [v for v in vs if z3.eq(v, l)]
                    if hit and hit[0].decl().name() not in consts_of(r)[1]:
                        f = And(*[z3.substitute(d, (hit[0], r)) for d in conj if not d.eq(c)])
                        vs = [v for v in vs if not z3.eq(v, hit[0])]
                        vs = [v for v in vs if v.decl().name() in consts_of(f)[1]]
                        changed = True
                        break
            if changed:
                break
    if not vs:
        return f
    pat = cover(vs, f)
    return z3.Exists(vs, f, patterns=pat) if pat is not None else z3.Exists(vs, f)


def cover(vs, f):
    """a trigger for a conjunction that avoids terms with definitional symbols of bound variables (a caller's own copy
    of such a set or relation is a different symbol), or None when the solver's choice will do"""
    names = {v.decl().name() for v in vs}

    def flat(c):
        if z3.is_and(c):
            for d in c.children():
                yield from flat(d)
        else:
            yield c

    def defs_in(t):
        if not z3.is_app(t):
            return True
        if t.num_args() and t.decl().name() in DEFS and names & set(consts_of(t)[1]):
            return True
        if t.decl().kind() != z3.Z3_OP_UNINTERPRETED and t.num_args():
            return True
        return any(defs_in(c) for c in t.children())
    terms, tainted = [], False
    for c in flat(f):
        c = c.arg(0) if z3.is_not(c) else c
        if z3.is_quantifier(c):
            continue
        for t in [c] if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED else c.children():
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
                got = names & set(consts_of(t)[1])
                if got and not defs_in(t):
                    terms.append((got, t))
                elif got:
                    tainted = True
                terms += [(names & set(consts_of(u)[1]), u) for u in t.children()
                          if z3.is_app(u) and u.num_args() and names & set(consts_of(u)[1]) and not defs_in(u)]
    if not tainted:
        return None
    pats = []
    for choose in (terms, [t for t in terms if t[1].decl().name() != "mem"]):
        left, out = set(names), []
        while left:
            best = max(choose, key=lambda p: (len(p[0] & left), -len(p[1].sexpr())), default=None)
            if best is None or not best[0] & left:
                break
            out.append(best[1])
            left -= best[0]
        pat = (z3.MultiPattern(*out) if len(out) > 1 else out[0]) if not left else None
        if pat is not None and not any(z3.eq(pat, q) for q in pats):
            pats.append(pat)
    return pats or None


def ForAll(vs, f):
    if z3.is_true(f):
        return f
    f = reindex(vs, f)
    names = consts_of(f)[1]
    vs = [v for v in vs if v.decl().name() in names]
    return z3.ForAll(vs, f) if vs else f


# ------------------------------------------------------------------ axioms of the vocabulary
def _mk():
    s, t = z3.Consts("s t", SET)
    e, f = z3.Consts("e f", REL)
    x, y, w = z3.Consts("x y w", U)
    p, q = z3.Consts("p q", P)
    i, j, k = z3.Ints("i j k")
    FA = z3.ForAll
    kk = z3.Int("kk")
    axiom([intatom], FA([kk], atomint(intatom(kk)) == kk, patterns=[intatom(kk)]), "definition: different integers are different atoms")
    axiom([card, mem], FA([s], card(s) >= 0, patterns=[card(s)]))
    axiom([card, mem], FA([s, t], z3.Implies(z3.And(card(s) == card(t),
          FA([x], z3.Implies(mem(s, x), mem(t, x)))), FA([x], mem(s, x) == mem(t, x))),
          patterns=[z3.MultiPattern(card(s), card(t))]), "equal-size subset is the whole set")
    axiom([RT], FA([e, x, y], z3.Implies(edge(e, x, y), RT(e, x, y)), patterns=[z3.MultiPattern(edge(e, x, y), RT(e, x, y))]), "an edge leads to a descendant")
    axiom([RT], FA([e, x, y, w], z3.Implies(z3.And(RT(e, x, y), RT(e, y, w)), RT(e, x, w)),
          patterns=[z3.MultiPattern(RT(e, x, y), RT(e, y, w))]), "descent is transitive")
    axiom([Acyc, RT], FA([e, x], z3.Implies(Acyc(e), z3.Not(RT(e, x, x))), patterns=[z3.MultiPattern(Acyc(e), RT(e, x, x))]), "definition of an acyclic graph")
    axiom([Acyc], FA([e, x, y], z3.Implies(z3.And(Acyc(e), edge(e, x, y)), z3.Not(edge(e, y, x))), patterns=[z3.MultiPattern(Acyc(e), edge(e, x, y), edge(e, y, x))]), "an acyclic graph has no cycle of two edges")
    axiom([plen], FA([p], plen(p) >= 0, patterns=[plen(p)]))
    axiom([idx, at], FA([p, x, i], z3.Implies(z3.And(0 <= i, i < plen(p), at(p, i) == x),
          z3.And(0 <= idx(p, x), idx(p, x) <= i, at(p, idx(p, x)) == x)), patterns=[z3.MultiPattern(idx(p, x), at(p, i))]))
    # sequences
    axiom([pre], FA([p, i], z3.Implies(z3.And(0 <= i, i <= plen(p)), plen(pre(p, i)) == i), patterns=[pre(p, i)]))
    axiom([pre], FA([p, i, j], z3.Implies(z3.And(0 <= j, j < i, i <= plen(p)), at(pre(p, i), j) == at(p, j)),
          patterns=[at(pre(p, i), j), z3.MultiPattern(pre(p, i), at(p, j))]))
    axiom([snoc], FA([p, x], z3.And(plen(snoc(p, x)) == plen(p) + 1, at(snoc(p, x), plen(p)) == x), patterns=[snoc(p, x)]))
    axiom([snoc], FA([p, x, j], z3.Implies(z3.And(0 <= j, j < plen(p)), at(snoc(p, x), j) == at(p, j)),
          patterns=[at(snoc(p, x), j)]))
    axiom([trig], FA([p, i], trig(p, i), patterns=[trig(p, i)]))
    axiom([pre], FA([p, i], z3.Implies(z3.And(1 <= i, i <= plen(p)), at(pre(p, i), plen(pre(p, i)) - 1) == at(p, i - 1)), patterns=[at(pre(p, i), plen(pre(p, i)) - 1)]))
    axiom([pre], FA([p, i], z3.Implies(z3.And(2 <= i, i <= plen(p)), at(pre(p, i), plen(pre(p, i)) - 2) == at(p, i - 2)), patterns=[at(pre(p, i), plen(pre(p, i)) - 2)]))
    axiom([pre, snoc], FA([p, x, i], z3.Implies(z3.And(0 <= i, i <= plen(p)), pre(snoc(p, x), i) == pre(p, i)), patterns=[pre(snoc(p, x), i)]))
    axiom([pre, snoc], FA([p, x], pre(snoc(p, x), plen(p) + 1) == snoc(p, x), patterns=[snoc(p, x)]))
    axiom([pre], FA([p, i, j], z3.Implies(z3.And(0 <= j, j <= i, i <= plen(p)), pre(pre(p, i), j) == pre(p, j)), patterns=[pre(pre(p, i), j)]))
    axiom([pre], FA([p], pre(p, plen(p)) == p, patterns=[plen(p)]))
    axiom([pre, snoc], FA([p, i, j], z3.Implies(z3.And(0 <= i, j == i + 1, j <= plen(p)), pre(p, j) == snoc(pre(p, i), at(p, i))),
          patterns=[z3.MultiPattern(pre(p, i), pre(p, j))]))
    axiom([sing], FA([p], z3.Implies(plen(p) >= 1, pre(p, 1) == sing(at(p, 0))), patterns=[pre(p, 1)]))
    axiom([sing], FA([p], z3.Implies(plen(p) == 1, p == sing(at(p, 0))), patterns=[plen(p)]))
    axiom([sing], FA([x], z3.And(plen(sing(x)) == 1, at(sing(x), 0) == x), patterns=[sing(x)]))


_mk()

# extensionality: only between terms that are arguments of the same observer
_EXT_OBS = {}


def ext_axioms(goal_terms):
    """pairwise extensionality for set/relation terms under the same uninterpreted observer, ground only"""
    s, t = z3.Consts("s t", SET)
    e, f = z3.Consts("e f", REL)
    out = []
    out.append(z3.ForAll([s, t], z3.Or(s == t, mem(s, sdiff(s, t)) != mem(t, sdiff(s, t))), patterns=[sdiff(s, t)]))
    out.append(z3.ForAll([e, f], z3.Or(e == f, edge(e, rdiff1(e, f), rdiff2(e, f)) != edge(f, rdiff1(e, f), rdiff2(e, f))),
                         patterns=[rdiff1(e, f)]))
    return out


class Result:
    def __init__(self, status, wall, model=None, reason="", tries=0, how=None):
        self.status, self.wall, self.model, self.reason, self.tries, self.how = status, wall, model, reason, tries, how


def closure(fs):
    """all definitional and base axioms relevant to the formulas"""
    names = set()
    seen = set()
    for f in fs:
        consts_of(f, (names, {}), seen)
    out, done = [], set()
    base_done = set()
    work = True
    while work:
        work = False
        for nm in sorted(names):
            if nm in DEFS and nm not in done:
                done.add(nm)
                for ax in DEFS[nm]:
                    out.append(ax)
                    consts_of(ax, (names, {}), seen)
                work = True
        for k, ax in enumerate(BASE):
            if k not in base_done and ax.syms <= names and ax.rank < RANK[0]:
                base_done.add(k)
                USED.add(ax.name)
                out.append(ax.f)
                consts_of(ax.f, (names, {}), seen)
                work = True
    lits = [STR[k] for k in STR if STR[k].decl().name() in names]
    if len(lits) > 1:
        out.append(z3.Distinct(*lits))
    return out, names


OBSERVERS = {"DConn", "RT", "Acyc", "DirPath", "UndPath", "card"}


def rename(t, pairs):
    """t with constants replaced, also inside the definitions of the symbols in it"""
    t = z3.substitute(t, *pairs)
    gone = {a.decl().name() for a, _ in pairs}
    stack, seen, out = [t], set(), []
    while stack:
        u = stack.pop()
        if u.get_id() in seen or not z3.is_app(u):
            continue
        seen.add(u.get_id())
        nm = u.decl().name()
        if nm in DEFS and not has_var(u) and gone & set(closure([u])[1]):
            q = DEFS[nm][0]
            n, k = (q.num_vars() if z3.is_quantifier(q) else 0), u.num_args()
            vs = [binder(q.var_sort(i), "v") for i in range(k, n)]
            body = z3.substitute_vars(q.body(), *reversed(list(u.children()) + vs)) if n else q
            head = {"mem": _h_mem, "edge": _h_edge, "app": _h_app, "rapp": _h_rapp, "cnt": _h_cnt}[body.arg(0).decl().name()]
            out.append((u, _define(u.sort(), nm.split("!")[0], vs, head, rename(body.arg(1), pairs))))
        else:
            stack += u.children()
    return z3.substitute(t, *out) if out else t


def obs_ext(names):
    """extensionality instances triggered by pairs of observer applications"""
    s, t = z3.Consts("s t", SET)
    e, f = z3.Consts("e f", REL)
    a, b, c, d = z3.Consts("a b c d", U)
    p, q = z3.Consts("p q", P)
    out = []
    es = z3.Or(s == t, mem(s, sdiff(s, t)) != mem(t, sdiff(s, t)))
    ee = z3.Or(e == f, edge(e, rdiff1(e, f), rdiff2(e, f)) != edge(f, rdiff1(e, f), rdiff2(e, f)))
    if "DConn" in names:
        out.append(z3.ForAll([e, f, a, b, c, d, s, t], z3.And(es, ee),
                             patterns=[z3.MultiPattern(DConn(e, a, b, s), DConn(f, c, d, t))]))
    if "RT" in names:
        out.append(z3.ForAll([e, f, a, b, c, d], ee, patterns=[z3.MultiPattern(RT(e, a, b), RT(f, c, d))]))
    if "Acyc" in names:
        out.append(z3.ForAll([e, f], ee, patterns=[z3.MultiPattern(Acyc(e), Acyc(f))]))
    if "DirPath" in names:
        out.append(z3.ForAll([e, f, p, q, a, b, c, d], ee, patterns=[z3.MultiPattern(DirPath(e, p, a, b), DirPath(f, q, c, d))]))
    if "UndPath" in names:
        out.append(z3.ForAll([e, f, p, q, a, b, c, d], ee, patterns=[z3.MultiPattern(UndPath(e, p, a, b), UndPath(f, q, c, d))]))
    if "card" in names:
        out.append(z3.ForAll([s, t], es, patterns=[z3.MultiPattern(card(s), card(t))]))
    if "Sigma" in names:    # equal sets, and equal values on them
        m, n = z3.Consts("m n", RMAP)
        out.append(z3.ForAll([s, t, m, n], z3.Or(Sigma(s, m) == Sigma(t, n), mem(s, sdiff(s, t)) != mem(t, sdiff(s, t)),
                             z3.And(mem(s, ndiff(m, n, s)), rapp(m, ndiff(m, n, s)) != rapp(n, ndiff(m, n, s)))),
                             patterns=[z3.MultiPattern(Sigma(s, m), Sigma(t, n))]))
        out.append(z3.ForAll([s, m], z3.Or(Sigma(s, m) == 0, z3.And(mem(s, ndiff(m, m, s)), rapp(m, ndiff(m, m, s)) != 0)), patterns=[Sigma(s, m)]))
    for f in CONGRUENT:
        if f.name() in names:
            out.append(CONGRUENT[f])
    for fd in EXTRA_OBS:
        if fd.name() in names:
            v1 = [fresh(fd.domain(i), "v") for i in range(fd.arity())]
            v2 = [fresh(fd.domain(i), "w") for i in range(fd.arity())]
            cs = []
            for m, n in zip(v1, v2):
                if m.sort() == SET:
                    cs.append(z3.Or(m == n, mem(m, sdiff(m, n)) != mem(n, sdiff(m, n))))
                if m.sort() == REL:
                    cs.append(z3.Or(m == n, edge(m, rdiff1(m, n), rdiff2(m, n)) != edge(n, rdiff1(m, n), rdiff2(m, n))))
            if cs:
                out.append(z3.ForAll(v1 + v2, z3.And(*cs), patterns=[z3.MultiPattern(fd(*v1), fd(*v2))]))
    return out


EXTRA_OBS = []
CONGRUENT = {}      # f(sets, edges, maps, ...) -> equal arguments give equal values; maps matter on the set before them


def congruent(fd, mapsover):
    """fd's value depends on what its arguments denote; the map at position i only on its values at the set at position mapsover[i]"""
    v1 = [fresh(fd.domain(i), "v") for i in range(fd.arity())]
    v2 = [fresh(fd.domain(i), "w") for i in range(fd.arity())]
    cs = [fd(*v1) == fd(*v2)]
    for i, (m, n) in enumerate(zip(v1, v2)):
        if m.sort() == SET:
            cs.append(mem(m, sdiff(m, n)) != mem(n, sdiff(m, n)))
        elif m.sort() == REL:
            cs.append(edge(m, rdiff1(m, n), rdiff2(m, n)) != edge(n, rdiff1(m, n), rdiff2(m, n)))
        elif m.sort() == MAP:
            k = v1[mapsover[i]]
            cs.append(z3.And(mem(k, mdiff(m, n, k)), app(m, mdiff(m, n, k)) != app(n, mdiff(m, n, k))))
        else:
            cs.append(m != n)
    CONGRUENT[fd] = z3.ForAll(v1 + v2, z3.Or(*cs), patterns=[z3.MultiPattern(fd(*v1), fd(*v2))])


STATS = {"queries": 0, "time": 0.0}


def check(fs, timeout=2000, seed=0, mbqi=True, perm=0, bare=False):
    ax, names = ([], ()) if bare else closure(fs)
    s = z3.SimpleSolver()
    s.set("rlimit", 1400 * timeout)     # about timeout ms; counted in solver steps, so that a busy machine changes nothing
    s.set("timeout", 15 * timeout)
    if seed:
        s.set("random_seed", seed)
    if not mbqi:
        s.set("mbqi", False)
    fs = ax + obs_ext(names) + list(fs)
    if perm:        # the order of assertions steers the search: a different order is a different attempt
        random.Random(perm).shuffle(fs)
    for f in fs:
        s.add(f)
    t0 = time.time()
    r = s.check()
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    return r, s


def quantkey(f):
    """what a quantified formula says, apart from the names of its variables -> (key, polarity): equal keys with opposite
    polarities are opposites"""
    body, pos = f.body(), f.is_exists()
    if not pos:     # for all x: F  is  not: there is x with not F
        body = body.arg(0) if z3.is_not(body) else z3.Not(body)
    return (tuple(f.var_sort(i).sexpr() for i in range(f.num_vars())), body.get_id(), body), pos


def settle(goal, assumptions):
    """the goal with the quantified parts that an assumption decides, in so many words, replaced by true or false"""
    known = {}
    for f in assumptions:
        pos = True
        while z3.is_not(f):
            f, pos = f.arg(0), not pos
        if z3.is_quantifier(f):
            k, p = quantkey(f)
            known[k[:2]] = (p == pos, k[2])
    if not known:
        return goal
    subs, stack, seen = [], [goal], set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            k, p = quantkey(t)
            if k[:2] in known:
                subs.append((t, z3.BoolVal(known[k[:2]][0] == p)))
        elif z3.is_app(t):
            stack += t.children()
    return z3.simplify(z3.substitute(goal, *subs)) if subs else goal


def prove(assumptions, goal, budget=20000, hint=None, bare=False):
    """is goal a consequence?  -> Result(status in proved|refuted|unknown)"""
    t0 = time.time()
    if z3.is_or(goal):
        goal = settle(goal, assumptions)
    fs = list(assumptions) + [Not(goal)]
    tries = [(to, mb, k) for k, to in enumerate([700, 700, 1200, 2500] + [1500] * 6 + [budget // 2]) if to <= budget and (k < 4 or budget > 3000) for mb in (False, True)]
    if hint:        # the attempt that succeeded when the contracts were written goes first, with time to spare
        tries = [(min(budget, 6000), hint[1], hint[0])] + tries
    reason, model = "", None
    for n, (to, mb, k) in enumerate(tries):
        r, s = check(fs, to, k, mb, k, bare)
        if r == z3.unsat:
            return Result("proved", time.time() - t0, tries=n + 1, how=[k, mb])
        if r == z3.sat:
            return Result("refuted", time.time() - t0, model=str(s.model())[:6000], tries=n + 1)
        reason = s.reason_unknown()
    return Result("unknown", time.time() - t0, reason=reason, tries=len(tries))
