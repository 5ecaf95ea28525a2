"""Assumed contracts of Python builtins, networkx and pgmpy, and the operations on symbolic values.

Everything in this file is trusted: each entry states what the library call does.  The
list of entries actually used is reported with every check (Engine.used_lib).
"""
import ast
import z3
from .logic import *
from .values import *
from .repo import FuncInfo, ClassInfo, BUILTIN_EXC

last3 = z3.Function("last3", U, U)
cpdOf = z3.Function("cpdOf", X, U, U)
relOf = z3.Function("relOf", X, U, X)
isDD = z3.Function("isDD", U, B)
isCC = z3.Function("isCC", U, B)
isSF = z3.Function("isSF", U, B)
cpdNone = z3.Function("cpdNone", U, B)
lastp = z3.Function("lastp", REL, U, U, U)
firsts = z3.Function("firsts", REL, U, U, U)
RTb = z3.Function("RTb", REL, U, U, B)


def _lib_axioms():
    x, y, a, b = z3.Consts("x y a b", U)
    e = z3.Const("e", REL)
    mec = strconst("mec")
    FA = z3.ForAll
    axiom([cat], FA([a, b, x], z3.Implies(cat(a, x) == cat(b, x), a == b),
                    patterns=[z3.MultiPattern(cat(a, x), cat(b, x))]), "concatenation with the same suffix is injective")
    axiom([RT], FA([e, x, y], z3.Implies(RT(e, x, y), z3.And(edge(e, lastp(e, x, y), y),
          z3.Or(lastp(e, x, y) == x, RTb(e, x, lastp(e, x, y))))), patterns=[RT(e, x, y)]), "a descendant has an incoming edge")
    axiom([RT], FA([e, x, y], z3.Implies(RT(e, x, y), z3.And(edge(e, x, firsts(e, x, y)),
          z3.Or(firsts(e, x, y) == y, RTb(e, firsts(e, x, y), y)))), patterns=[RT(e, x, y)]), "an ancestor has an outgoing edge")
    # RTb is RT; the second name keeps instantiation from unrolling paths for ever
    axiom([RT], FA([e, x, y], RTb(e, x, y) == RT(e, x, y), patterns=[z3.MultiPattern(RT(e, x, y), RTb(e, x, y))]), "definition of RTb")


_lib_axioms()


def mec_axiom():
    """strings: the last three characters of s + "mec" are "mec" """
    a = z3.Const("a", U)
    mec = strconst("mec")
    return z3.ForAll([a], last3(cat(a, mec)) == mec, patterns=[cat(a, mec)])


class CellGhost:
    """opaque mutable state (distributions, random state, files ...) known only through its term"""
    def __init__(self, t):
        self.t = t


EXTRA = {}   # handlers added by the contract files


def known(t):
    """the value of an updated map where the update decides it"""
    from .interp import expand
    r = z3.simplify(expand(t))
    return r if not z3.is_app_of(r, z3.Z3_OP_ITE) else t


def listed(bag, key, b):
    """the list of key holds b"""
    from .interp import expand
    r = z3.simplify(expand(cnt(bag, key, b)))
    if z3.is_app_of(r, z3.Z3_OP_ITE) and z3.is_int_value(r.arg(1)) and z3.is_int_value(r.arg(2)) and r.arg(1).as_long() == 1 and r.arg(2).as_long() == 0:
        return r.arg(0)
    return cnt(bag, key, b) > 0


class CellModel(CellMap):
    """the Model of a network: variable -> relationship, plus (opaque) the tables and domains made from them"""
    def __init__(self, keys, m, tabs, dom=None):
        super().__init__(keys, m)
        self.tabs = tabs
        self.dom = dom      # the variables with a domain (None: those with a relationship); a removed variable keeps its domain


class CellRMap:
    """dict atom -> number"""
    def __init__(self, keys, m):
        self.keys, self.m = keys, m


class CellPath:
    """mutable list of atoms given by a sequence term"""
    def __init__(self, t):
        self.t = t
    kind = "list"


PURE_OPAQUE = {"warn", "warnings.warn", "print", "str", "repr", "format", "super"}
GRAPH_VIEWS = {"nodes", "edges"}


class Lib1:
    """the `lib` object of the engine"""

    def __init__(self):
        self.extra = dict(EXTRA)   # name -> handler(eng, fv, args, kw, st)
        self.isinst = {}

    # ------------------------------------------------------------ names and attributes
    def builtin(self, name):
        if name in BUILTIN_EXC:
            return Lib("exc." + name)
        return Lib(name)

    def truth(self, eng, v, st):
        if isinstance(v, Lib):
            if v.name in ("keysview", "nodeview", "edgeview", "baglist", "itemsview", "valuesview"):
                return eng.truth(self.iterable(eng, v, st), st)
            return TRUE
        if isinstance(v, Obj):
            if v.tag == "cpd":
                return Not(cpdNone(v.t))
            if v.tag == "ctx":
                return z3.Function("ctxNonEmpty", v.t.sort(), B)(v.t)
            return TRUE
        if isinstance(v, (Func, ClsV)):
            return TRUE
        raise Unsupported(f"truth of {v!r}")

    def attr(self, eng, v, name, st):
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, CellGraph) and name in ("nodes", "edges"):
                return Lib(name[:-1] + "view", v)
            if isinstance(c, CellGraph) and name == "graph":
                if "graph" not in c.fields:
                    st.set(v, c.but(fields=dict(c.fields, graph=st.alloc(CellLitDict([])))))
                return st.heap[v.id].fields["graph"]
            h = self.extra.get(f"{type(c).__name__}.{name}")
            if h is not None:
                return h(eng, v, st)
        if isinstance(v, Opaque):
            return Opaque("attr")
        if isinstance(v, Obj):
            h = self.extra.get(f"{v.tag}.{name}")
            if h is not None and getattr(h, "is_attr", False):
                return h(eng, v, st)
        if isinstance(v, Func) and name == "__name__":
            return Opaque("name")
        return None

    def iterable(self, eng, v, st):
        n = v.name
        if n == "baglist":
            ref, key = v.data
            c = st.cell(ref)
            bag = st.heap[c.region].bag
            b = binder(U, "b")
            nodup = eng.must(st, z3.ForAll([b], cnt(bag, key, b) <= 1), 800)
            if nodup:
                return Coll([Branch([b], listed(bag, key, b), Atom(b))], "list", nodup=True)
            k = binder(I, "k")
            return Coll([Branch([b, k], z3.And(0 <= k, k < cnt(bag, key, b)), Atom(b))], "list")
        if n == "keysview":
            return eng.iterable(v.selfv, st)
        if n == "nodeview":
            return setcoll(st.cell(v.selfv).nodes, "keys")
        if n == "edgeview":
            E = st.cell(v.selfv).E
            a, b = binder(U, "a"), binder(U, "b")
            return Coll([Branch([a, b], edge(E, a, b), Tup([Atom(a), Atom(b)]))], "keys", nodup=True)
        if n == "itemsview":
            c = st.cell(v.selfv)
            if isinstance(c, CellMap):
                b = binder(U, "b")
                return Coll([Branch([b], mem(c.keys, b), Tup([Atom(b), Atom(app(c.m, b))]))], "keys", nodup=True)
            if isinstance(c, CellBag):
                b = binder(U, "b")
                return Coll([Branch([b], mem(c.keys, b), Tup([Atom(b), Lib("baglist", None, (v.selfv, b))]))], "keys", nodup=True)
            if isinstance(c, CellLitDict):
                return Tup([Tup([k, w]) for k, w in c.items], "list")
            if isinstance(c, CellAbsDict):
                return c.coll
        if n == "valuesview":
            c = st.cell(v.selfv)
            if isinstance(c, CellMap):
                b = binder(U, "b")
                return Coll([Branch([b], mem(c.keys, b), Atom(app(c.m, b)))], "list")
            if isinstance(c, CellBag):
                b = binder(U, "b")
                return Coll([Branch([b], mem(c.keys, b), Lib("baglist", None, (v.selfv, b)))], "list")
            if isinstance(c, CellLitDict):
                return Tup([w for k, w in c.items], "list")
            if isinstance(c, CellAbsDict):
                return Coll([Branch(vs, g, e.items[1]) for vs, g, e in c.coll.inst()], "list")
        if n == "enumerated":
            s = v.data
            return Seq(s.n, lambda i: Tup([Num(i), s.at(i)]), raw=s.raw)
        h = self.extra.get("iter:" + n)
        if h:
            return h(eng, v, st)
        return None

    def contains(self, eng, v, c, st):
        if isinstance(c, Lib):
            if c.name == "keysview":
                return eng.contains(v, c.selfv, st)
            if c.name == "nodeview":
                return mem(st.cell(c.selfv).nodes, v.t) if isinstance(v, Atom) else FALSE
            if c.name == "edgeview" and isinstance(v, Tup):
                return edge(st.cell(c.selfv).E, v.items[0].t, v.items[1].t)
        if isinstance(c, Ref):
            k = st.cell(c)
            if isinstance(k, CellPath):
                return eng.member(v, eng.seq(PathV(k.t), st), st)
            if isinstance(k, CellRMap):
                return mem(k.keys, v.t) if isinstance(v, Atom) else FALSE
            if isinstance(k, CellAbsDict):
                return Or(*[Exists(vs, g) for vs, g, _ in eng.pairs_at(k, v, st)])
        h = self.extra.get("in:" + getattr(c, "name", getattr(c, "tag", "?")))
        if h:
            return h(eng, v, c, st)
        return None

    def binop(self, eng, op, a, b, st):
        if isinstance(op, ast.Add) and isinstance(a, Ref) and isinstance(st.heap[a.id], CellPath):
            return list(eng.binop(op, PathV(st.cell(a).t), b, st))
        # list + list where one side is a bag list or view
        def isl(v):
            return isinstance(v, Lib) and v.name == "baglist"
        if isinstance(op, ast.Add) and (isl(a) or isl(b)):
            ca, cb = eng.coll(a, st), eng.coll(b, st)
            return [(st, st.alloc(CellColl("list", Coll(ca.branches + cb.branches, "list"))))]
        if isinstance(op, (ast.Sub, ast.BitOr, ast.BitAnd)) and any(isinstance(x, Lib) and x.name in ("keysview", "nodeview") for x in (a, b)):
            r = eng.setop({ast.Sub: "difference", ast.BitOr: "union", ast.BitAnd: "intersection"}[type(op)], a, [b], st)
            return [(st, st.alloc(CellColl("set", r)))]
        if isinstance(op, ast.Mult) and isinstance(a, Ref):
            return [(st, Opaque("list repetition"))]
        h = self.extra.get("binop")
        if h:
            return h(eng, op, a, b, st)
        return None

    def slice(self, eng, v, lo, hi, st):
        if isinstance(v, Atom) and lo is not None and lo.py == -3 and hi is None:
            return Atom(last3(v.t))
        if isinstance(v, (Atom, Opaque)):
            return Opaque("substring")
        if isinstance(v, Ref) and isinstance(st.heap[v.id], CellPath):
            return eng.slice(PathV(st.cell(v).t), lo, hi, st)
        return None

    def getitem(self, eng, v, k, st):
        if isinstance(v, Opaque):
            return [(st, Opaque("item"))]
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, CellPath):
                return list(eng.getitem(PathV(c.t), k, st))
            if isinstance(c, CellModel) and isinstance(k, Atom):
                return [(s1, r or Obj(known(app(c.m, k.t)), "rel")) for s1, r in eng.guarded(st, mem(c.keys, k.t), "KeyError")]
            if isinstance(c, CellRMap) and isinstance(k, Atom):
                return [(s1, r or Num(rapp(c.m, k.t))) for s1, r in eng.guarded(st, mem(c.keys, k.t), "KeyError")]
            h = self.extra.get("getitem:" + type(c).__name__)
            if h:
                return h(eng, v, k, st)
        if isinstance(v, Lib):
            h = self.extra.get("getitem:" + v.name)
            if h:
                return h(eng, v, k, st)
        if isinstance(v, Obj):
            h = self.extra.get("getitem:" + v.tag)
            if h:
                return h(eng, v, k, st)
        return None

    def setitem(self, eng, o, k, v, st):
        if isinstance(o, Ref):
            c = st.cell(o)
            if isinstance(c, CellModel):
                h = self.extra.get(f"store:{v.tag}" if isinstance(v, Obj) else f"store:{type(st.heap[v.id]).__name__}" if isinstance(v, Ref) else "")
                if h is not None:
                    v = h(eng, v, st)
                elif not isinstance(v, Obj):
                    v = Obj(fresh(U, "rel"), "rel")
                # contract of Model.__setitem__ (assumed here): registers the relationship, recomputes tables, changes nothing else
                k0, m0 = c.keys, c.m
                d0 = c.dom
                st.set(o, CellModel(defset(lambda x: Or(mem(k0, x), x == k.t), "K"), defmap(lambda x: z3.If(x == k.t, v.t, app(m0, x)), "M"), fresh(X, "tab"),
                                    defset(lambda x: Or(mem(d0, x), x == k.t), "K") if d0 is not None else None))
                yield st, None
                return
            if isinstance(c, CellMap) and isinstance(v, Num) and v.t.sort() == I:
                v = Atom(intatom(v.t))
            if isinstance(c, CellMap) and isinstance(v, Atom):
                k0, m0 = c.keys, c.m
                st.set(o, CellMap(defset(lambda x: Or(mem(k0, x), x == k.t), "K"),
                                  defmap(lambda x: z3.If(x == k.t, v.t, app(m0, x)), "M")))
                yield st, None
                return
            if isinstance(c, CellBag):
                bag = st.heap[c.region].bag
                cont = eng.coll(v, st)
                cf = self.countf(eng, cont, st)
                ka = c.keys
                # a new list object: other dictionaries sharing this region keep the old one
                reg = st.alloc(CellRegion(defbag(lambda a, x: z3.If(a == k.t, cf(x), cnt(bag, a, x)), "C")))
                st.set(o, CellBag(defset(lambda x: Or(mem(ka, x), x == k.t), "K"), reg.id))
                yield st, None
                return
            if isinstance(c, CellLitDict):
                items, hit = [], False
                for kk, vv in c.items:
                    f = z3.simplify(eng.eq(kk, k, st))
                    if z3.is_true(f):
                        items.append((kk, v))
                        hit = True
                    elif z3.is_false(f):
                        items.append((kk, vv))
                    else:
                        raise Unsupported("symbolic key in a literal dict")
                if not hit:
                    items.append((k, v))
                st.set(o, CellLitDict(items))
                yield st, None
                return
            if isinstance(c, CellAbsDict):
                br = []
                for b in c.coll.branches:
                    if isinstance(b, Marker):
                        br.append(b)
                    else:
                        vs, g, e = b.inst()
                        br.append(Branch(vs, And(g, Not(eng.eq(e.items[0], k, st))), e))
                br.append(single(Tup([k, eng.freeze(v, st)])))
                st.set(o, CellAbsDict(Coll(br, "dict")))
                yield st, None
                return
            h = self.extra.get("setitem:" + type(c).__name__)
            if h:
                yield from h(eng, o, k, v, st)
                return
        if isinstance(o, Lib):
            h = self.extra.get("setitem:" + o.name)
            if h:
                yield from h(eng, o, k, v, st)
                return
        raise Unsupported(f"item assignment on {o!r}")

    def delitem(self, eng, o, k, st):
        if isinstance(o, Ref):
            c = st.cell(o)
            if isinstance(c, (CellMap, CellBag)):
                for st1, r in eng.guarded(st, mem(c.keys, k.t), "KeyError"):
                    if r:
                        yield st1, r
                    elif isinstance(c, CellModel):
                        st1.set(o, CellModel(defset(lambda x: And(mem(c.keys, x), x != k.t), "K"), c.m, fresh(X, "tab"), c.dom if c.dom is not None else c.keys))
                        yield st1, None
                    else:
                        ks = defset(lambda x: And(mem(c.keys, x), x != k.t), "K")
                        st1.set(o, CellMap(ks, c.m) if isinstance(c, CellMap) else CellBag(ks, c.region))
                        yield st1, None
                return
            h = self.extra.get("delitem:" + type(c).__name__)
            if h:
                yield from h(eng, o, k, st)
                return
        raise Unsupported("del item")

    def setattr(self, eng, o, name, v, st):
        if isinstance(o, (Opaque,)) or isinstance(o, Obj) and o.tag in ("cpd", "rel"):
            yield st, None
            return
        raise Unsupported(f"attribute assignment on {o!r}")

    def unpack(self, eng, v, n, st):
        if isinstance(v, Seq) or isinstance(v, PathV):
            s = eng.seq(v, st)
            out = []
            for st1, r in eng.guarded(st, s.n == n, "ValueError"):
                out.append((st1, r if r else [s.at(z3.IntVal(i)) for i in range(n)]))
            return out
        if isinstance(v, Ref):
            c = st.cell(v)
            if isinstance(c, CellColl):
                return self.unpack(eng, c.content, n, st)
        if isinstance(v, Coll) and n == 1:
            # exactly one distinct element
            bs = list(v.inst())
            out = []
            some = Or(*[Exists(vs, g) for vs, g, _ in bs])
            same = []
            for vs, g, e in bs:
                for ws, h, f in v.inst():
                    same.append(ForAll(vs + ws, Imp(And(g, h), eng.eq(e, f, st))))
            if v.kind != "set":
                raise Unsupported("unpacking a list of unknown length")
            for st1, r in eng.guarded(st, And(some, *same), "ValueError"):
                if r:
                    out.append((st1, r))
                    continue
                for vs, g, e in bs:
                    st2 = st1.clone()
                    st2.fresh += vs
                    st2.assume(g)
                    out.append((st2, [e]))
            return out
        return None

    def starstar(self, eng, v, kw, st):
        if isinstance(v, Ref):
            c = st.cell(v)
            if isinstance(c, CellLitDict) and all(k.py is not None for k, _ in c.items):
                for k, w in c.items:
                    kw[k.py] = w
                return
        kw["**"] = v

    def mkdict(self, eng, coll, st):
        """a dict from (key, value) pairs"""
        brs = list(coll.inst())
        if len(brs) == 1 and len(brs[0][0]) == 1 and all(isinstance(i, Atom) for i in brs[0][2].items) and brs[0][2].items[0].t.eq(brs[0][0][0]):
            (v,), g, e = brs[0]
            return st.alloc(CellMap(defset(lambda x: z3.substitute(g, (v, x)), "K"), defmap(lambda x: z3.substitute(e.items[1].t, (v, x)), "M")))
        if all(isinstance(e.items[0], Atom) and isinstance(e.items[1], Atom) for _, _, e in brs) and brs:
            x = binder(U, "x")
            keys = defset(lambda x: Or(*[Exists(vs, And(g, e.items[0].t == x)) for vs, g, e in brs]), "K")
            # the value of a key: the last pair wins; a skolem map constrained by membership
            m = fresh(MAP, "M")
            st.assume(z3.ForAll([x], Imp(mem(keys, x), Or(*[Exists(vs, And(g, e.items[0].t == x, e.items[1].t == app(m, x))) for vs, g, e in brs])),
                                patterns=[app(m, x)]))
            return st.alloc(CellMap(keys, m))
        if len(brs) == 1 and len(brs[0][0]) == 1 and isinstance(brs[0][2].items[0], Atom) and brs[0][2].items[0].t.eq(brs[0][0][0]) and \
                isinstance(brs[0][2].items[1], Num) and brs[0][2].items[1].t.sort() == I and brs[0][2].items[1].py is not None:
            (v,), g, e = brs[0]
            return st.alloc(CellMap(defset(lambda x: z3.substitute(g, (v, x)), "K"), defmap(lambda x: intatom(e.items[1].t), "M")))
        if all(isinstance(e.items[0], Atom) and isinstance(e.items[1], Num) and e.items[1].py is None for _, _, e in brs) and brs:
            keys = defset(lambda x: Or(*[Exists(vs, And(g, e.items[0].t == x)) for vs, g, e in brs]), "K")
            x, m = binder(U, "x"), fresh(RMAP, "F")
            st.assume(z3.ForAll([x], Imp(mem(keys, x), Or(*[Exists(vs, And(g, e.items[0].t == x, e.items[1].t == rapp(m, x))) for vs, g, e in brs])),
                                patterns=[rapp(m, x)]))
            return st.alloc(CellRMap(keys, m))
        if all(isinstance(e.items[0], Atom) for _, _, e in brs) and brs and all(self.islist(eng, e.items[1], st) for _, _, e in brs) and len(brs) == 1:
            vs, g, e = brs[0]
            # dict key -> list; functional in the key
            keys = defset(lambda x: Exists(vs, And(g, e.items[0].t == x)), "K")
            if len(vs) == 1 and e.items[0].t.eq(vs[0]):
                v = e.items[1]
                if isinstance(v, Lib) and v.name == "baglist" and v.data[1].eq(vs[0]):
                    # the values are the list objects of another dict themselves, not copies
                    src = st.heap[v.data[0].id]
                    return st.alloc(CellBag(keys, src.region))
                cf = lambda a: self.countf(eng, eng.coll(subst(e.items[1], [(vs[0], a)]), st), st)
                bag = defbag(lambda a, x: cf(a)(x), "C")
                reg = st.alloc(CellRegion(bag))
                return st.alloc(CellBag(keys, reg.id))
        return st.alloc(CellAbsDict(coll))

    def islist(self, eng, v, st):
        if isinstance(v, Lib) and v.name == "baglist":
            return True
        if isinstance(v, Coll) and v.kind == "list" or isinstance(v, Tup) and v.kind == "list":
            return True
        return isinstance(v, Ref) and isinstance(st.heap[v.id], CellColl) and st.heap[v.id].kind == "list"

    def countf(self, eng, coll, st):
        """multiplicity function of a collection of atoms"""
        brs = coll.branches
        if len(brs) == 1:
            b = brs[0]
            # the copy of a bag list: {x | cnt(bag,a,x) > 0} with cnt <= 1, or indexed
            if b.vars and isinstance(b.elem, Atom) and b.elem.t.eq(b.vars[0]):
                v = b.vars[0]
                if len(b.vars) == 1 and coll.nodup:
                    g = b.guard
                    if z3.is_gt(g) and g.arg(0).decl().name() == "cnt":
                        return lambda x: z3.substitute(g.arg(0), (v, x))
                    # a bag list filtered by a condition keeps the multiplicities of what passes
                    cs = g.children() if z3.is_and(g) else []
                    pos = [t for t in cs if z3.is_gt(t) and t.arg(0).decl().name() == "cnt" and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == 0]
                    if len(pos) == 1:
                        rest = And(*[t for t in cs if t is not pos[0]])
                        return lambda x: z3.If(z3.substitute(rest, (v, x)), z3.substitute(pos[0].arg(0), (v, x)), 0)
                    return lambda x: z3.If(z3.substitute(b.guard, (v, x)), 1, 0)
                if len(b.vars) == 2 and b.vars[1].sort() == I:
                    # (x, i) with 0 <= i < cnt(x), and conditions on x only: what passes keeps its multiplicity
                    def conj(t):
                        return [u for k in t.children() for u in conj(k)] if z3.is_and(t) else [t]
                    cs, i = conj(b.guard), b.vars[1]
                    has = lambda t: t.eq(i) or any(has(k) for k in t.children()) or z3.is_quantifier(t)
                    about, rest = [t for t in cs if has(t)], [t for t in cs if not has(t)]
                    up = [t for t in about if z3.is_lt(t) and t.arg(0).eq(i) and z3.is_app(t.arg(1)) and t.arg(1).decl().name() == "cnt"]
                    lo = [t for t in about if z3.is_le(t) and t.arg(1).eq(i) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() == 0
                          or z3.is_ge(t) and t.arg(0).eq(i) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == 0]
                    if len(up) == 1 and len(lo) == 1 and len(about) == 2:
                        n = up[0].arg(1)
                        if not rest:
                            return lambda x: z3.substitute(n, (v, x))
                        return lambda x: z3.If(z3.substitute(And(*rest), (v, x)), z3.substitute(n, (v, x)), 0)
        if all(not b.vars for b in brs):
            return lambda x: z3.Sum([z3.If(And(b.guard, b.elem.t == x), 1, 0) for b in brs]) if brs else z3.IntVal(0)
        if len(brs) > 1 and coll.kind != "set":
            fs = [self.countf(eng, Coll([b], coll.kind, True), st) for b in brs]
            return lambda x: z3.Sum([f(x) for f in fs])
        raise Unsupported("multiplicities of a collection")

    # ------------------------------------------------------------ objects
    def newobj(self, eng, cls, st):
        if eng.repo.is_subclass(cls, "BayesianNetwork") or eng.repo.is_subclass(cls, "DiGraph"):
            return st.alloc(CellGraph(cls, defset(lambda x: FALSE, "N"), defrel(lambda a, b: FALSE, "E"), {}))
        return st.alloc(CellObj(cls, {}))

    def init(self, eng, ref, args, kw, st):
        yield st, ref

    def callobj(self, eng, fv, args, kw, st):
        if isinstance(fv, Opaque):
            yield st, Opaque("call")
            return
        h = self.extra.get("callobj:" + fv.tag)
        if h:
            yield from h(eng, fv, args, kw, st)
            return
        raise Unsupported(f"calling {fv!r}")

    def decorate(self, eng, f, decs, st, ctx):
        names = [ast.unparse(d) for d in decs]
        if all(n.startswith("lru_cache") for n in names):
            return f       # memoisation of a function of its keyword arguments
        raise Unsupported(f"decorator {names}")

    def with_(self, eng, s, st, ctx):
        h = self.extra.get("with")
        if h is None:
            raise Unsupported("with statement")
        yield from h(eng, s, st, ctx)

    def acc_num(self, eng, fn, st, normals, depends):
        """a number (or an array of numbers) to which every iteration adds something: the initial value plus a sum"""
        f, n = fn
        if not eng._once:       # every element is visited once
            return Unknown()
        init = st.frames[f][n]
        arr = isinstance(init, Seq)
        k = binder(I, "k")
        get = (lambda v: v.at(k).t) if arr else (lambda v: v.t)
        total = get(init)
        for vs, g, b0, s1, o, fb, pb, hv in normals:
            v, old = s1.frames[f].get(n), hv.get(fn)
            if v is old:
                continue
            if type(v) is not type(old) or len(vs) != 1 or vs[0].sort() != U or s1.fresh[fb:] or arr and not eng.must(s1, v.n == init.n):
                return Unknown()
            pc = And(*s1.pc[len(st.pc):])
            new, was = get(v), get(old)
            d = None
            if z3.is_add(new):
                cs = new.children()
                rest = [c for c in cs if not c.eq(was)]
                if len(rest) == len(cs) - 1:
                    d = z3.Sum(rest) if len(rest) > 1 else rest[0]
            if d is None or depends(pc) or depends(d) or len(normals) != 1:
                return Unknown()
            S = defset(lambda x: z3.substitute(pc, (vs[0], x)), "S")
            d = z3.ToReal(d) if d.sort() == I else d
            total = total + Sigma(S, defrmap(lambda x: z3.substitute(d, (vs[0], x))))
        if arr:
            return Seq(init.n, lambda i: Num(z3.substitute(total, (k, i))), "array", init.raw)
        return Num(total)

    def acc_field(self, eng, k, c0, h, st, normals):
        raise Unsupported(f"field {k} changed in a loop")

    # ------------------------------------------------------------ calls
    def call(self, eng, fv, args, kw, st):
        h = self.extra.get(fv.name)
        if h is not None:
            r = h(eng, fv, args, kw, st)
            if r is not None:
                yield from r
                return
        name = fv.name
        if name.startswith("."):
            args = [eng.askey(a, fv.selfv, st) for a in args]
        if name.startswith("exc."):
            yield st, Opaque("exception")
            return
        if name in ("nodeview", "edgeview") and not args:
            yield st, fv           # g.nodes() is g.nodes
            return
        m = getattr(self, "c_" + name.replace(".", "_"), None) if not name.startswith(".") else getattr(self, "m_" + name[1:], None)
        if m is None and not name.startswith("."):
            short = name.split(".")[-1]
            m = getattr(self, "c_" + short, None) if name.split(".")[0] in ("typing",) else None
        if m is None:
            if name in PURE_OPAQUE:
                yield st, Opaque(name)
                return
            if isinstance(fv.selfv, Opaque):
                yield st, Opaque("method")
                return
            raise Unsupported(f"library call {name}")
        r = m(eng, fv.selfv, args, kw, st)
        yield from r

    # --- builtins
    def c_set(self, eng, _, args, kw, st):
        c = eng.coll(args[0], st) if args else Coll([], "set")
        yield st, st.alloc(CellColl("set", Coll(c.branches, "set", c.nodup)))

    c_frozenset = c_set

    def c_list(self, eng, _, args, kw, st):
        if not args:
            yield st, st.alloc(CellColl("list", Tup([], "list")))
            return
        if isinstance(args[0], Ref) and isinstance(st.heap[args[0].id], CellPath):
            yield st, PathV(st.heap[args[0].id].t)
            return
        c = eng.iterable(args[0], st)
        if isinstance(args[0], PathV):
            yield st, args[0]
            return
        yield st, st.alloc(CellColl("list", c if isinstance(c, (Tup, Seq)) else Coll(c.branches, "list", c.nodup)))

    def c_tuple(self, eng, _, args, kw, st):
        c = eng.iterable(args[0], st) if args else Tup([])
        yield st, c if isinstance(c, (Tup, Seq)) else Coll(c.branches, "tuple", c.nodup)

    def c_dict(self, eng, _, args, kw, st):
        if not args and not kw:
            yield st, st.alloc(CellLitDict([]))
            return
        if len(args) == 1 and isinstance(args[0], Ref):
            c = st.cell(args[0])
            if isinstance(c, CellMap):
                yield st, st.alloc(CellMap(c.keys, c.m))
                return
            if isinstance(c, CellBag):
                yield st, st.alloc(CellBag(c.keys, c.region))     # shallow: the lists are shared
                return
            if isinstance(c, CellLitDict):
                yield st, st.alloc(CellLitDict(c.items))
                return
            if isinstance(c, CellAbsDict):
                yield st, st.alloc(CellAbsDict(c.coll))
                return
        if len(args) == 1:
            yield st, self.mkdict(eng, eng.coll(args[0], st), st)
            return
        raise Unsupported("dict()")

    def c_sorted(self, eng, _, args, kw, st):
        c = eng.iterable(args[0], st)
        yield st, st.alloc(CellColl("list", Coll(eng.coll(c, st).branches, "list", getattr(c, "nodup", False))))

    def c_reversed(self, eng, _, args, kw, st):
        v = eng.freeze(args[0], st)
        if isinstance(v, Tup):
            yield st, Tup(list(reversed(v.items)), "list")
            return
        s = eng.seq(v, st)
        if s is not None:
            yield st, Seq(s.n, lambda i: s.at(s.n - 1 - i), "iter", s.raw)
            return
        yield st, eng.coll(v, st)

    def c_len(self, eng, _, args, kw, st):
        yield st, self.length(eng, args[0], st)

    def length(self, eng, v, st):
        if isinstance(v, Lib) and v.name in ("keysview",):
            return self.length(eng, v.selfv, st)
        if isinstance(v, Lib) and v.name == "nodeview":
            return Num(card(st.cell(v.selfv).nodes))
        if isinstance(v, Ref):
            c = st.cell(v)
            if isinstance(c, (CellMap, CellBag)):
                return Num(card(c.keys))
            if isinstance(c, CellPath):
                return Num(plen(c.t))
            if isinstance(c, CellLitDict):
                return Num(len(c.items))
            if isinstance(c, CellColl):
                if c.kind == "set" and isinstance(c.content, Coll) and all(isinstance(b, Branch) and isinstance(b.elem, Atom) for b in c.content.branches):
                    return Num(card(eng.setterm(v, st)))
                return self.length(eng, c.content, st)
        if isinstance(v, Tup):
            return Num(len(v.items))
        if isinstance(v, Opaque):
            return Num(fresh(I, "len"))
        s = eng.seq(v, st)
        if s is not None:
            return Num(s.n)
        if isinstance(v, Coll) and not all(isinstance(b, Branch) and isinstance(b.elem, Atom) for b in v.branches):
            raise Unsupported("size of a collection of collections")
        if isinstance(v, Coll) and (v.kind in ("set", "keys") or v.nodup):
            return Num(card(eng.setterm(v, st)))
        h = self.extra.get("len:" + getattr(v, "tag", "?"))
        if h:
            return h(eng, v, st)
        raise Unsupported(f"length of {v!r}")

    def c_any(self, eng, _, args, kw, st):
        c = eng.coll(args[0], st)
        yield st, BoolV(Or(*[Exists(vs, And(g, eng.truth(e, st))) for vs, g, e in c.inst()]))

    def c_all(self, eng, _, args, kw, st):
        c = eng.coll(args[0], st)
        yield st, BoolV(And(*[ForAll(vs, Imp(g, eng.truth(e, st))) for vs, g, e in c.inst()]))

    def c_bool(self, eng, _, args, kw, st):
        yield st, BoolV(eng.truth(args[0], st))

    def c_iter(self, eng, _, args, kw, st):
        yield st, st.alloc(CellColl("iter", eng.iterable(args[0], st))) if not isinstance(args[0], Coll) else args[0]

    def c_next(self, eng, _, args, kw, st):
        src = args[0]
        if isinstance(src, Lib) and self.extra.get("next:" + src.name):
            yield from self.extra["next:" + src.name](eng, src, args[1:], st)
            return
        if isinstance(src, Ref) and isinstance(st.cell(src), CellColl) and st.cell(src).kind == "iter":
            raise Unsupported("stepping an iterator by hand")
        c = eng.coll(src, st)
        bs = list(c.inst())
        some = Or(*[Exists(vs, g) for vs, g, _ in bs])
        for st1, r in eng.guarded(st, some, "StopIteration"):
            if r:
                if len(args) > 1:
                    yield st1, args[1]
                else:
                    yield st1, r
                continue
            for vs, g, e in bs:
                st2 = st1.clone() if len(bs) > 1 else st1
                if vs:
                    # which element comes first is not specified: it is some element
                    cs = [fresh(v.sort(), "first") for v in vs]
                    pr = list(zip(vs, cs))
                    st2.ghost["choice"] = st2.ghost.get("choice", ()) + tuple(c.decl().name() for c in cs)
                    k = len(st2.pc)
                    st2.assume(z3.substitute(g, *pr))
                    if len(bs) == 1:    # that some element exists is already known: merging may forget which one it was
                        st2.ghost["choicepc"] = st2.ghost.get("choicepc", ()) + tuple(range(k, len(st2.pc)))
                    yield st2, subst(e, pr)
                else:
                    st2.assume(g)
                    yield st2, e

    def c_range(self, eng, _, args, kw, st):
        if all(a.py is not None for a in args):
            yield st, Tup([Num(i) for i in range(*[a.py for a in args])], "list")
            return
        lo = z3.IntVal(0) if len(args) == 1 else args[0].t
        hi = args[0].t if len(args) == 1 else args[1].t
        if len(args) > 2:
            raise Unsupported("range step")
        n = z3.If(hi > lo, hi - lo, 0)
        yield st, Seq(n, lambda i: Num(i + lo), raw=hi - lo)

    def c_enumerate(self, eng, _, args, kw, st):
        c = eng.iterable(args[0], st)
        start = kw.get("start") or (args[1] if len(args) > 1 else Num(0))
        if isinstance(c, Tup):
            yield st, Tup([Tup([Num(i + start.py), x]) for i, x in enumerate(c.items)], "list")
            return
        if isinstance(c, Seq):
            yield st, Seq(c.n, lambda i: Tup([Num(i + start.t), c.at(i)]), "iter", c.raw)
            return
        raise Unsupported("enumerating an unordered collection")

    def c_zip(self, eng, _, args, kw, st):
        cs = [eng.iterable(a, st) for a in args]
        if all(isinstance(c, Tup) for c in cs):
            yield st, Tup([Tup(list(t)) for t in zip(*[c.items for c in cs])], "list")
            return
        if all(isinstance(c, (Seq, Tup)) for c in cs) and not any(isinstance(c, Tup) for c in cs):
            n, raw = cs[0].n, cs[0].raw
            for c in cs[1:]:
                n = z3.If(c.n < n, c.n, n)
                d = z3.simplify(c.raw - raw)
                raw = (c.raw if d.as_long() < 0 else raw) if z3.is_int_value(d) else z3.If(c.raw < raw, c.raw, raw)
            yield st, Seq(n, lambda i: Tup([c.at(i) for c in cs]), "iter", raw)
            return
        raise Unsupported("zip of unordered collections")

    def c_isinstance(self, eng, _, args, kw, st):
        v, t = args
        ts = t.items if isinstance(t, Tup) else [t]
        yield st, BoolV(Or(*[self.isa(eng, v, x, st) for x in ts]))

    def isa(self, eng, v, t, st):
        nm = t.info.name if isinstance(t, ClsV) else t.name.split(".")[-1] if isinstance(t, Lib) else "?"
        if isinstance(v, Obj) and v.tag in ("cpd", "rel"):
            if nm == "DecisionDomain":
                return isDD(v.t)
            if nm == "ConstantCPD":
                return isCC(v.t)
            if nm == "StochasticFunctionCPD":
                return isSF(v.t)
            return z3.Function("isa_" + nm, U, B)(v.t)
        if nm == "str":
            if isinstance(v, Atom):
                return TRUE
            if isinstance(v, (Num, BoolV, NoneV, Tup, Coll, Ref, PathV, Seq, Lib)):
                return FALSE
        if nm == "tuple":
            if isinstance(v, Tup):
                return z3.BoolVal(v.kind == "tuple")
            if isinstance(v, (Atom, Num, NoneV, Ref, PathV)):
                return FALSE
        if nm in ("list", "set", "dict"):
            if isinstance(v, Ref):
                return z3.BoolVal(eng.kind(v, st) == nm)
            if isinstance(v, (Atom, Num, NoneV, BoolV)):
                return FALSE
            if isinstance(v, Lib) and v.name == "baglist":
                return z3.BoolVal(nm == "list")
        if isinstance(t, ClsV) and isinstance(v, Ref):
            c = st.cell(v)
            if isinstance(c, (CellGraph, CellObj)):
                return z3.BoolVal(isinstance(c.cls, ClassInfo) and eng.repo.is_subclass(c.cls, nm))
        raise Unsupported(f"isinstance({v!r}, {nm})")

    def c_hasattr(self, eng, _, args, kw, st):
        if isinstance(args[0], Obj) and isinstance(args[1], Atom):
            yield st, BoolV(z3.Function(f"hasattr_{args[1].py}", args[0].t.sort(), B)(args[0].t))
            return
        raise Unsupported("hasattr")

    def c_hash(self, eng, _, args, kw, st):
        raise Unsupported("hash")

    def c_str(self, eng, _, args, kw, st):
        if args and isinstance(args[0], Atom):
            yield st, args[0]
            return
        yield st, Opaque("str")

    def c_float(self, eng, _, args, kw, st):
        v = args[0]
        if isinstance(v, Atom) and v.py in ("inf", "-inf"):
            yield st, Obj(z3.Const("float_" + ("neg" if v.py[0] == "-" else "pos") + "inf", X), "inf", v.py)
            return
        if isinstance(v, Num):
            yield st, v
            return
        raise Unsupported("float()")

    def c_int(self, eng, _, args, kw, st):
        if isinstance(args[0], Num) and args[0].t.sort() == I:
            yield st, args[0]
            return
        if isinstance(args[0], Num):
            # truncation towards zero
            t = args[0].t
            yield st, Num(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
            return
        raise Unsupported("int()")

    def c_min(self, eng, _, args, kw, st):
        if len(args) == 2 and all(isinstance(a, Num) for a in args) and not kw:
            yield st, Num(z3.If(args[1].t < args[0].t, args[1].t, args[0].t))
            return
        raise Unsupported("min()")

    def c_max(self, eng, _, args, kw, st):
        if len(args) == 2 and all(isinstance(a, Num) for a in args) and not kw:
            yield st, Num(z3.If(args[1].t > args[0].t, args[1].t, args[0].t))
            return
        raise Unsupported("max()")

    def c_map(self, eng, _, args, kw, st):
        f, xs = args
        c = eng.iterable(xs, st)
        if isinstance(c, Tup):
            outs = [(st, [])]
            for x in c.items:
                nxt = []
                for s1, acc in outs:
                    for s2, v in eng.call(f, [x], {}, s1):
                        if isinstance(v, Raised):
                            yield s2, v
                        else:
                            nxt.append((s2, acc + [v]))
                outs = nxt
            for s1, acc in outs:
                yield s1, Tup(acc, "list")
            return
        raise Unsupported("map()")

    # --- itertools
    def c_itertools_permutations(self, eng, _, args, kw, st):
        c = eng.coll(args[0], st)
        r = args[1] if len(args) > 1 else kw.get("r")
        if r is None or r.py != 2:
            raise Unsupported("permutations of unknown length")
        if not self.nodup(eng, c, st):
            raise Unsupported("permutations of a list that may repeat elements")
        br = []
        for vs, g, e in c.inst():
            for ws, h, f in c.inst():
                br.append(Branch(vs + ws, And(g, h, Not(eng.eq(e, f, st))), Tup([e, f])))
        yield st, Coll(br, "iter", nodup=True)

    def c_copy_deepcopy(self, eng, _, args, kw, st):
        c = st.cell(args[0]) if isinstance(args[0], Ref) else None
        if isinstance(c, CellColl):
            yield st, st.alloc(CellColl(c.kind, c.content))      # elements are values here
            return
        raise Unsupported("deepcopy")

    def c_itertools_combinations(self, eng, _, args, kw, st):
        if len(args) != 2 or kw or not isinstance(args[1], Num):
            raise Unsupported("combinations")
        c = eng.coll(args[0], st)
        if not self.nodup(eng, c, st) or not all(isinstance(e, Atom) for _, _, e in c.inst()):
            raise Unsupported("combinations of a list that may repeat elements")
        N = eng.setterm(c, st)
        r = args[1].t
        for st1, err in eng.guarded(st, r >= 0, "ValueError"):
            S, x = binder(SET, "S"), binder(U, "x")
            yield st1, err or Coll([Branch([S], And(subset(S, N), card(S) == r), setcoll(S, "tuple"))], "iter", nodup=True)

    def c_itertools_chain_from_iterable(self, eng, _, args, kw, st):
        br = []
        for vs, g, e in eng.coll(args[0], st).inst():
            for ws, h, f in eng.coll(e, st).inst():
                br.append(Branch(vs + ws, And(g, h), f))
        c = Coll(br, "iter")
        c.nodup = any(v.sort() == SET for b in br for v in b.vars) and self.nodup(eng, c, st)
        yield st, c

    def c_itertools_product(self, eng, _, args, kw, st):
        if kw:
            raise Unsupported("product with repeat")
        brs = [([], TRUE, [])]
        for a in args:
            c = eng.coll(a, st)
            brs = [(vs + ws, And(g, h), es + [f]) for vs, g, es in brs for ws, h, f in c.inst()]
        yield st, Coll([Branch(vs, g, Tup(es)) for vs, g, es in brs], "iter")

    def nodup(self, eng, c, st):
        """no value occurs twice in the collection"""
        if c.nodup:
            return True
        return eng.must(st, self.nodup_formula(eng, c, st), 1500)

    def nodup_formula(self, eng, c, st):
        bs = [b for b in c.branches]
        out = []
        for i, b in enumerate(bs):
            vs, g, e = b.inst()
            for j, d in enumerate(bs[i:], i):
                ws, h, f = d.inst()
                same = eng.eq(e, f, st)
                if i == j:
                    if not vs:
                        continue
                    out.append(ForAll(vs + ws, Imp(And(g, h, same), And(*[v == w for v, w in zip(vs, ws)]))))
                else:
                    out.append(ForAll(vs + ws, Not(And(g, h, same))))
        return And(*out)

    # --- list / set / dict methods
    def content(self, eng, ref, st):
        return eng.coll(ref, st)

    def m_append(self, eng, ref, args, kw, st):
        if isinstance(ref, Lib) and ref.name == "baglist":
            yield self.bag_update(eng, ref, st, lambda bag, a, x: cnt(bag, a, x) + z3.If(x == args[0].t, 1, 0)), NoneV()
            return
        c = st.cell(ref)
        if isinstance(c, CellPath):
            st.set(ref, CellPath(snoc(c.t, args[0].t)))
            yield st, NoneV()
            return
        if isinstance(c, CellColl) and c.kind == "list":
            k = c.content
            v = eng.freeze(args[0], st)
            if isinstance(k, Tup):
                st.set(ref, CellColl("list", Tup(k.items + [v], "list")))
            else:
                st.set(ref, CellColl("list", Coll(self.branches(eng, k, st) + [single(v)], "list")))
            yield st, NoneV()
            return
        h = self.extra.get("append:" + type(c).__name__)
        if h:
            yield from h(eng, ref, args, st)
            return
        raise Unsupported("append")

    def branches(self, eng, k, st):
        """branches with accumulator markers kept"""
        return list(k.branches) if isinstance(k, Coll) else eng.coll(k, st).branches

    def bag_update(self, eng, bl, st, f):
        ref, key = bl.data
        c = st.cell(ref)
        rc = st.heap[c.region]
        bag = rc.bag
        st.heap[c.region] = CellRegion(defbag(lambda a, x: z3.If(a == key, f(bag, a, x), cnt(bag, a, x)), "C"))
        return st

    def m_extend(self, eng, ref, args, kw, st):
        c = st.cell(ref)
        if isinstance(c, CellColl):
            k = c.content
            o = eng.iterable(args[0], st)
            if isinstance(k, Tup) and isinstance(o, Tup):
                st.set(ref, CellColl("list", Tup(k.items + o.items, "list")))
            else:
                st.set(ref, CellColl("list", Coll(self.branches(eng, k, st) + eng.coll(o, st).branches, "list")))
            yield st, NoneV()
            return
        raise Unsupported("extend")

    def m_add(self, eng, ref, args, kw, st):
        c = st.cell(ref)
        if isinstance(c, CellColl) and c.kind == "set":
            st.set(ref, CellColl("set", Coll(self.branches(eng, c.content, st) + [single(eng.freeze(args[0], st))], "set")))
            yield st, NoneV()
            return
        h = self.extra.get("add:" + type(c).__name__)
        if h:
            yield from h(eng, ref, args, st)
            return
        raise Unsupported("add")

    def m_update(self, eng, ref, args, kw, st):
        c = st.cell(ref)
        if isinstance(c, CellColl) and c.kind == "set":
            br = self.branches(eng, c.content, st)
            for a in args:
                br = br + eng.coll(a, st).branches
            st.set(ref, CellColl("set", Coll(br, "set")))
            yield st, NoneV()
            return
        if isinstance(c, CellAbsDict) or isinstance(c, CellLitDict):
            raise Unsupported("dict.update")
        raise Unsupported("update")

    def m_remove(self, eng, ref, args, kw, st):
        v = args[0]
        if isinstance(ref, Lib) and ref.name == "baglist":
            r, key = ref.data
            bag = st.heap[st.cell(r).region].bag
            for st1, e in eng.guarded(st, cnt(bag, key, v.t) > 0, "ValueError"):
                if e:
                    yield st1, e
                else:
                    yield self.bag_update(eng, ref, st1, lambda bag, a, x: cnt(bag, a, x) - z3.If(x == v.t, 1, 0)), NoneV()
            return
        c = st.cell(ref)
        if isinstance(c, CellColl):
            k = eng.coll(c.content, st)
            if eng.pristine(c):
                t = eng.token(c, v)
                if c.kind == "list" and not k.nodup:
                    raise Unsupported("remove from a list that may repeat elements")
                if not eng.must(st, t):
                    raise Unsupported("remove of an element that may be absent")
                st.set(ref, CellColl(c.kind, Coll([Marker(0, [([], TRUE, v.t if isinstance(v, Atom) else setof(v))])], c.content.kind, k.nodup)))
                yield st, NoneV()
                return
            if c.kind == "list" and not self.nodup(eng, k, st):
                raise Unsupported("remove from a list that may repeat elements")
            ok = eng.member(v, k, st)
            for st1, e in eng.guarded(st, ok, "ValueError" if c.kind == "list" else "KeyError"):
                if e:
                    yield st1, e
                    continue
                br = [Branch(vs, And(g, Not(eng.eq(x, v, st1))), x) for vs, g, x in k.inst()]
                st1.set(ref, CellColl(c.kind, Coll(br, c.kind, True)))
                yield st1, NoneV()
            return
        raise Unsupported("remove")

    def m_discard(self, eng, ref, args, kw, st):
        c = st.cell(ref)
        k = eng.coll(c.content, st)
        br = [Branch(vs, And(g, Not(eng.eq(x, args[0], st))), x) for vs, g, x in k.inst()]
        st.set(ref, CellColl("set", Coll(br, "set", k.nodup)))
        yield st, NoneV()

    def m_pop(self, eng, ref, args, kw, st):
        if isinstance(ref, Lib):
            raise Unsupported("pop")
        c = st.cell(ref)
        if isinstance(c, CellMap):
            k = args[0]
            for st1, r in eng.guarded(st, mem(c.keys, k.t), "KeyError"):
                if r and len(args) > 1:
                    yield st1, args[1]
                elif r:
                    yield st1, r
                else:
                    st1.set(ref, CellMap(defset(lambda x: And(mem(c.keys, x), x != k.t), "K"), c.m))
                    yield st1, Atom(app(c.m, k.t))
            return
        if isinstance(c, CellPath) and not args:
            for st1, r in eng.guarded(st, plen(c.t) > 0, "IndexError"):
                if r:
                    yield st1, r
                else:
                    n = plen(c.t) - 1
                    st1.set(ref, CellPath(pre(c.t, n)))
                    yield st1, Atom(at(c.t, n))
            return
        h = self.extra.get("pop:" + type(c).__name__)
        if h:
            yield from h(eng, ref, args, st)
            return
        raise Unsupported("pop")

    def m_get(self, eng, ref, args, kw, st):
        default = args[1] if len(args) > 1 else NoneV()
        if isinstance(ref, Ref):
            for st1, v in list(eng.getitem(ref, args[0], st)):
                if isinstance(v, Raised) and v.exc == "KeyError":
                    yield st1, default
                else:
                    yield st1, v
            return
        raise Unsupported("get")

    def m_setdefault(self, eng, ref, args, kw, st):
        default = args[1] if len(args) > 1 else NoneV()
        if isinstance(ref, Ref):
            for st1, v in list(eng.getitem(ref, args[0], st)):
                if not (isinstance(v, Raised) and v.exc == "KeyError"):
                    yield st1, v
                    continue
                for st2, r in list(self.setitem(eng, ref, args[0], default, st1)):
                    if isinstance(r, Raised):
                        yield st2, r
                    else:
                        yield from eng.getitem(ref, args[0], st2)
            return
        raise Unsupported("setdefault")

    def m_keys(self, eng, ref, args, kw, st):
        yield st, Lib("keysview", ref)

    def m_items(self, eng, ref, args, kw, st):
        yield st, Lib("itemsview", ref)

    def m_values(self, eng, ref, args, kw, st):
        yield st, Lib("valuesview", ref)

    def m_copy(self, eng, ref, args, kw, st):
        if isinstance(ref, Obj) and ref.tag in ("rel", "cpd"):
            yield st, ref      # a copy of a relationship is an equal relationship
            return
        if isinstance(ref, Ref):
            c = st.cell(ref)
            if isinstance(c, (CellMap, CellBag, CellLitDict, CellAbsDict)):
                yield from self.c_dict(eng, None, [ref], {}, st)
                return
            if isinstance(c, CellColl):
                yield st, st.alloc(CellColl(c.kind, c.content))
                return
        raise Unsupported("copy")

    def m_union(self, eng, ref, args, kw, st):
        star = any(isinstance(a, Lib) and a.name == "*star" for a in args)
        args = self.unstar(eng, args, st)
        r = eng.setop("union", ref, args, st)
        if star and all(isinstance(b.elem, Atom) for b in r.branches):
            r = setcoll(eng.setterm(r, st))         # one name for the union of a family
        yield st, st.alloc(CellColl("set", r))

    def unstar(self, eng, args, st):
        """set().union(*[s1, s2, ...]) with an unknown number of sets"""
        out = []
        for a in args:
            if isinstance(a, Lib) and a.name == "*star":
                c = a.data
                br = []
                for vs, g, e in eng.coll(c, st).inst():
                    for ws, h, f in eng.coll(e, st).inst():
                        br.append(Branch(vs + ws, And(g, h), f))
                out.append(Coll(br, "set"))
            else:
                out.append(a)
        return out

    def m_intersection(self, eng, ref, args, kw, st):
        yield st, st.alloc(CellColl("set", eng.setop("intersection", ref, args, st)))

    def m_difference(self, eng, ref, args, kw, st):
        yield st, st.alloc(CellColl("set", eng.setop("difference", ref, args, st)))

    def m_symmetric_difference(self, eng, ref, args, kw, st):
        yield st, st.alloc(CellColl("set", eng.setop("symmetric_difference", ref, args, st)))

    def m_difference_update(self, eng, ref, args, kw, st):
        st.set(ref, CellColl("set", eng.setop("difference", ref, args, st)))
        yield st, NoneV()

    def m_intersection_update(self, eng, ref, args, kw, st):
        st.set(ref, CellColl("set", eng.setop("intersection", ref, args, st)))
        yield st, NoneV()

    def m_isdisjoint(self, eng, ref, args, kw, st):
        c = eng.iterable(args[0], st)
        f = And(*[ForAll(vs, Imp(g, Not(eng.contains(e, ref, st)))) for vs, g, e in eng.coll(c, st).inst()])
        yield st, BoolV(f)

    def m_issubset(self, eng, ref, args, kw, st):
        c = eng.coll(ref, st)
        yield st, BoolV(And(*[ForAll(vs, Imp(g, eng.contains(e, args[0], st))) for vs, g, e in c.inst()]))

    def m_issuperset(self, eng, ref, args, kw, st):
        c = eng.coll(args[0], st)
        yield st, BoolV(And(*[ForAll(vs, Imp(g, eng.contains(e, ref, st))) for vs, g, e in c.inst()]))

    def m_index(self, eng, ref, args, kw, st):
        v = PathV(st.cell(ref).t) if isinstance(ref, Ref) and isinstance(st.cell(ref), CellPath) else eng.freeze(ref, st)
        if isinstance(v, PathV):
            j = idx(v.t, args[0].t)
            ok = z3.And(0 <= j, j < plen(v.t), at(v.t, j) == args[0].t)
            for st1, r in eng.guarded(st, ok, "ValueError"):
                yield st1, r or Num(idx(v.t, args[0].t))
            return
        raise Unsupported("index in an unordered list")

    def m_count(self, eng, ref, args, kw, st):
        raise Unsupported("count")

    # --- graphs (networkx.DiGraph / pgmpy DAG / BayesianNetwork)
    def g(self, st, ref):
        c = st.cell(ref)
        if not isinstance(c, CellGraph):
            raise Unsupported("graph method on something else")
        return c

    def m___init__(self, eng, ref, args, kw, st):
        """BayesianNetwork(ebunch=...) / DiGraph()"""
        c = self.g(st, ref)
        eb = kw.get("ebunch") or (args[0] if args else NoneV())
        if isinstance(eb, NoneV):
            yield st, NoneV()
            return
        for st1, r in self.m_add_edges_from(eng, ref, [eb], {}, st):
            yield st1, r if isinstance(r, Raised) else NoneV()

    def m_add_node(self, eng, ref, args, kw, st):
        c = self.g(st, ref)
        N, x = c.nodes, args[0].t
        st.set(ref, c.but(nodes=defset(lambda a: Or(mem(N, a), a == x), "N")))
        yield st, NoneV()

    def m_add_nodes_from(self, eng, ref, args, kw, st):
        c = self.g(st, ref)
        N = c.nodes
        k = eng.coll(args[0], st)
        none = N.eq(defset(lambda x: FALSE))
        st.set(ref, c.but(nodes=defset(lambda a: Or(FALSE if none else mem(N, a), eng.member(Atom(a), k, st)), "N")))
        yield st, NoneV()

    def is_bn(self, eng, c):
        return isinstance(c.cls, ClassInfo) and eng.repo.is_subclass(c.cls, "BayesianNetwork")

    def m_add_edge(self, eng, ref, args, kw, st):
        c = self.g(st, ref)
        u, v = args[0].t, args[1].t
        ok = TRUE
        if self.is_bn(eng, c):
            ok = And(u != v, Not(And(mem(c.nodes, u), mem(c.nodes, v), RT(c.E, v, u))))
        for st1, r in eng.guarded(st, ok, "ValueError"):
            if r:
                yield st1, r
                continue
            c1 = self.g(st1, ref)
            N, E = c1.nodes, c1.E
            st1.set(ref, c1.but(nodes=defset(lambda a: Or(mem(N, a), a == u, a == v), "N"),
                                E=defrel(lambda a, b: Or(edge(E, a, b), And(a == u, b == v)), "E")))
            yield st1, NoneV()

    def m_add_edges_from(self, eng, ref, args, kw, st):
        c = self.g(st, ref)
        k = eng.coll(args[0], st)
        bs = list(k.inst())
        N, E = c.nodes, c.E

        def comp(e, i):
            e = eng.freeze(e, st)
            return e.items[i].t
        if all(eng.must(st, ForAll(vs, Imp(g, And(mem(N, comp(e, 0)), mem(N, comp(e, 1)))))) for vs, g, e in bs):
            N2 = N
        else:
            N2 = defset(lambda a: Or(mem(N, a), *[Exists(vs, And(g, Or(comp(e, 0) == a, comp(e, 1) == a))) for vs, g, e in bs]), "N")
        none = E.eq(defrel(lambda a, b: FALSE))
        E2 = defrel(lambda a, b: Or(FALSE if none else edge(E, a, b), *[Exists(vs, And(g, comp(e, 0) == a, comp(e, 1) == b)) for vs, g, e in bs]), "E")
        # pgmpy adds the edges one by one and refuses one that closes a cycle: nothing is refused iff the result is acyclic
        ok = Acyc(E2) if self.is_bn(eng, c) else TRUE
        for st1, r in eng.guarded(st, ok, "ValueError"):
            if r:
                yield st1, r
                continue
            st1.set(ref, self.g(st1, ref).but(nodes=N2, E=E2))
            yield st1, NoneV()

    def m_remove_edge(self, eng, ref, args, kw, st):
        c = self.g(st, ref)
        u, v = args[0].t, args[1].t
        for st1, r in eng.guarded(st, edge(c.E, u, v), "NetworkXError"):
            if r:
                yield st1, r
                continue
            c1 = self.g(st1, ref)
            E = c1.E
            st1.set(ref, c1.but(E=defrel(lambda a, b: And(edge(E, a, b), Not(And(a == u, b == v))), "E")))
            yield st1, NoneV()

    def m_remove_edges_from(self, eng, ref, args, kw, st):
        c = self.g(st, ref)
        k = eng.coll(args[0], st)
        bs = list(k.inst())
        E = c.E
        st.set(ref, c.but(E=defrel(lambda a, b: And(edge(E, a, b), *[Not(Exists(vs, And(g, eng.freeze(e, st).items[0].t == a, eng.freeze(e, st).items[1].t == b))) for vs, g, e in bs]), "E")))
        yield st, NoneV()

    def m_has_edge(self, eng, ref, args, kw, st):
        c = self.g(st, ref)
        yield st, BoolV(edge(c.E, args[0].t, args[1].t))

    def m_has_node(self, eng, ref, args, kw, st):
        yield st, BoolV(mem(self.g(st, ref).nodes, args[0].t))

    def m_get_cpds(self, eng, ref, args, kw, st):
        c = self.g(st, ref)
        if len(args) != 1 or "model" not in c.fields:
            raise Unsupported("get_cpds of all nodes")
        for st1, r in eng.guarded(st, mem(c.nodes, args[0].t), "ValueError"):
            yield st1, r or Obj(cpdOf(st1.heap[c.fields["model"].id].tabs, args[0].t), "cpd")

    def nbrs(self, eng, ref, x, st, f):
        c = self.g(st, ref)
        for st1, r in eng.guarded(st, mem(c.nodes, x), "NetworkXError"):
            if r:
                yield st1, r
                continue
            b = binder(U, "b")
            yield st1, st1.alloc(CellColl("list", Coll([Branch([b], f(c.E, b, x), Atom(b))], "list", nodup=True)))

    def m_get_parents(self, eng, ref, args, kw, st):
        yield from self.nbrs(eng, ref, args[0].t, st, lambda E, b, x: edge(E, b, x))

    m_predecessors = m_get_parents

    def m_get_children(self, eng, ref, args, kw, st):
        yield from self.nbrs(eng, ref, args[0].t, st, lambda E, b, x: edge(E, x, b))

    m_successors = m_get_children

    def m_is_dconnected(self, eng, ref, args, kw, st):
        c = self.g(st, ref)
        obs = args[2] if len(args) > 2 else kw.get("observed")
        S = eng.setterm(obs, st) if not isinstance(obs, (NoneV, type(None))) else defset(lambda x: FALSE)
        x = binder(U, "x")
        for st1, r in eng.guarded(st, mem(c.nodes, args[0].t), "NetworkXError"):
            if r:
                yield st1, r
                continue
            for st2, r2 in eng.guarded(st1, z3.ForAll([x], Imp(mem(S, x), mem(c.nodes, x))), "ValueError"):
                yield st2, r2 or BoolV(DConn(c.E, args[0].t, args[1].t, S))

    def m__get_ancestors_of(self, eng, ref, args, kw, st):
        c = self.g(st, ref)
        a = args[0]
        b = binder(U, "b")
        if not isinstance(a, Atom):
            raise Unsupported("ancestors of several nodes")
        for st1, r in eng.guarded(st, mem(c.nodes, a.t), "ValueError"):
            yield st1, r or st1.alloc(CellColl("set", Coll([Branch([b], Or(b == a.t, RT(c.E, b, a.t)), Atom(b))], "set", True)))

    def c_networkx_descendants(self, eng, _, args, kw, st):
        c = self.g(st, args[0])
        x = args[1].t
        b = binder(U, "b")
        for st1, r in eng.guarded(st, mem(c.nodes, x), "NetworkXError"):
            yield st1, r or st1.alloc(CellColl("set", Coll([Branch([b], And(RT(c.E, x, b), b != x), Atom(b))], "set", True)))

    def c_networkx_ancestors(self, eng, _, args, kw, st):
        c = self.g(st, args[0])
        x = args[1].t
        b = binder(U, "b")
        for st1, r in eng.guarded(st, mem(c.nodes, x), "NetworkXError"):
            yield st1, r or st1.alloc(CellColl("set", Coll([Branch([b], And(RT(c.E, b, x), b != x), Atom(b))], "set", True)))

    def c_networkx_has_path(self, eng, _, args, kw, st):
        c = self.g(st, args[0])
        x, y = args[1].t, args[2].t
        for st1, r in eng.guarded(st, And(mem(c.nodes, x), mem(c.nodes, y)), "NodeNotFound"):
            yield st1, r or BoolV(Or(x == y, RT(c.E, x, y)))

    def c_networkx_is_directed_acyclic_graph(self, eng, _, args, kw, st):
        yield st, BoolV(Acyc(self.g(st, args[0]).E))

    def c_networkx_topological_sort(self, eng, _, args, kw, st):
        c = self.g(st, args[0])
        for st1, r in eng.guarded(st, Acyc(c.E), "NetworkXUnfeasible"):
            if r:
                yield st1, r
                continue
            t = fresh(P, "topo")
            st1.assume(topo_order(t, c.nodes, c.E))
            yield st1, PathV(t)

    def c_networkx_strongly_connected_components(self, eng, _, args, kw, st):
        """the classes of mutual reachability, each once; each is represented by one of its nodes"""
        c = self.g(st, args[0])
        m = fresh(MAP, "rep")
        st.assume(CompOf(c.E, m))
        x, y = binder(U, "x"), binder(U, "y")
        st.assume(z3.ForAll([x], Imp(mem(c.nodes, x), mem(c.nodes, app(m, x))), patterns=[app(m, x)]))
        st.assume(z3.ForAll([x], Or(x == app(m, x), And(RT(c.E, x, app(m, x)), RT(c.E, app(m, x), x))), patterns=[app(m, x)]))
        yield st, Coll([Branch([x], And(mem(c.nodes, x), app(m, x) == x), Coll([Branch([y], And(mem(c.nodes, y), app(m, y) == x), Atom(y))], "set", True))], "iter", nodup=True)

    def c_networkx_number_strongly_connected_components(self, eng, _, args, kw, st):
        raise Unsupported("number of components")

    def c_networkx_condensation(self, eng, _, args, kw, st):
        """one node per class of mutual reachability, numbered by the mapping; edges between different classes"""
        if len(args) > 1 or kw:
            raise Unsupported("condensation with given components")
        c = self.g(st, args[0])
        m = fresh(MAP, "comp")
        st.assume(CompOf(c.E, m))
        x = binder(U, "x")
        mapping = st.alloc(CellMap(c.nodes, m))
        attrs = st.alloc(CellLitDict([(Atom(strconst("mapping")), mapping)]))
        yield st, st.alloc(CellGraph("DiGraph", defset(lambda i: Exists([x], And(mem(c.nodes, x), app(m, x) == i)), "N"), Quot(c.E, m), {"graph": attrs}))

    def m_in_degree(self, eng, ref, args, kw, st):
        c = self.g(st, ref)
        x = args[0].t
        E = c.E
        yield st, Num(card(defset(lambda a: edge(E, a, x), "Pa")))

    def m_is_acyclic_placeholder(self, *a):
        raise Unsupported("?")


subset = z3.Function("subset", SET, SET, B)
CompOf = z3.Function("CompOf", REL, MAP, B)       # the map numbers the classes of mutual reachability
Quot = z3.Function("Quot", REL, MAP, REL)         # the edges between different classes
qtail = z3.Function("qtail", REL, MAP, U, U, U)
qhead = z3.Function("qhead", REL, MAP, U, U, U)
qinv = z3.Function("qinv", REL, MAP, U, U)


def _quotients():
    e, m = z3.Const("e", REL), z3.Const("m", MAP)
    s, t = z3.Consts("s t", SET)
    u, v, i, j, x, y = z3.Consts("u v i j x y", U)
    FA, MP = z3.ForAll, z3.MultiPattern
    q = Quot(e, m)
    axiom([subset], FA([s, t, x], z3.Implies(z3.And(subset(s, t), mem(s, x)), mem(t, x)), patterns=[MP(subset(s, t), mem(s, x))]))
    axiom([subset], FA([s, t], z3.Or(subset(s, t), z3.And(mem(s, sdiff(s, t)), z3.Not(mem(t, sdiff(s, t))))), patterns=[subset(s, t)]))
    axiom([CompOf], FA([e, m, x, y], z3.Implies(CompOf(e, m), (app(m, x) == app(m, y)) == z3.Or(x == y, z3.And(RT(e, x, y), RT(e, y, x)))), patterns=[MP(CompOf(e, m), app(m, x), app(m, y))]))
    axiom([Quot], FA([e, m, i, j], z3.Implies(edge(q, i, j), z3.And(i != j, app(m, qtail(e, m, i, j)) == i, app(m, qhead(e, m, i, j)) == j, edge(e, qtail(e, m, i, j), qhead(e, m, i, j)))), patterns=[edge(q, i, j)]))
    axiom([Quot], FA([e, m, u, v], z3.Implies(z3.And(edge(e, u, v), app(m, u) != app(m, v)), edge(q, app(m, u), app(m, v))), patterns=[MP(q, edge(e, u, v))]))
    axiom([Quot, RT, CompOf], FA([e, m, u, v], z3.Implies(z3.And(CompOf(e, m), RT(q, app(m, u), app(m, v))), z3.And(app(m, u) != app(m, v), RT(e, u, v))), patterns=[MP(CompOf(e, m), RT(q, app(m, u), app(m, v)))]),
          "descent between components is descent between their nodes")
    axiom([Quot, RT, CompOf], FA([e, m, u, v], z3.Implies(z3.And(CompOf(e, m), RT(e, u, v), app(m, u) != app(m, v)), RT(q, app(m, u), app(m, v))), patterns=[MP(CompOf(e, m), q, RT(e, u, v))]),
          "descent between nodes is descent between their components")
    axiom([Quot, RT], FA([e, m, i, j], z3.Implies(RT(q, i, j), z3.And(app(m, qinv(e, m, i)) == i, app(m, qinv(e, m, j)) == j)), patterns=[RT(q, i, j)]),
          "only components are connected")
    axiom([Quot, Acyc, CompOf], FA([e, m], z3.Implies(CompOf(e, m), Acyc(q)), patterns=[MP(CompOf(e, m), q)]), "the components form an acyclic graph")
    axiom([card, mem], FA([s, x], z3.Implies(mem(s, x), card(s) >= 1), patterns=[MP(card(s), mem(s, x))]), "a set with an element is not empty")
    axiom([card, mem], FA([s], z3.Implies(card(s) >= 1, mem(s, sdiff(s, s))), patterns=[card(s)]), "a set of positive size has an element")
    axiom([card, subset], FA([s, t], z3.Implies(subset(s, t), card(s) <= card(t)), patterns=[MP(subset(s, t), card(s), card(t))]), "a subset is not larger")


def topo_order(t, N, E):
    """t lists every node of N once, tails before heads"""
    i, j = binder(I, "i"), binder(I, "j")
    x, y = binder(U, "x"), binder(U, "y")
    return z3.And(
        z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < plen(t)), z3.And(mem(N, at(t, i)), idx(t, at(t, i)) == i)), patterns=[at(t, i)]),
        z3.ForAll([x], z3.Implies(mem(N, x), z3.And(0 <= idx(t, x), idx(t, x) < plen(t), at(t, idx(t, x)) == x)), patterns=[mem(N, x)]),
        z3.ForAll([x, y], z3.Implies(z3.And(mem(N, x), mem(N, y), RT(E, x, y)), idx(t, x) < idx(t, y)), patterns=[RT(E, x, y)]))


_quotients()
