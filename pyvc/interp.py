"""Symbolic execution of the Python subset, with automatic loop summaries and modular calls."""
import ast
import re
import z3
from . import logic
from .logic import *
from .logic import check, closure
from .values import *
from .repo import Repo, FuncInfo, ClassInfo, BUILTIN_EXC, Module


class Ctx:
    def __init__(self, module, chain, func=None, selfv=None, cls=None):
        self.module, self.chain, self.func, self.selfv, self.cls = module, chain, func, selfv, cls


MAXDEPTH = 14
DEBUG = bool(__import__("os").environ.get("PYVC_DEBUG"))


class Engine:
    def __init__(self, repo, contracts=None, lib=None):
        self.repo = repo
        self.contracts = contracts or {}
        self.lib = lib
        self.depth = 0
        self.verifying = None
        self.loop_hooks = {}
        self.regions = {}
        self.tokens = {}
        self.frozen = {}
        self.side = []          # (name, assumptions, goal): obligations raised during execution
        self.inlined = set()
        self.used_contracts = set()
        self.used_lib = set()
        self._must = {}
        self.ignore_tabs = False
        self.once, self._once, self._seq = {}, False, None

    # ------------------------------------------------------------- utilities
    def must(self, st, f, timeout=350):
        """is f certainly true on this path? (quick; False means don't know)"""
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        key = (tuple(p.get_id() for p in st.pc), f.get_id())
        if key not in self._must:
            r = False
            for p in st.pc:
                if p.eq(f):
                    r = True
            if not r:
                r = check(list(st.pc) + [Not(f)], timeout, 0, False)[0] == z3.unsat
            self._must[key] = (r, list(st.pc), f)   # keep terms alive so ids stay unique
        return self._must[key][0]

    def guarded(self, st, ok, exc):
        """continue where ok holds, raise exc where it does not"""
        if self.must(st, ok):
            yield st, None
            return
        bad = st.clone().assume(Not(ok))
        if not self.must(st, Not(ok)):
            st.assume(ok)
            yield st, None
        yield bad, Raised(exc)

    def truth(self, v, st):
        if isinstance(v, BoolV):
            return v.f
        if isinstance(v, NoneV):
            return FALSE
        if isinstance(v, Num):
            return v.t != 0
        if isinstance(v, Atom):
            if v.py is not None:
                return z3.BoolVal(bool(v.py))
            return truthy(v.t)
        if isinstance(v, Tup):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, (PathV, Seq)):
            f = self.seq(v, st).n > 0
            return TRUE if isinstance(v, PathV) and self.must(st, f) else f
        if isinstance(v, Coll):
            return Or(*[Exists(vs, g) for vs, g, _ in v.inst()])
        if isinstance(v, Ref):
            c = st.cell(v)
            if isinstance(c, CellColl):
                return self.truth(c.content, st)
            if isinstance(c, CellLitDict):
                return z3.BoolVal(bool(c.items))
            if isinstance(c, (CellMap, CellBag)):
                x = binder(U)
                return z3.Exists([x], mem(c.keys, x))
            if isinstance(c, CellAbsDict):
                return self.truth(c.coll, st)
            if isinstance(c, CellObj):
                return TRUE
            if "truth:" + type(c).__name__ in self.lib.extra:
                return self.lib.extra["truth:" + type(c).__name__](self, v, st)
        if isinstance(v, (Func, Lib, ClsV, Obj)):
            r = self.lib.truth(self, v, st)
            return r
        raise Unsupported(f"truth value of {v!r}")

    def seq(self, v, st):
        """v as an ordered Seq, or None"""
        if isinstance(v, Seq):
            return v
        if isinstance(v, PathV):
            return Seq(plen(v.t), lambda i, t=v.t: Atom(at(t, i)))
        if isinstance(v, Tup):
            return None
        return None

    def iterable(self, v, st):
        """content of an iterable: Tup | Seq | Coll"""
        if isinstance(v, (Tup, Seq, Coll)):
            return v
        if isinstance(v, PathV):
            return self.seq(v, st)
        if isinstance(v, Ref):
            c = st.cell(v)
            if isinstance(c, CellColl):
                return self.iterable(c.content, st)
            if isinstance(c, CellLitDict):
                return Tup([k for k, _ in c.items], "list")
            if isinstance(c, (CellMap, CellBag)):
                return setcoll(c.keys, "keys")
            if isinstance(c, CellAbsDict):
                return Coll([Branch(vs, g, e.items[0]) for vs, g, e in c.coll.inst()], "keys")
            if isinstance(c, CellGraph):
                return setcoll(c.nodes, "keys")
            if type(c).__name__ == "CellPath":
                return self.seq(PathV(c.t), st)
        if isinstance(v, Lib):
            r = self.lib.iterable(self, v, st)
            if r is not None:
                return r
        if isinstance(v, Obj) and "iter:" + v.tag in self.lib.extra:
            return self.lib.extra["iter:" + v.tag](self, v, st)
        raise Unsupported(f"iterating over {v!r}")

    def coll(self, v, st):
        """content of an iterable as an (unordered) Coll"""
        c = self.iterable(v, st)
        if isinstance(c, Tup):
            return Coll([single(i) for i in c.items])
        if isinstance(c, Seq):
            i = binder(I, "i")
            return Coll([Branch([i], z3.And(0 <= i, i < c.raw), c.at(i))])
        return c

    def eq(self, a, b, st, st2=None):
        st2 = st2 or st
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id and st.heap.get(a.id) is st2.heap.get(b.id):
            return TRUE
        if isinstance(a, Atom) and isinstance(b, Atom):
            return z3.BoolVal(True) if a.t.eq(b.t) else a.t == b.t
        if isinstance(a, Num) and isinstance(b, Num):
            return a.t == b.t
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            return a.f == b.f
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            return z3.BoolVal(isinstance(a, NoneV) and isinstance(b, NoneV))
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.t.sort() == b.t.sort():
                return a.t == b.t
            return FALSE
        if isinstance(a, PathV) and isinstance(b, PathV):
            return a.t == b.t
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            return And(*[self.eq(x, y, st, st2) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(st.cell(a), CellColl):
            return self.eq(st.cell(a).content, b, st, st2)
        if isinstance(b, Ref) and isinstance(st2.cell(b), CellColl):
            return self.eq(a, st2.cell(b).content, st, st2)
        for u, w in ((a, b), (b, a)):
            if isinstance(u, PathV) and isinstance(w, Tup) and w.items and all(isinstance(x, Atom) for x in w.items):
                t = sing(w.items[0].t)
                for x in w.items[1:]:
                    t = snoc(t, x.t)
                return u.t == t
        views = ("keysview", "nodeview", "edgeview", "itemsview")
        if isinstance(a, Lib) and a.name in views and not isinstance(b, Lib):
            return self.eq(self.iterable(a, st), b, st, st2)
        if isinstance(b, Lib) and b.name in views and not isinstance(a, Lib):
            return self.eq(a, self.iterable(b, st2), st, st2)
        if isinstance(a, (Tup, PathV, Seq, Coll)) and isinstance(b, (Tup, PathV, Seq, Coll)):
            return self.content_eq(a, b, st, st2)
        for u, w in ((a, b), (b, a)):
            if isinstance(u, Atom) and isinstance(w, Num) and w.t.sort() == I:
                return u.t == intatom(w.t)
        if isinstance(a, Atom) and isinstance(b, (Num, BoolV)) or isinstance(b, Atom) and isinstance(a, (Num, BoolV)):
            return FALSE
        if isinstance(a, Num) and isinstance(b, BoolV):
            return a.t == z3.If(b.f, 1, 0)
        if isinstance(b, Num) and isinstance(a, BoolV):
            return self.eq(b, a, st2, st)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return self.cell_eq(st.cell(a), st2.cell(b), st, st2)
        if isinstance(a, (Func, Lib, ClsV)) or isinstance(b, (Func, Lib, ClsV)):
            if type(a) is type(b) and repr(a) == repr(b):
                return TRUE
        raise Unsupported(f"comparing {a!r} with {b!r}")

    def content_eq(self, a, b, st, st2=None):
        """equality of two collections; ordered comparison only when both orders are known"""
        st2 = st2 or st
        S, T = setof(a), setof(b)
        if S is not None and T is not None and (S.decl().name() in BINDERS or T.decl().name() in BINDERS):
            return S == T       # sets with the same elements are the same set
        sa = a if isinstance(a, Seq) else self.seq(a, st)
        sb = b if isinstance(b, Seq) else self.seq(b, st2)
        if sa and sb:
            i = binder(I, "i")
            return z3.And(sa.n == sb.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < sa.n), self.eq(sa.at(i), sb.at(i), st, st2))))
        if sa and isinstance(b, Tup) or sb and isinstance(a, Tup):
            s, t = (sa, b) if sa else (sb, a)
            return And(s.n == len(t.items), *[self.eq(s.at(z3.IntVal(k)), it, st, st2) for k, it in enumerate(t.items)])
        ca, cb = self.coll(a, st), self.coll(b, st2)
        return And(self.subset(ca, cb, st, st2), self.subset(cb, ca, st2, st))

    def subset(self, ca, cb, st, st2=None):
        return And(*[ForAll(vs, Imp(g, self.member(e, cb, st, st2))) for vs, g, e in ca.inst()])

    def member(self, v, c, st, st2=None):
        """v in c"""
        if isinstance(c, Tup):
            return Or(*[self.eq(v, i, st, st2) for i in c.items])
        if isinstance(c, Seq):
            i = binder(I, "i")
            return z3.Exists([i], z3.And(0 <= i, i < c.n, self.eq(v, c.at(i), st, st2)))
        return Or(*[Exists(vs, And(g, self.eq(v, e, st, st2))) for vs, g, e in c.inst()])

    def cell_eq(self, c, d, st, st2):
        if c is d and not isinstance(c, (CellBag, CellGraph, CellObj, CellLitDict)):
            return TRUE
        if isinstance(c, CellColl) and isinstance(d, CellColl):
            if c.content is d.content:
                return TRUE
            return self.content_eq(c.content, d.content, st, st2)
        x, y = binder(U, "x"), binder(U, "y")
        if isinstance(c, CellMap) and isinstance(d, CellMap):
            return And(TRUE if self.ignore_tabs or getattr(c, "tabs", None) is None or getattr(d, "tabs", None) is None or c.tabs.eq(d.tabs) else c.tabs == d.tabs,
                       ForAll([x], mem(c.keys, x) == mem(d.keys, x)),
                       ForAll([x], Imp(mem(c.keys, x), app(c.m, x) == app(d.m, x))))
        if isinstance(c, CellBag) and isinstance(d, CellBag):
            b1, b2 = st.heap[c.region].bag, st2.heap[d.region].bag
            return And(ForAll([x], mem(c.keys, x) == mem(d.keys, x)),
                       TRUE if b1.eq(b2) else ForAll([x, y], Imp(mem(c.keys, x), cnt(b1, x, y) == cnt(b2, x, y))))
        if isinstance(c, CellGraph) and isinstance(d, CellGraph):
            fs = [z3.BoolVal(c.cls is d.cls),
                  TRUE if c.nodes.eq(d.nodes) else ForAll([x], mem(c.nodes, x) == mem(d.nodes, x)),
                  TRUE if c.E.eq(d.E) else ForAll([x, y], edge(c.E, x, y) == edge(d.E, x, y))]
            for k in sorted(set(c.fields) | set(d.fields)):
                if k not in c.fields or k not in d.fields:
                    fs.append(FALSE)
                else:
                    fs.append(self.eq(c.fields[k], d.fields[k], st, st2))
            return And(*fs)
        if isinstance(c, CellLitDict) and isinstance(d, CellLitDict):
            if len(c.items) != len(d.items):
                return FALSE
            out = []
            for k, v in c.items:
                hits = [w for l, w in d.items if z3.is_true(z3.simplify(self.eq(k, l, st, st2)))]
                if len(hits) != 1:
                    raise Unsupported("comparing dicts with symbolic keys")
                out.append(self.eq(v, hits[0], st, st2))
            return And(*out)
        if isinstance(c, CellAbsDict) and isinstance(d, CellAbsDict):
            return self.content_eq(c.coll, d.coll, st, st2)
        if isinstance(c, CellObj) and isinstance(d, CellObj):
            return And(*[self.eq(c.fields[k], d.fields[k], st, st2) if k in c.fields and k in d.fields else FALSE
                         for k in sorted(set(c.fields) | set(d.fields))])
        for p, q in ((c, d), (d, c)):
            if isinstance(p, (CellMap, CellBag)) and (isinstance(q, CellAbsDict) and not q.coll.branches or isinstance(q, CellLitDict) and not q.items):
                return ForAll([x], Not(mem(p.keys, x)))
        if hasattr(c, "t") and type(c) is type(d):
            return TRUE if c.t.eq(d.t) else c.t == d.t
        raise Unsupported(f"comparing {type(c).__name__} with {type(d).__name__}")

    def setterm(self, v, st):
        """the atoms of a collection as a SET term"""
        c = self.coll(v, st)
        return defset(lambda x: self.member(Atom(x), c, st))

    def freeze(self, v, st):
        """immutable snapshot of a collection value"""
        if isinstance(v, Ref):
            c = st.cell(v)
            if isinstance(c, CellColl):
                k = c.content
                return self.freeze(k, st)
            return v
        if isinstance(v, Tup):
            return Tup([self.freeze(i, st) for i in v.items], v.kind)
        return v

    def detach(self, v, s1, st):
        """a value computed in s1 as seen from st: the list of a dict that only s1 has is that list"""
        if isinstance(v, Lib) and v.name == "baglist" and v.data[0].id not in st.heap:
            c = self.coll(v, s1)
            return Coll(c.branches, "list", c.nodup)
        if isinstance(v, Tup):
            return Tup([self.detach(i, s1, st) for i in v.items], v.kind)
        return v

    # ------------------------------------------------------------- names
    def lookup(self, name, st, ctx):
        for fid in reversed(ctx.chain):
            if name in st.frames[fid]:
                v = st.frames[fid][name]
                if isinstance(v, Unknown):
                    raise Unsupported(f"variable {name} carries a value between loop iterations")
                return v
        r = self.repo.lookup(ctx.module, name)
        if r is None:
            return self.lib.builtin(name)
        return self.as_value(r, st)

    def as_value(self, r, st):
        if isinstance(r, FuncInfo):
            return Func(r, (), None, r.module)
        if isinstance(r, ClassInfo):
            return ClsV(r)
        if isinstance(r, tuple):
            _, mod, node = r
            if isinstance(node, ast.Constant):
                return self.const(node.value)
            return Opaque("module constant")
        return Lib(r)

    def const(self, c):
        if c is None:
            return NoneV()
        if isinstance(c, bool):
            return BoolV(c)
        if isinstance(c, (int, float)):
            return Num(c)
        if isinstance(c, str):
            return Atom(strconst(c), c)
        return Opaque("constant")

    # ------------------------------------------------------------- expressions
    def evs(self, nodes, st, ctx):
        """evaluate a list of expressions left to right"""
        if not nodes:
            yield st, []
            return
        for st1, v in self.ev(nodes[0], st, ctx):
            if isinstance(v, Raised):
                yield st1, v
                continue
            for st2, rest in self.evs(nodes[1:], st1, ctx):
                yield st2, (rest if isinstance(rest, Raised) else [v] + rest)

    def ev(self, e, st, ctx):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"{type(e).__name__} expression at line {getattr(e, 'lineno', '?')}")
        yield from m(e, st, ctx)

    def ev_Constant(self, e, st, ctx):
        yield st, self.const(e.value)

    def ev_JoinedStr(self, e, st, ctx):
        yield st, Opaque("f-string")

    def ev_Name(self, e, st, ctx):
        v = self.lookup(e.id, st, ctx)
        if isinstance(v, (Coll, Seq)) and v.kind == "iter":
            # an iterator is exhausted by its first use
            for fid in reversed(ctx.chain):
                if e.id in st.frames[fid]:
                    st = st.clone()
                    st.frames[fid][e.id] = Unknown()
                    break
        yield st, v

    def ev_Attribute(self, e, st, ctx):
        for st1, v in self.ev(e.value, st, ctx):
            if isinstance(v, Raised):
                yield st1, v
            else:
                yield from self.getattr(v, e.attr, st1, ctx)

    def getattr(self, v, name, st, ctx=None):
        if isinstance(v, SuperV):
            yield from self.method(v.selfv, name, st, after=v.cls)
            return
        if isinstance(v, Ref):
            c = st.cell(v)
            if isinstance(c, (CellGraph, CellObj)):
                if name in c.fields:
                    yield st, c.fields[name]
                    return
                yield from self.method(v, name, st)
                return
            r = self.lib.attr(self, v, name, st)
            yield st, (r if r is not None else Lib("." + name, v))
            return
        if isinstance(v, ClsV):
            f = self.repo.find_method(v.info, name)
            if f:
                yield st, Func(f, (), None, f.module, v.info)
                return
            for k in self.repo.mro(v.info):
                if isinstance(k, ClassInfo) and name in k.classes:
                    yield st, ClsV(k.classes[name])
                    return
            yield st, Lib(f"{v.info.name}.{name}")
            return
        if isinstance(v, Lib) and v.name == "baglist":
            yield st, Lib("." + name, v)
            return
        if isinstance(v, Lib) and v.selfv is None:
            if v.name in self.repo.modules:
                r = self.repo.module_attr(v.name, name)
                yield st, self.as_value(r, st) if r is not None else Lib(f"{v.name}.{name}")
                return
            yield st, Lib(f"{v.name}.{name}")
            return
        r = self.lib.attr(self, v, name, st)
        if r is not None:
            yield st, r
            return
        yield st, Lib("." + name, v)

    def classof(self, ref, st):
        return st.cell(ref).cls

    def method(self, ref, name, st, after=None):
        cls = self.classof(ref, st)
        f = self.repo.find_method(cls, name, after) if isinstance(cls, ClassInfo) else None
        if f is None:
            for k in (self.repo.mro(cls) if isinstance(cls, ClassInfo) else []):
                if isinstance(k, ClassInfo) and name in k.classes:
                    yield st, ClsV(k.classes[name])
                    return
            r = self.lib.attr(self, ref, name, st)
            yield st, (r if r is not None else Lib("." + name, ref))
            return
        fv = Func(f, (), None if f.is_static else ref, f.module, f.cls)
        if f.is_property:
            yield from self.call(fv, [], {}, st)
        else:
            yield st, fv

    def ev_Tuple(self, e, st, ctx):
        yield from self._lit(e, st, ctx, "tuple")

    def _lit(self, e, st, ctx, kind):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            nodes = [x.value if isinstance(x, ast.Starred) else x for x in e.elts]
            for st1, vs in self.evs(nodes, st, ctx):
                if isinstance(vs, Raised):
                    yield st1, vs
                    continue
                br = []
                for x, v in zip(e.elts, vs):
                    br += self.coll(v, st1).branches if isinstance(x, ast.Starred) else [single(v)]
                c = Coll(br, kind)
                yield st1, (st1.alloc(CellColl(kind, c)) if kind != "tuple" else c)
            return
        for st1, vs in self.evs(e.elts, st, ctx):
            if isinstance(vs, Raised):
                yield st1, vs
            elif kind == "tuple":
                yield st1, Tup(vs)
            elif kind == "list":
                yield st1, st1.alloc(CellColl("list", Tup(vs, "list")))
            else:
                yield st1, st1.alloc(CellColl("set", Coll([single(v) for v in vs], "set")))

    def ev_List(self, e, st, ctx):
        yield from self._lit(e, st, ctx, "list")

    def ev_Set(self, e, st, ctx):
        yield from self._lit(e, st, ctx, "set")

    def ev_Dict(self, e, st, ctx):
        if any(k is None for k in e.keys):
            raise Unsupported("** in dict literal")
        for st1, vs in self.evs(list(e.keys) + list(e.values), st, ctx):
            if isinstance(vs, Raised):
                yield st1, vs
                continue
            n = len(e.keys)
            items = list(zip(vs[:n], vs[n:]))
            yield st1, st1.alloc(CellLitDict(items))

    def ev_UnaryOp(self, e, st, ctx):
        for st1, v in self.ev(e.operand, st, ctx):
            if isinstance(v, Raised):
                yield st1, v
            elif isinstance(e.op, ast.Not):
                yield st1, BoolV(Not(self.truth(v, st1)))
            elif isinstance(e.op, ast.USub) and isinstance(v, Num):
                yield st1, Num(-v.py) if v.py is not None else Num(-v.t)
            else:
                raise Unsupported("unary operator")

    def ev_BoolOp(self, e, st, ctx):
        yield from self._boolop(e.op, e.values, st, ctx)

    def _boolop(self, op, vals, st, ctx):
        isand = isinstance(op, ast.And)
        for st1, v in self.ev(vals[0], st, ctx):
            if isinstance(v, Raised) or len(vals) == 1:
                yield st1, v
                continue
            f = self.truth(v, st1)
            go = f if isand else Not(f)     # condition for evaluating the rest
            sg = z3.simplify(go)
            if z3.is_false(sg):
                yield st1, v
                continue
            st2 = st1.clone().assume(go)
            n = len(st2.pc)
            outs = list(self._boolop(op, vals[1:], st2, ctx))
            if isinstance(v, BoolV) and len(outs) == 1 and isinstance(outs[0][1], BoolV) and outs[0][0].heap == st1.heap \
                    and len(outs[0][0].pc) == n and outs[0][0].exact:
                g = outs[0][1].f
                yield st1, BoolV(And(f, g) if isand else Or(f, g))
                continue
            if not z3.is_true(sg):
                yield st1.clone().assume(Not(go)), v
            yield from outs

    def ev_IfExp(self, e, st, ctx):
        for st1, v in self.ev(e.test, st, ctx):
            if isinstance(v, Raised):
                yield st1, v
                continue
            f = z3.simplify(self.truth(v, st1))
            if z3.is_true(f):
                yield from self.ev(e.body, st1, ctx)
            elif z3.is_false(f):
                yield from self.ev(e.orelse, st1, ctx)
            else:
                a, b = st1.clone().assume(f), st1.clone().assume(Not(f))
                na, nb = len(a.pc), len(b.pc)
                oa, ob = list(self.ev(e.body, a, ctx)), list(self.ev(e.orelse, b, ctx))
                if len(oa) == len(ob) == 1 and len(oa[0][0].pc) == na and len(ob[0][0].pc) == nb:
                    x, y = oa[0][1], ob[0][1]
                    if type(x) is type(y) and isinstance(x, (Atom, Num, BoolV)) and oa[0][0].heap == ob[0][0].heap:
                        if isinstance(x, BoolV):
                            yield st1, BoolV(z3.If(f, x.f, y.f))
                            continue
                        if x.t.sort() == y.t.sort():
                            yield st1, type(x)(z3.If(f, x.t, y.t))
                            continue
                yield from oa
                yield from ob

    def ev_Compare(self, e, st, ctx):
        for st1, vs in self.evs([e.left] + e.comparators, st, ctx):
            if isinstance(vs, Raised):
                yield st1, vs
                continue
            fs = [self.compare(op, a, b, st1) for op, a, b in zip(e.ops, vs, vs[1:])]
            yield st1, BoolV(And(*fs))

    def compare(self, op, a, b, st):
        if isinstance(op, ast.Is) or isinstance(op, ast.IsNot):
            if isinstance(a, NoneV) or isinstance(b, NoneV):
                f = z3.BoolVal(isinstance(a, NoneV) and isinstance(b, NoneV))
            elif isinstance(a, Ref) and isinstance(b, Ref):
                if a.id in self.frozen or b.id in self.frozen:
                    raise Unsupported("identity of an object that a loop may replace")
                f = z3.BoolVal(a.id == b.id)
            elif isinstance(a, BoolV) and isinstance(b, BoolV):
                f = a.f == b.f
            else:
                raise Unsupported("identity comparison")
            return Not(f) if isinstance(op, ast.IsNot) else f
        if isinstance(op, (ast.In, ast.NotIn)):
            f = self.contains(a, b, st)
            return Not(f) if isinstance(op, ast.NotIn) else f
        if isinstance(op, (ast.Eq, ast.NotEq)):
            f = self.eq(a, b, st)
            return Not(f) if isinstance(op, ast.NotEq) else f
        if isinstance(a, Num) and isinstance(b, Num):
            return {ast.Lt: a.t < b.t, ast.LtE: a.t <= b.t, ast.Gt: a.t > b.t, ast.GtE: a.t >= b.t}[type(op)]
        if isinstance(op, (ast.LtE, ast.Lt, ast.Gt, ast.GtE)) and not isinstance(a, (Num, Atom)):
            ca, cb = self.coll(a, st), self.coll(b, st)
            if isinstance(op, (ast.Gt, ast.GtE)):
                ca, cb = cb, ca
            f = self.subset(ca, cb, st)
            return f if isinstance(op, (ast.LtE, ast.GtE)) else And(f, Not(self.subset(cb, ca, st)))
        raise Unsupported("comparison")

    def askey(self, v, o, st):
        """an integer used with a dictionary over atoms, as an atom"""
        if isinstance(v, Num) and v.t.sort() == I and (isinstance(o, Ref) and isinstance(st.heap.get(o.id), (CellMap, CellBag)) or isinstance(o, Lib) and o.name == "baglist"):
            return Atom(intatom(v.t))
        return v

    def contains(self, v, c, st):
        v = self.askey(v, c.selfv if isinstance(c, Lib) and c.name == "keysview" else c, st)
        if isinstance(c, Ref):
            k = st.cell(c)
            if isinstance(k, (CellMap, CellBag)):
                return mem(k.keys, v.t)
            if isinstance(k, CellGraph):
                return mem(k.nodes, v.t)
        r = self.lib.contains(self, v, c, st)
        if r is not None:
            return r
        if isinstance(c, Ref) and self.pristine(st.cell(c)):
            return self.token(st.cell(c), v)
        return self.member(v, self.iterable(c, st), st)

    def pristine(self, cell):
        k = cell.content if isinstance(cell, CellColl) else None
        return isinstance(k, Coll) and len(k.branches) == 1 and isinstance(k.branches[0], Marker) and not k.branches[0].minus

    def token(self, cell, v):
        """whether v is in an accumulator at an arbitrary iteration: a proposition that only the removal of v may use"""
        t = v.t if isinstance(v, Atom) else setof(v)
        if t is None:
            raise Unsupported("membership of a compound value in an accumulator")
        k = (id(cell.content), t.get_id())
        if k not in self.tokens:
            self.tokens[k] = (fresh(B, "htok"), cell.content, t)
        return self.tokens[k][0]

    def ev_BinOp(self, e, st, ctx):
        for st1, vs in self.evs([e.left, e.right], st, ctx):
            if isinstance(vs, Raised):
                yield st1, vs
            else:
                yield from self.binop(e.op, vs[0], vs[1], st1)

    def kind(self, v, st):
        if isinstance(v, Ref):
            c = st.cell(v)
            return c.kind if isinstance(c, CellColl) else "dict" if not isinstance(c, (CellGraph, CellObj)) else "obj"
        return getattr(v, "kind", None) or ("list" if isinstance(v, PathV) else None)

    def binop(self, op, a, b, st):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            yield st, Opaque("op")
            return
        if isinstance(a, BoolV) and isinstance(b, (Num, BoolV)):
            a = Num(z3.If(a.f, 1, 0))
        if isinstance(b, BoolV) and isinstance(a, Num):
            b = Num(z3.If(b.f, 1, 0))
        if isinstance(a, Num) and isinstance(b, Num):
            f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y}.get(type(op))
            if f is None and isinstance(op, ast.Div):
                x, y = (z3.ToReal(t.t) if t.t.sort() == I else t.t for t in (a, b))
                yield st, Num(x / y)
                return
            if f is None and isinstance(op, (ast.Mod, ast.FloorDiv)) and a.t.sort() == I and b.t.sort() == I:
                if not self.must(st, b.t > 0):       # the solver's division differs from Python's for negative divisors
                    raise Unsupported("division by a number not known to be positive")
                yield st, Num(a.t % b.t if isinstance(op, ast.Mod) else a.t / b.t)
                return
            if isinstance(op, ast.Pow) and a.py is not None and b.py is not None:
                yield st, Num(a.py ** b.py)
                return
            if f is None:
                raise Unsupported("arithmetic")
            if a.py is not None and b.py is not None:
                yield st, Num(f(a.py, b.py))
            else:
                yield st, Num(f(a.t, b.t))
            return
        if isinstance(a, Atom) and isinstance(b, Atom) and isinstance(op, ast.Add):
            if a.py is not None and b.py is not None:
                yield st, self.const(a.py + b.py)
            else:
                yield st, Atom(cat(a.t, b.t))
            return
        r = self.lib.binop(self, op, a, b, st)
        if r is not None:
            yield from r
            return
        ka, kb = self.kind(a, st), self.kind(b, st)
        if isinstance(op, ast.Add) and ka in ("list", "tuple") and kb == ka:
            x, y = self.freeze(a, st), self.freeze(b, st)
            if isinstance(x, Tup) and isinstance(y, Tup):
                c = Tup(x.items + y.items, ka)
            elif isinstance(x, PathV) and isinstance(y, Tup):
                t = x.t
                for i in y.items:
                    t = snoc(t, i.t)
                c = PathV(t)
            elif isinstance(y, Tup) and not y.items:
                c = x
            elif isinstance(x, Tup) and not x.items:
                c = y
            else:
                c = Coll(self.coll(x, st).branches + self.coll(y, st).branches, ka)
            yield st, (st.alloc(CellColl("list", c)) if ka == "list" and not isinstance(c, PathV) else c)
            return
        if ka in ("set", "keys") or kb in ("set", "keys"):
            r = self.setop({ast.Sub: "difference", ast.BitOr: "union", ast.BitAnd: "intersection",
                            ast.BitXor: "symmetric_difference"}.get(type(op)), a, [b], st)
            yield st, st.alloc(CellColl("set", r))
            return
        raise Unsupported(f"operator {type(op).__name__} on {a!r}, {b!r}")

    def setop(self, name, a, others, st):
        ca = self.coll(a, st)
        if name == "union":
            br = list(ca.branches)
            for o in others:
                br += self.coll(o, st).branches
            return Coll(br, "set")
        if name in ("difference", "intersection"):
            out = []
            cos = [self.iterable(o, st) for o in others]
            for vs, g, e in ca.inst():
                fs = [self.member(e, c, st) for c in cos]
                out.append(Branch(vs, And(g, *[Not(f) for f in fs]) if name == "difference" else And(g, *fs), e))
            return Coll(out, "set", ca.nodup)
        if name == "symmetric_difference":
            x = self.setop("difference", a, others, st)
            y = self.setop("difference", others[0], [a], st)
            return Coll(x.branches + y.branches, "set")
        raise Unsupported(f"set operation {name}")

    def ev_Starred(self, e, st, ctx):
        raise Unsupported("starred expression")

    def ev_Lambda(self, e, st, ctx):
        yield from self.mkfunc(e, st, ctx)

    def mkfunc(self, node, st, ctx):
        a = node.args
        ds = list(a.defaults) + [d for d in a.kw_defaults if d is not None]
        for st1, vs in self.evs(ds, st, ctx):
            if isinstance(vs, Raised):
                yield st1, vs
                continue
            names = [x.arg for x in a.posonlyargs + a.args]
            defaults = dict(zip(names[len(names) - len(a.defaults):], vs))
            kwn = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            defaults.update(zip(kwn, vs[len(a.defaults):]))
            yield st1, Func(node, ctx.chain, None, ctx.module, ctx.cls, defaults)

    def ev_Subscript(self, e, st, ctx):
        if isinstance(e.slice, ast.Slice):
            parts = [e.value] + [x for x in (e.slice.lower, e.slice.upper) if x is not None]
            if e.slice.step is not None:
                raise Unsupported("slice step")
            for st1, vs in self.evs(parts, st, ctx):
                if isinstance(vs, Raised):
                    yield st1, vs
                    continue
                rest = vs[1:]
                lo = rest.pop(0) if e.slice.lower is not None else None
                hi = rest.pop(0) if e.slice.upper is not None else None
                yield st1, self.slice(vs[0], lo, hi, st1)
            return
        for st1, vs in self.evs([e.value, e.slice], st, ctx):
            if isinstance(vs, Raised):
                yield st1, vs
            else:
                yield from self.getitem(vs[0], vs[1], st1)

    def slice(self, v, lo, hi, st):
        r = self.lib.slice(self, v, lo, hi, st)
        if r is not None:
            return r
        v = self.freeze(v, st)
        if isinstance(v, Tup):
            l = lo.py if lo else None
            h = hi.py if hi else None
            if (lo is None or l is not None) and (hi is None or h is not None):
                return Tup(v.items[l:h], v.kind)
        s = self.seq(v, st)
        if s is None:
            raise Unsupported("slice of an unordered list")

        def norm(b, d):
            if b is None:
                return d
            if b.py is not None:
                return z3.IntVal(b.py) if b.py >= 0 else s.n + b.py
            return z3.If(b.t < 0, s.n + b.t, b.t)

        def clamp(t):
            return z3.If(t < 0, 0, z3.If(t > s.n, s.n, t))
        l = z3.IntVal(0) if lo is None else clamp(norm(lo, None))
        h = s.n if hi is None else clamp(norm(hi, None))
        l, h = z3.simplify(l), z3.simplify(h)
        n = z3.If(h > l, h - l, 0)
        cl = 0 if lo is None else lo.py
        ch = 0 if hi is None else hi.py
        if cl is not None and cl >= 0 and ch is not None and (hi is None or ch < 0):
            return Seq(n, (lambda i, at=s.at, l=cl: at(i + l)) if cl else s.at, "list", z3.simplify(s.raw + ch - cl))
        return Seq(n, lambda i, at=s.at, l=l: at(i + l), "list")

    def getitem(self, v, k, st):
        k = self.askey(k, v, st)
        r = self.lib.getitem(self, v, k, st)
        if r is not None:
            yield from r
            return
        if isinstance(v, Ref):
            c = st.cell(v)
            if isinstance(c, CellColl):
                yield from self.getitem(c.content, k, st)
                return
            if isinstance(c, CellMap):
                for st1, x in self.guarded(st, mem(c.keys, k.t), "KeyError"):
                    yield st1, x or Atom(app(c.m, k.t))
                return
            if isinstance(c, CellBag):
                for st1, x in self.guarded(st, mem(c.keys, k.t), "KeyError"):
                    yield st1, x or Lib("baglist", None, (v, k.t))
                return
            if isinstance(c, CellLitDict):
                rest = []
                for kk, vv in c.items:
                    f = z3.simplify(self.eq(kk, k, st))
                    if z3.is_true(f):
                        yield st, vv
                        return
                    if not z3.is_false(f):
                        rest.append((f, vv))
                if not rest:
                    yield st, Raised("KeyError")
                    return
                raise Unsupported("symbolic dict key")
            if isinstance(c, CellAbsDict):
                hit = self.pairs_at(c, k, st)
                ok = Or(*[Exists(vs, g) for vs, g, _ in hit])
                for st1, x in self.guarded(st, ok, "KeyError"):
                    if x:
                        yield st1, x
                        continue
                    for vs, g, e in hit:
                        st2 = st1.clone()
                        st2.fresh += vs
                        yield st2.assume(g), e
                return
        if isinstance(v, Tup) and isinstance(k, Num) and k.py is not None:
            if -len(v.items) <= k.py < len(v.items):
                yield st, v.items[k.py]
            else:
                yield st, Raised("IndexError")
            return
        s = self.seq(v, st)
        if s is not None and isinstance(k, Num):
            i = k.t if k.py is None or k.py >= 0 else s.n + k.py
            i = z3.If(k.t < 0, s.n + k.t, k.t) if k.py is None and not self.must(st, k.t >= 0) else i
            for st1, x in self.guarded(st, z3.And(0 <= i, i < s.n), "IndexError"):
                yield st1, x or s.at(i)
            return
        if isinstance(v, Coll) and isinstance(k, Num) and k.py == 0:
            raise Unsupported("indexing an unordered collection")
        raise Unsupported(f"subscript of {v!r}")

    def pairs_at(self, c, k, st):
        out = []
        for vs, g, e in c.coll.inst():
            f = And(g, self.eq(e.items[0], k, st))
            out.append((vs, f, e.items[1]))
        return out

    # comprehensions -------------------------------------------------------
    def comp(self, gens, st, ctx, leaf):
        """-> yields (st, [Branch]) or (st, Raised); leaf(st, ctx) evaluates the element"""
        fid = st.new_frame()
        ctx2 = Ctx(ctx.module, ctx.chain + (fid,), ctx.func, ctx.selfv, ctx.cls)
        for st1, it in self.ev(gens[0].iter, st, ctx):
            if isinstance(it, Raised):
                yield st1, it
                continue
            yield from self._comp(it, gens, 0, st1, ctx2, leaf)

    def _comp(self, it, gens, n, st, ctx, leaf):
        branches, raises = [], []
        src = self.iterable(it, st)
        for vs, guard, elem in self.coll(src, st).inst():
            s = st.clone()
            s.assume(guard)
            base = len(s.pc)
            fb = len(s.fresh)
            for s1, ok in self.bind_target(gens[n].target, elem, s, ctx):
                if isinstance(ok, Raised):
                    raise Unsupported("unpacking failure in a comprehension")
                for s2, conds in self._conds(gens[n].ifs, s1, ctx):
                    if isinstance(conds, Raised):
                        raises.append((vs + s2.fresh[fb:], And(guard, *s2.pc[base:]), conds))
                        continue
                    pc0 = And(*s2.pc[base:])
                    s3 = s2.clone()
                    if z3.is_false(z3.simplify(conds)):
                        continue
                    s3.assume(conds)
                    inner = []
                    if n + 1 < len(gens):
                        if isinstance(gens[n + 1].iter, ast.Name) and getattr(self.lookup(gens[n + 1].iter.id, s3, ctx), "kind", "") == "iter":
                            raise Unsupported("an iterator reused for every element of a comprehension")
                        for s4, it2 in self.ev(gens[n + 1].iter, s3, ctx):
                            if isinstance(it2, Raised):
                                inner.append((s4, it2))
                            else:
                                inner += list(self._comp(it2, gens, n + 1, s4, ctx, leaf))
                    else:
                        inner = [(s4, v if isinstance(v, Raised) else [Branch([], TRUE, self.detach(self.freeze(v, s4), s4, st))]) for s4, v in leaf(s3, ctx)]
                    for s4, r in inner:
                        pc = And(guard, *s4.pc[base:])
                        fv = vs + s4.fresh[fb:]
                        if not s4.exact:
                            raise Unsupported("imprecise result inside a comprehension")
                        for k in st.heap:
                            if s4.heap[k] is not st.heap[k]:
                                raise Unsupported("side effect inside a comprehension")
                        if isinstance(r, Raised):
                            raises.append((fv, pc, r))
                        else:
                            for b in r:
                                branches.append(Branch(fv + b.vars, And(pc, b.guard), b.elem))
        if isinstance(src, Seq) and len(gens) == 1 and branches and all(len(b.vars) == 1 for b in branches):
            for b in branches:
                b.ordered = src.n
        norm = st
        for vs, pc, r in raises:
            bad = Exists(vs, pc)
            if self.must(norm, Not(bad)):
                continue
            e = norm.clone()
            e.fresh += vs
            for v in vs:
                pass
            yield e.assume(pc), r
            norm = norm.clone().assume(Not(bad))
        yield norm, branches

    def _conds(self, ifs, st, ctx):
        if not ifs:
            yield st, TRUE
            return
        for st1, v in self.evpure(ifs[0], st, ctx):
            if isinstance(v, Raised):
                yield st1, v
                continue
            f = self.truth(v, st1)
            st2 = st1.clone().assume(f)
            for st3, g in self._conds(ifs[1:], st2, ctx):
                yield st3, (g if isinstance(g, Raised) else And(f, g))

    def evpure(self, e, st, ctx):
        yield from self.ev(e, st, ctx)

    def ev_ListComp(self, e, st, ctx):
        for st1, br in self.comp(e.generators, st, ctx, lambda s, c: self.ev(e.elt, s, c)):
            if isinstance(br, Raised):
                yield st1, br
            else:
                sq = self.ordered_map(br, st1)
                yield st1, sq if sq is not None else st1.alloc(CellColl("list", Coll(br, "list")))

    def ordered_map(self, br, st):
        """the list built from an ordered source in one pass keeps the order of the source"""
        if not br or getattr(br[0], "ordered", None) is None or not all(type(b.elem) is type(br[0].elem) for b in br):
            return None
        n = br[0].ordered
        if isinstance(br[0].elem, (Num, Atom)) and len({b.elem.t.sort() for b in br}) == 1:
            i = binder(I, "i")
            gs = [z3.substitute(b.guard, (b.vars[0], i)) for b in br]
            if self.must(st, ForAll([i], Imp(z3.And(0 <= i, i < n), Or(*gs)))):     # one element for every position
                def pick(k, br=br):
                    t = z3.substitute(br[-1].elem.t, (br[-1].vars[0], k))
                    for b in br[-2::-1]:
                        t = z3.If(z3.substitute(b.guard, (b.vars[0], k)), z3.substitute(b.elem.t, (b.vars[0], k)), t)
                    return type(br[0].elem)(t)
                return Seq(n, pick, "list")
        if len(br) != 1 or not isinstance(br[0].elem, Atom):
            return None
        (i,), g, e = br[0].inst()
        t = fresh(P, "filtered")
        f = z3.Function(str(fresh(I, "from")), I, I)
        h = z3.Function(str(fresh(I, "to")), I, I)
        k, l = binder(I, "k"), binder(I, "l")
        at_f = lambda v: [z3.substitute(x, (i, v)) for x in (g, e.t)]
        st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < plen(t)), z3.And(0 <= f(k), f(k) < n, at_f(f(k))[0], at(t, k) == at_f(f(k))[1])), patterns=[at(t, k)]))
        st.assume(z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < plen(t)), f(k) < f(l)), patterns=[z3.MultiPattern(f(k), f(l))]))
        st.assume(z3.ForAll([i], z3.Implies(g, z3.And(0 <= h(i), h(i) < plen(t), f(h(i)) == i, at(t, h(i)) == e.t)), patterns=[e.t] if z3.is_app(e.t) and e.t.num_args() and i.decl().name() in consts_of(e.t)[1] else [h(i)]))
        return PathV(t)

    def ev_SetComp(self, e, st, ctx):
        for st1, br in self.comp(e.generators, st, ctx, lambda s, c: self.ev(e.elt, s, c)):
            yield st1, br if isinstance(br, Raised) else st1.alloc(CellColl("set", Coll(br, "set")))

    def ev_GeneratorExp(self, e, st, ctx):
        for st1, br in self.comp(e.generators, st, ctx, lambda s, c: self.ev(e.elt, s, c)):
            yield st1, br if isinstance(br, Raised) else Coll(br, "iter")

    def ev_DictComp(self, e, st, ctx):
        def leaf(s, c):
            for s1, vs in self.evs([e.key, e.value], s, c):
                yield s1, vs if isinstance(vs, Raised) else Tup([vs[0], self.freeze(vs[1], s1)])
        for st1, br in self.comp(e.generators, st, ctx, leaf):
            yield st1, br if isinstance(br, Raised) else self.lib.mkdict(self, Coll(br, "dict"), st1)

    # calls ----------------------------------------------------------------
    def ev_Call(self, e, st, ctx):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            yield st, SuperV(ctx.cls, ctx.selfv)
            return
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Constant) and isinstance(e.func.value.value, str):
            yield st, Opaque("string method")
            return
        for st1, fv in self.ev(e.func, st, ctx):
            if isinstance(fv, Raised):
                yield st1, fv
                continue
            nodes, names = [], []
            for a in e.args:
                nodes.append(a.value if isinstance(a, ast.Starred) else a)
                names.append("*" if isinstance(a, ast.Starred) else None)
            for k in e.keywords:
                nodes.append(k.value)
                names.append(k.arg if k.arg else "**")
            for st2, vs in self.evs(nodes, st1, ctx):
                if isinstance(vs, Raised):
                    yield st2, vs
                    continue
                args, kw = [], {}
                for n, v in zip(names, vs):
                    if n is None:
                        args.append(v)
                    elif n == "*":
                        t = self.freeze(v, st2)
                        if isinstance(t, Tup):
                            args += t.items
                        else:
                            args.append(Lib("*star", None, self.iterable(v, st2)))
                    elif n == "**":
                        self.lib.starstar(self, v, kw, st2)
                    else:
                        kw[n] = v
                yield from self.call(fv, args, kw, st2)

    def call(self, fv, args, kw, st):
        if isinstance(fv, Func):
            yield from self.callfunc(fv, args, kw, st)
        elif isinstance(fv, ClsV):
            yield from self.construct(fv.info, args, kw, st)
        elif isinstance(fv, Lib):
            self.used_lib.add(fv.name)
            yield from self.lib.call(self, fv, args, kw, st)
        elif isinstance(fv, (Coll,)):
            yield st, fv       # nodes() / edges()
        elif isinstance(fv, (Obj, Opaque)):
            yield from self.lib.callobj(self, fv, args, kw, st)
        else:
            raise Unsupported(f"calling {fv!r}")

    def construct(self, cls, args, kw, st):
        if cls.name in BUILTIN_EXC or self.repo.is_subclass(cls, "ValueError"):
            yield st, Opaque("exception")
            return
        c = self.contracts.get(cls.name)
        if c is not None and self.verifying != cls.name + ".__init__":
            self.used_contracts.add(cls.name)
            yield from c.apply(self, st, args, kw)
            return
        ref = self.lib.newobj(self, cls, st)
        init = self.repo.find_method(cls, "__init__")
        if init is None:
            yield from self.lib.init(self, ref, args, kw, st)
            return
        for st1, r in self.callfunc(Func(init, (), ref, init.module, init.cls), args, kw, st):
            yield st1, r if isinstance(r, Raised) else ref

    def bindargs(self, fv, args, kw, st):
        node = fv.info.node if isinstance(fv.info, FuncInfo) else fv.info
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = ([fv.selfv] if fv.selfv is not None else []) + list(args)
        if any(isinstance(x, Lib) and x.name == "*star" for x in args):
            if a.vararg and len(args) > len(names) and all(not (isinstance(x, Lib) and x.name == "*star") for x in args[:len(names)]):
                pass
            elif a.vararg and not any(isinstance(x, Lib) and x.name == "*star" for x in args[:len(names)]):
                pass
            else:
                raise Unsupported("unpacking an unknown number of arguments")
        for n, v in zip(names, args):
            env[n] = v
        extra = args[len(names):]
        if extra and not a.vararg:
            return None
        if a.vararg:
            if any(isinstance(x, Lib) and x.name == "*star" for x in extra):
                br = []
                for x in extra:
                    br += self.coll(x.data, st).branches if isinstance(x, Lib) and x.name == "*star" else [single(x)]
                env[a.vararg.arg] = Coll(br, "tuple")
            else:
                env[a.vararg.arg] = Tup(extra)
        rest = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    return None
                env[k] = v
            elif k == "**":
                if not a.kwarg:
                    raise Unsupported("** arguments")
                rest[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                return None
        if a.kwarg:
            env[a.kwarg.arg] = st.alloc(CellLitDict([(self.const(k), v) for k, v in rest.items()])) if "**" not in rest else rest["**"]
        return env, node

    def callfunc(self, fv, args, kw, st):
        info = fv.info
        qual = info.qual if isinstance(info, FuncInfo) else None
        con = self.contract_for(fv, st)
        if con is not None:
            self.used_contracts.add(con.key)
            r = self.bindargs(fv, args, kw, st)
            if r is None:
                yield st, Raised("TypeError")
                return
            env, node = r
            for st1, env1 in self.fill_defaults(fv, env, node, st):
                yield from con.apply(self, st1, env1)
            return
        if self.depth > MAXDEPTH:
            raise Unsupported(f"recursion or too deep inlining at {qual}")
        if qual:
            self.inlined.add(f"{info.module.name}:{qual}")
        r = self.bindargs(fv, args, kw, st)
        if r is None:
            yield st, Raised("TypeError")
            return
        env, node = r
        for st1, env1 in self.fill_defaults(fv, env, node, st):
            missing = [x.arg for x in node.args.args + node.args.kwonlyargs if x.arg not in env1]
            if missing:
                yield st1, Raised("TypeError")
                continue
            outs = list(self.run(fv, env1, st1))
            yield from self.merge(outs, st1)

    def contract_for(self, fv, st):
        info = fv.info
        if not isinstance(info, FuncInfo):
            return None
        key = info.qual
        if self.verifying == f"{info.module.name}:{info.qual}":
            # a recursive call uses the contract under verification, the entry itself does not
            if self.depth == 0:
                return None
        c = self.contracts.get(key)
        if c is None and info.cls is not None:
            for k in self.repo.mro(info.cls):
                if isinstance(k, ClassInfo) and f"{k.name}.{info.name}" in self.contracts:
                    c = self.contracts[f"{k.name}.{info.name}"]
                    break
        if c is not None and not c.modular:
            return None
        return c

    def fill_defaults(self, fv, env, node, st):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if isinstance(fv.info, FuncInfo):
            ds = {n: d for n, d in zip(names[len(names) - len(a.defaults):], a.defaults)}
            ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
            need = [n for n in ds if n not in env]
            ctx = Ctx(fv.module, ())
            for st1, vs in self.evs([ds[n] for n in need], st, ctx):
                e = dict(env)
                e.update(zip(need, vs))
                yield st1, e
        else:
            e = dict(fv.defaults)
            e.update(env)
            yield st, e

    def run(self, fv, env, st):
        """all outcomes (st, V | Raised) of executing the body"""
        info = fv.info
        node = info.node if isinstance(info, FuncInfo) else info
        fid = st.new_frame()
        st.frames[fid].update(env)
        selfv = fv.selfv
        if selfv is None and isinstance(info, FuncInfo) and info.cls is not None and node.args.args:
            selfv = env.get(node.args.args[0].arg)
        ctx = Ctx(fv.module, fv.chain + (fid,), fv, selfv, info.cls if isinstance(info, FuncInfo) else fv.cls)
        is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in __import__("pyvc.repo", fromlist=["x"]).own_nodes(node)) if not isinstance(node, ast.Lambda) else False
        oldy = st.yields
        if is_gen:
            st.yields = st.alloc(CellColl("list", Coll([], "iter"))).id
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                for st1, v in self.ev(node.body, st, ctx):
                    yield st1, v
                return
            for st1, o in self.ex(node.body, st, ctx):
                y = st1.yields
                if is_gen:
                    st1.yields = oldy
                if o is None:
                    v = NoneV()
                elif o[0] == "ret":
                    v = o[1]
                elif o[0] == "raise":
                    yield st1, Raised(o[1])
                    continue
                else:
                    raise Unsupported("break outside loop")
                if is_gen:
                    c = st1.heap[y]
                    if isinstance(c, CellUnknown):
                        raise Unsupported("generator with an early exit")
                    v = Coll(c.content.branches, "iter", c.content.nodup)
                yield st1, v
        finally:
            self.depth -= 1

    def merge(self, outs, st0):
        """merge the outcomes of a pure boolean function into one formula"""
        rets = [(s, v) for s, v in outs if not isinstance(v, Raised)]
        if len(rets) > 1 and all(isinstance(v, BoolV) for _, v in rets) and all(s.exact for s, _ in outs) and \
                all(all(s.heap[k] is st0.heap[k] for k in st0.heap) for s, _ in outs):
            n, m = len(st0.pc), len(st0.fresh)
            if all(self._prefix(s.pc, st0.pc) for s, _ in outs):
                rs = [(s, v) for s, v in outs if isinstance(v, Raised)]

                def cond(s):
                    return [c for i, c in enumerate(s.pc) if i >= n and i not in s.ghost.get("choicepc", ())]
                for s, v in outs:
                    new = set(s.ghost.get("choice", ())) - set(st0.ghost.get("choice", ()))
                    if new and any(new & set(consts_of(c)[0]) | new & set(consts_of(c)[1]) for c in cond(s) + ([v.f] if isinstance(v, BoolV) else [])):
                        yield from outs     # the outcome depends on an unspecified choice
                        return
                f = Or(*[Exists(s.fresh[m:], And(*cond(s), v.f)) for s, v in rets])
                g = Or(*[Exists(s.fresh[m:], And(*cond(s), Not(v.f))) for s, v in rets])
                st = st0.clone()
                for s, v in rs:
                    yield s, v
                    st.assume(Not(Exists(s.fresh[m:], And(*cond(s)))))
                yield st, BoolV(self.better(f, g))
                return
        yield from outs

    def forget(self, s1, st):
        """drop what is known about unspecified choices made since st, where nothing else depends on them"""
        new = set(s1.ghost.get("choice", ())) - set(st.ghost.get("choice", ()))
        if not new:
            return s1
        idx = s1.ghost.get("choicepc", ())
        n = len(st.pc)
        keep = [c for i, c in enumerate(s1.pc) if i < n or i not in idx]
        for c in keep[n:]:
            a, b = consts_of(c)
            if new & (set(a) | set(b)):
                return s1
        s2 = s1.clone()
        s2.pc = keep
        s2.ghost["choicepc"] = tuple(i for i in idx if i < n)
        return s2

    def choices_in(self, s1, st, *fs):
        new = set(s1.ghost.get("choice", ())) - set(st.ghost.get("choice", ()))
        return bool(new) and any(new & (set(a) | set(b)) for a, b in map(consts_of, fs))

    def better(self, f, g):
        """f and Not(g) are equivalent on exhaustive, exclusive paths; take the smaller"""
        ng = Not(g)
        return f if len(f.sexpr()) <= len(ng.sexpr()) else ng

    def _prefix(self, pc, pc0):
        return len(pc) >= len(pc0) and all(a.eq(b) for a, b in zip(pc, pc0))

    # ------------------------------------------------------------- statements
    def ex(self, stmts, st, ctx):
        if not stmts:
            yield st, None
            return
        for st1, o in self.ex1(stmts[0], st, ctx):
            if o is not None:
                yield st1, o
            else:
                yield from self.ex(stmts[1:], st1, ctx)

    def ex1(self, s, st, ctx):
        m = getattr(self, "ex_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"{type(s).__name__} statement at line {s.lineno}")
        yield from m(s, st, ctx)

    def ex_Pass(self, s, st, ctx):
        yield st, None

    def ex_Import(self, s, st, ctx):
        yield st, None

    ex_ImportFrom = ex_Import

    def ex_Global(self, s, st, ctx):
        raise Unsupported("global statement")

    def ex_Nonlocal(self, s, st, ctx):
        raise Unsupported("nonlocal statement")

    def ex_Expr(self, s, st, ctx):
        if isinstance(s.value, ast.Yield):
            if "contextmanager" in getattr(ctx.func.info, "decorators", ()) and "yield" in self.lib.extra:
                yield from self.lib.extra["yield"](self, s.value.value, st, ctx)
                return
            for st1, v in (self.ev(s.value.value, st, ctx) if s.value.value else [(st, NoneV())]):
                if isinstance(v, Raised):
                    yield st1, ("raise", v.exc)
                else:
                    self.do_yield(st1, v)
                    yield st1, None
            return
        if isinstance(s.value, ast.YieldFrom):
            for st1, v in self.ev(s.value.value, st, ctx):
                if isinstance(v, Raised):
                    yield st1, ("raise", v.exc)
                else:
                    c = st1.heap[st1.yields]
                    st1.heap[st1.yields] = CellColl("list", Coll(c.content.branches + self.coll(v, st1).branches, "iter"))
                    yield st1, None
            return
        if isinstance(s.value, ast.Constant):
            yield st, None
            return
        for st1, v in self.ev(s.value, st, ctx):
            yield st1, ("raise", v.exc) if isinstance(v, Raised) else None

    def do_yield(self, st, v):
        c = st.heap[st.yields]
        st.heap[st.yields] = CellColl("list", Coll(c.content.branches + [single(self.freeze(v, st))], "iter"))

    def ex_Return(self, s, st, ctx):
        if s.value is None:
            yield st, ("ret", NoneV())
            return
        for st1, v in self.ev(s.value, st, ctx):
            yield st1, ("raise", v.exc) if isinstance(v, Raised) else ("ret", v)

    def ex_Raise(self, s, st, ctx):
        if s.exc is None:
            yield st, ("raise", st.ghost.get("exc", "Exception"))
            return
        e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        name = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else "Exception"
        yield st, ("raise", name)

    def ex_Assert(self, s, st, ctx):
        for st1, v in self.ev(s.test, st, ctx):
            if isinstance(v, Raised):
                yield st1, ("raise", v.exc)
                continue
            f = self.truth(v, st1)
            for st2, r in self.guarded(st1, f, "AssertionError"):
                yield st2, ("raise", r.exc) if r else None

    def ex_If(self, s, st, ctx):
        for st1, v in self.ev(s.test, st, ctx):
            if isinstance(v, Raised):
                yield st1, ("raise", v.exc)
                continue
            f = z3.simplify(self.truth(v, st1))
            if z3.is_true(f):
                yield from self.ex(s.body, st1, ctx)
            elif z3.is_false(f):
                yield from self.ex(s.orelse, st1, ctx)
            else:
                f = self.truth(v, st1)
                if not self.must(st1, Not(f), 250):
                    yield from self.ex(s.body, st1.clone().assume(f), ctx)
                if not self.must(st1, f, 250):
                    yield from self.ex(s.orelse, st1.assume(Not(f)), ctx)

    def bind_target(self, t, v, st, ctx):
        if isinstance(t, ast.Name):
            st.frames[ctx.chain[-1]][t.id] = v
            yield st, None
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.freeze(v, st)
            if isinstance(v, Tup):
                if len(v.items) != len(t.elts):
                    yield st, Raised("ValueError")
                    return
                items = v.items
            else:
                r = self.lib.unpack(self, v, len(t.elts), st)
                if r is None:
                    raise Unsupported(f"unpacking {v!r}")
                for st1, items in r:
                    if isinstance(items, Raised):
                        yield st1, items
                    else:
                        yield from self._bindall(t.elts, items, st1, ctx)
                return
            yield from self._bindall(t.elts, items, st, ctx)
        elif isinstance(t, ast.Attribute):
            for st1, o in self.ev(t.value, st, ctx):
                if isinstance(o, Raised):
                    yield st1, o
                else:
                    yield from self.setattr(o, t.attr, v, st1)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                raise Unsupported("slice assignment")
            for st1, vs in self.evs([t.value, t.slice], st, ctx):
                if isinstance(vs, Raised):
                    yield st1, vs
                else:
                    yield from self.lib.setitem(self, vs[0], self.askey(vs[1], vs[0], st1), self.askey(v, vs[0], st1), st1)
        else:
            raise Unsupported("assignment target")

    def _bindall(self, targets, items, st, ctx):
        if not targets:
            yield st, None
            return
        for st1, r in self.bind_target(targets[0], items[0], st, ctx):
            if isinstance(r, Raised):
                yield st1, r
            else:
                yield from self._bindall(targets[1:], items[1:], st1, ctx)

    def setattr(self, o, name, v, st):
        if isinstance(o, Ref):
            c = st.cell(o)
            if isinstance(c, CellGraph):
                st.set(o, c.but(fields={**c.fields, name: v}))
                yield st, None
                return
            if isinstance(c, CellObj):
                st.set(o, CellObj(c.cls, {**c.fields, name: v}))
                yield st, None
                return
        yield from self.lib.setattr(self, o, name, v, st)

    def ex_Assign(self, s, st, ctx):
        for st1, v in self.ev(s.value, st, ctx):
            if isinstance(v, Raised):
                yield st1, ("raise", v.exc)
                continue
            yield from self._assign(s.targets, v, st1, ctx)

    def _assign(self, targets, v, st, ctx):
        if not targets:
            yield st, None
            return
        for st1, r in self.bind_target(targets[0], v, st, ctx):
            if isinstance(r, Raised):
                yield st1, ("raise", r.exc)
            else:
                yield from self._assign(targets[1:], v, st1, ctx)

    def ex_AnnAssign(self, s, st, ctx):
        if s.value is None:
            yield st, None
            return
        for st1, v in self.ev(s.value, st, ctx):
            if isinstance(v, Raised):
                yield st1, ("raise", v.exc)
            else:
                yield from self._assign([s.target], v, st1, ctx)

    def ex_AugAssign(self, s, st, ctx):
        load = ast.parse(ast.unparse(s.target), mode="eval").body
        for st1, vs in self.evs([load, s.value], st, ctx):
            if isinstance(vs, Raised):
                yield st1, ("raise", vs.exc)
                continue
            a, b = vs
            k = self.kind(a, st1)
            if isinstance(a, Ref) and k == "list" and isinstance(s.op, ast.Add):
                for st2, r in self.call(Lib(".extend", a), [b], {}, st1):
                    yield st2, None
                continue
            if isinstance(a, Ref) and k == "set":
                nm = {ast.BitOr: ".update", ast.Sub: ".difference_update", ast.BitAnd: ".intersection_update"}.get(type(s.op))
                if nm:
                    for st2, r in self.call(Lib(nm, a), [b], {}, st1):
                        yield st2, None
                    continue
            for st2, v in self.binop(s.op, a, b, st1):
                if isinstance(v, Raised):
                    yield st2, ("raise", v.exc)
                else:
                    yield from self._assign([s.target], v, st2, ctx)

    def ex_Delete(self, s, st, ctx):
        if len(s.targets) != 1:
            raise Unsupported("del of several targets")
        t = s.targets[0]
        if isinstance(t, ast.Name):
            st.frames[ctx.chain[-1]].pop(t.id, None)
            yield st, None
            return
        if isinstance(t, ast.Subscript):
            for st1, vs in self.evs([t.value, t.slice], st, ctx):
                if isinstance(vs, Raised):
                    yield st1, ("raise", vs.exc)
                else:
                    for st2, r in self.lib.delitem(self, vs[0], self.askey(vs[1], vs[0], st1), st1):
                        yield st2, ("raise", r.exc) if isinstance(r, Raised) else None
            return
        raise Unsupported("del target")

    def ex_FunctionDef(self, s, st, ctx):
        pure = [d for d in s.decorator_list]
        for st1, f in self.mkfunc(s, st, ctx):
            st1.frames[ctx.chain[-1]][s.name] = f
            if pure:
                f = self.lib.decorate(self, f, pure, st1, ctx)
                st1.frames[ctx.chain[-1]][s.name] = f
            yield st1, None

    def ex_Continue(self, s, st, ctx):
        yield st, ("continue",)

    def ex_Break(self, s, st, ctx):
        yield st, ("break",)

    def ex_Try(self, s, st, ctx):
        outs = []
        for st1, o in self.ex(s.body, st, ctx):
            if o is not None and o[0] == "raise":
                for h in s.handlers:
                    if self.catches(h, o[1], ctx):
                        st2 = st1.clone()
                        if h.name:
                            st2.frames[ctx.chain[-1]][h.name] = Opaque("exception")
                        old = st2.ghost.get("exc")
                        st2.ghost["exc"] = o[1]
                        outs += list(self.ex(h.body, st2, ctx))
                        break
                else:
                    outs.append((st1, o))
            elif o is None and s.orelse:
                outs += list(self.ex(s.orelse, st1, ctx))
            else:
                outs.append((st1, o))
        if not s.finalbody:
            yield from outs
            return
        for st1, o in outs:
            for st2, o2 in self.ex(s.finalbody, st1, ctx):
                yield st2, (o2 if o2 is not None else o)

    def catches(self, h, exc, ctx):
        if h.type is None:
            return True
        names = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
        for n in names:
            nm = n.id if isinstance(n, ast.Name) else n.attr
            if self.exc_sub(exc, nm):
                return True
        return False

    def exc_sub(self, exc, base):
        if exc == base:
            return True
        if exc in BUILTIN_EXC and base in BUILTIN_EXC:
            return issubclass(BUILTIN_EXC[exc], BUILTIN_EXC[base])
        if exc in self.repo.classes:
            for b in self.repo.classes[exc].bases:
                if self.exc_sub(b.name if isinstance(b, ClassInfo) else b.split(".")[-1], base):
                    return True
        if exc in ("NetworkXError",) and base == "Exception":
            return True
        return base in ("Exception", "BaseException") and exc not in BUILTIN_EXC

    def ex_With(self, s, st, ctx):
        yield from self.lib.with_(self, s, st, ctx)

    # ------------------------------------------------------------- loops
    def ex_For(self, s, st, ctx):
        for st1, it in self.ev(s.iter, st, ctx):
            if isinstance(it, Raised):
                yield st1, ("raise", it.exc)
                continue
            hook = self.loop_hook(s, st1, ctx, it)
            if hook is not None:
                yield from hook
                continue
            src = self.iterable(it, st1)
            if isinstance(src, Tup):
                yield from self.unroll(s, src.items, st1, ctx)
                continue
            seqv = src if isinstance(src, Seq) else None
            brs = list(self.coll(src, st1).inst())
            if all(not vs for vs, _, _ in brs) and all(z3.is_true(g) for _, g, _ in brs) and len(brs) <= 4:
                yield from self.unroll(s, [e for _, _, e in brs], st1, ctx)
                continue

            def body(b, x):
                for b1, r in self.bind_target(s.target, x, b, ctx):
                    if isinstance(r, Raised):
                        yield b1, ("raise", r.exc)
                    else:
                        yield from self.ex(s.body, b1, ctx)
            side0 = len(self.side)
            self.once[id(s)] = isinstance(src, Coll) and src.nodup and len(brs) == 1 and len(brs[0][0]) == 1 and \
                any(isinstance(e, (Atom, Obj)) and e.t.eq(brs[0][0][0]) for e in [brs[0][2]] + (brs[0][2].items if isinstance(brs[0][2], Tup) else []))
            try:
                outs = list(self.summarise(brs, seqv, body, s, st1, ctx, self.sources(it, st1)))
            except Unsupported:
                # an empty dict that the loop fills with lists
                st2 = st1.clone()
                empty = [h for h in {v.id for f in st2.frames.values() for v in f.values() if isinstance(v, Ref)} if isinstance(st2.heap.get(h), CellLitDict) and not st2.heap[h].items]
                if not empty:
                    raise
                del self.side[side0:]
                for h in empty:
                    st2.heap[h] = CellBag(defset(lambda x: FALSE, "K"), st2.alloc(CellRegion(defbag(lambda a, x: z3.IntVal(0), "C"))).id)
                outs = list(self.summarise(brs, seqv, body, s, st2, ctx, self.sources(it, st2)))
            yield from outs

    def sources(self, v, st):
        """the cells a loop over v reads as it goes"""
        if isinstance(v, Ref):
            c = st.heap.get(v.id)
            return self.owners(st, {v.id} | ({c.region} if isinstance(c, CellBag) else set()), {})
        if isinstance(v, Lib) and v.name == "baglist":
            return self.sources(v.data[0], st)
        if isinstance(v, Lib) and v.name in ("keysview", "itemsview", "valuesview", "nodeview", "edgeview") and v.selfv is not None:
            return self.sources(v.selfv, st)
        return set()

    def loop_hook(self, s, st, ctx, it):
        f = ctx.func.info if ctx.func is not None else None
        q = f.qual if isinstance(f, FuncInfo) else None
        h = self.loop_hooks.get(q) or next((h for h in self.loop_hooks.values() if (self.verifying or '').endswith(":" + getattr(h, "anywhere", "?"))), None)
        if h is None:
            return None
        return h(self, s, st, ctx, it)

    def unroll(self, s, items, st, ctx):
        if not items:
            yield from self.ex(s.orelse, st, ctx)
            return
        for st1, r in self.bind_target(s.target, items[0], st, ctx):
            if isinstance(r, Raised):
                yield st1, ("raise", r.exc)
                continue
            for st2, o in self.ex(s.body, st1, ctx):
                if o is None or o[0] == "continue":
                    yield from self.unroll(s, items[1:], st2, ctx)
                elif o[0] == "break":
                    yield st2, None
                else:
                    yield st2, o

    def changed(self, s0, s1, frames=True):
        """(heap ids, (frame, name)) that differ between an entry state and an outcome"""
        hs = {k for k in s0.heap if s1.heap[k] is not s0.heap[k]}
        vs = set()
        for f in s0.frames:
            a, b = s0.frames[f], s1.frames.get(f, {})
            for n in b:
                if a.get(n) is not b[n]:
                    vs.add((f, n))
        return hs, vs

    def havoc_cell(self, c):
        """the cell at an arbitrary iteration"""
        if isinstance(c, CellColl):
            k = c.content
            return CellColl(c.kind, Coll([Marker(0)], k.kind if isinstance(k, Coll) else c.kind, getattr(k, "nodup", False)))
        if isinstance(c, CellGraph):
            return c.but(nodes=fresh(SET, "hN"), E=fresh(REL, "hE"))
        if isinstance(c, CellMap):
            return CellMap(fresh(SET, "hK"), fresh(MAP, "hM")) if type(c) is CellMap else type(c)(fresh(SET, "hK"), fresh(MAP, "hM"), fresh(X, "hT"))
        if isinstance(c, CellRegion):
            return CellRegion(fresh(BAG, "hB"))
        if isinstance(c, CellBag):
            return CellBag(fresh(SET, "hK"), c.region)
        if isinstance(c, CellLitDict):
            if c.items:
                raise Unsupported("dict with literal keys reassigned in a loop")
            return CellAbsDict(Coll([Marker(0)], "dict"))
        if isinstance(c, CellAbsDict):
            return CellAbsDict(Coll([Marker(0)], "dict"))
        if isinstance(c, CellObj):
            return CellUnknown()
        raise Unsupported(f"loop changes a {type(c).__name__}")

    def summarise(self, brs, seqv, body, node, st, ctx, sources=frozenset()):
        """any for-loop over an unordered (or ordered) collection whose iterations only accumulate"""
        heap_ch, var_ch, n0, regions = set(), set(), logic._n[0], {}
        targets = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)} if isinstance(node, ast.For) else set()
        for _ in range(6):
            outs = []
            for vs, g, e in brs:
                b = st.clone().assume(g)
                self.havoc_heap(b, st, heap_ch, regions)
                havoc_vars = {}
                for f, n in var_ch:
                    if n in st.frames.get(f, {}):
                        havoc_vars[(f, n)] = self.havoc_var(st.frames[f][n])
                        b.frames[f][n] = havoc_vars[(f, n)]
                    else:
                        b.frames[f].pop(n, None)
                b0 = b.clone()
                fb, pb = len(b.fresh), len(b.pc)
                for s1, o in body(b, e):
                    outs.append((vs, g, b0, self.forget(s1, st), o, fb, pb, havoc_vars))
            nh, nv = set(), set()
            for vs, g, b0, s1, o, fb, pb, hv in outs:
                h, v = self.changed(b0, s1)
                nh |= self.owners(st, h, regions)
                nv |= v
            if not heap_ch and any(type(st.heap.get(h)) is not CellMap and isinstance(st.heap.get(h), CellMap) for h in nh) and \
                    all(self.must(st, ForAll(vs, Not(g))) for vs, g, e in brs):
                yield st, None          # a loop over nothing leaves everything as it is
                return
            if nh <= heap_ch and nv <= var_ch:
                break
            heap_ch |= nh
            var_ch |= nv
        else:
            raise Unsupported("loop state does not stabilise")

        for vs, g, b0, s1, o, fb, pb, hv in outs:
            known = {v.decl().name() for v in list(vs) + list(s1.fresh)}
            for f in s1.pc[len(st.pc):]:
                for c in consts_of(f)[1]:
                    if c not in known and c not in DEFS and (k := re.search(r"!(\d+)$", c)) and int(k[1]) > n0 and not c.startswith(("h", "tab")):
                        raise Unsupported(f"an iteration depends on an unspecified value {c}")
        normals = [o for o in outs if o[4] is None or o[4][0] == "continue"]
        for vs, g, b0, s1, o, fb, pb, hv in normals:
            if self.owners(st, self.changed(b0, s1)[0], regions) & sources:
                raise Unsupported("a collection that changes while the loop goes through it")
        exits = [o for o in outs if not (o[4] is None or o[4][0] == "continue")]
        hav = set()
        for vs, g, b0, s1, o, fb, pb, hv in outs:
            for h in heap_ch:
                c = b0.heap[h]
                if isinstance(c, CellGraph):
                    hav |= {c.nodes.decl().name(), c.E.decl().name()}
                if isinstance(c, CellMap):
                    hav |= {c.keys.decl().name(), c.m.decl().name()}
                if isinstance(c, CellRegion):
                    hav.add(c.bag.decl().name())
                if isinstance(c, CellBag):
                    hav.add(c.keys.decl().name())
                    hav.add(b0.heap[c.region].bag.decl().name())
            for v in hv.values():
                if isinstance(v, (BoolV, Num, Atom)):
                    hav.add((v.f if isinstance(v, BoolV) else v.t).decl().name())
                if isinstance(v, Seq):
                    hav.add(v.at(z3.IntVal(0)).t.decl().name())

        def depends(f):
            names = set(consts_of(f)[1])
            todo, seen = list(consts_of(f)[0]), set()
            while todo:
                n = todo.pop()
                if n in seen:
                    continue
                seen.add(n)
                for ax in DEFS.get(n, []):
                    a, b = consts_of(ax)
                    names |= set(b)
                    todo += list(a)
            return bool(names & hav) or any(n.startswith("htok!") for n in names)

        # ---- closed form of the state after all iterations
        exits_a = exits
        if not normals and brs:
            final_heap = {h: st.heap[h] for h in heap_ch}
            final_vars = {(f, n): st.frames[f].get(n, Unknown()) for f, n in var_ch}
        else:
            try:
                self._once = self.once.get(id(node), False)
                self._seq = seqv if len(brs) == 1 and len(brs[0][0]) == 1 and not exits else None
                final_heap = {h: self.accumulate(h, st, normals, depends) for h in heap_ch}
                final_vars = {(f, n): self.acc_var((f, n), st, normals, depends) for f, n in var_ch}
            except Unsupported as e:
                if seqv is not None:
                    raise
                final_heap, final_vars, exits = self.inductive(brs, seqv, body, node, st, ctx, heap_ch, var_ch, normals, exits, depends)
            else:
                if seqv is None and any(isinstance(st.heap[h], CellGraph) for h in heap_ch) and any(depends(And(*e[3].pc[len(st.pc):])) for e in exits):
                    try:    # exits that depend on what earlier iterations did
                        final_heap, final_vars, exits = self.inductive(brs, seqv, body, node, st, ctx, heap_ch, var_ch, normals, exits, depends)
                    except Unsupported:
                        pass

        # ---- exits
        kinds = set()
        for vs, g, b0, s1, o, fb, pb, hv in exits:
            kinds.add((o[0], repr(z3.simplify(o[1].f)) if o[0] == "ret" and isinstance(o[1], BoolV) and (z3.is_true(z3.simplify(o[1].f)) or z3.is_false(z3.simplify(o[1].f)))
                       else o[1] if o[0] == "raise" else id(o)))
        exact = len(kinds) <= 1
        for vs, g, b0, s1, o, fb, pb, hv in exits:
            s2 = s1.clone()
            s2.fresh = st.fresh + vs + s1.fresh[fb:]
            s2.pc = st.pc + s1.pc[len(st.pc):]
            if not exact:
                s2.exact = False
            if seqv is not None and not exact or seqv is not None and o[0] in ("ret", "break"):
                # first exit: all earlier iterations were normal
                i = vs[0]
                earlier = []
                for vs2, g2, b2, t1, o2, fb2, pb2, _ in exits:
                    pc = And(*t1.pc[len(st.pc):])
                    if depends(pc):
                        continue
                    j = binder(I, "j")
                    pcj = z3.substitute(Exists(t1.fresh[fb2:], pc), (vs2[0], j))
                    earlier.append(ForAll([j], Imp(z3.And(0 <= j, j < i), Not(pcj))))
                s2.pc = s2.pc + earlier
                s2.exact = st.exact and all(x[3].exact for x in exits)
            for h in heap_ch:
                s2.heap[h] = CellUnknown()
            for f, n in var_ch:
                if n in targets:
                    continue
                if o[0] == "break":
                    pass
                if isinstance(s2.frames[f].get(n), Unknown) or (f, n) in hv:
                    s2.frames[f][n] = Unknown()
            yield s2, (None if o[0] == "break" else o)

        # ---- all iterations normal
        fin = st.clone()
        if not normals and brs:
            # the body always exits: only the empty collection falls through
            fin.assume(And(*[ForAll(vs, Not(g)) for vs, g, _ in brs]))
        else:
            for vs, g, b0, s1, o, fb, pb, hv in exits_a:
                pc = And(*s1.pc[len(st.pc):])
                if not depends(pc):
                    fin.assume(ForAll(vs, Not(Exists(s1.fresh[fb:], pc))) if vs or s1.fresh[fb:] else Not(pc))
        for h in heap_ch:
            self.put(fin, h, final_heap[h])
        for f, n in var_ch:
            fin.frames[f][n] = final_vars[(f, n)]
        orelse = getattr(node, "orelse", [])
        yield from self.ex(orelse, fin, ctx)

    def inductive(self, brs, seqv, body, node, st, ctx, heap_ch, var_ch, normals, exits, depends):
        """loops whose branches test the state they build: guess the closed form that ignores those tests, and check
        it by induction over the processed elements -> (final heap, final vars, exits)"""
        base = len(st.pc)

        def acc(restrict):
            ns = []
            for vs, g, b0, s1, o, fb, pb, hv in normals:
                t = s1.clone()
                t.pc = st.pc + [p for p in s1.pc[base:] if not depends(p)] + restrict(vs)
                t.fullpc = s1.pc
                ns.append((vs, g, b0, t, o, fb, pb, hv))
            self.guess += 1
            try:
                hp = {h: self.accumulate(h, st, ns, depends) for h in heap_ch}
            finally:
                self.guess -= 1
            vr = {(f, n): self.acc_var((f, n), st, ns, depends) for f, n in var_ch}
            return hp, vr
        preds = {}

        def pred(vs):
            k = tuple(str(v.sort()) for v in vs)
            if k not in preds:
                preds[k] = z3.Function(f"Processed!{fresh(U).decl().name()}", *[v.sort() for v in vs], B) if vs else None
            return preds[k]

        def done(vs, extra=None):
            q = pred(vs)
            if q is None:
                raise Unsupported("state-dependent loop over a constant element")
            f = q(*vs)
            if extra is not None and [v.sort() for v in extra] == [v.sort() for v in vs]:
                f = z3.Or(f, z3.And(*[v == w for v, w in zip(vs, extra)]))
            return f
        hp, vr = acc(lambda vs: [done(vs)])
        outs = []
        for vs, g, e in [Branch(vs, g, e).inst() for vs, g, e in brs]:
            b = st.clone().assume(g)
            b.assume(Not(done(vs)))
            for ws, h, _ in brs:
                b.assume(z3.ForAll(ws, z3.Implies(done(ws), h), patterns=[done(ws)]))
            for ws, h, b0, s1, o, fb, pb, hv in exits:
                pc = And(*s1.pc[base:])
                if not depends(pc):
                    b.assume(z3.ForAll(ws, z3.Implies(done(ws), Not(Exists(s1.fresh[fb:], pc))), patterns=[done(ws)]))
            for h in heap_ch:
                self.put(b, h, hp[h])
            hv = {}
            for f, n in var_ch:
                if n in st.frames.get(f, {}):
                    b.frames[f][n] = vr[(f, n)]
                else:
                    b.frames[f].pop(n, None)
            b0 = b.clone()
            fb, pb = len(b.fresh), len(b.pc)
            for s1, o in body(b, e):
                outs.append((vs, g, b0, self.forget(s1, st), o, fb, pb, hv))
            want = acc(lambda ws, vs=vs: [done(ws, vs)])
            for vs2, g2, b02, s1, o, _, _, _ in outs:
                if vs2 is not vs or not (o is None or o[0] == "continue"):
                    continue
                for h in heap_ch:
                    self.ignore_tabs = True       # tables of a model are arbitrary after the loop
                    f = self.cell_eq(s1.heap[h], want[0][h], s1, self.with_heap(st, want[0]))
                    self.ignore_tabs = False
                    r = prove(s1.pc, f, 6000)
                    if r.status != "proved":
                        if DEBUG:
                            print("INDUCTIVE", h, f, *s1.pc[base:], sep="\n  ")
                            for cj in (f.children() if z3.is_and(f) else [f]):
                                rr = prove(s1.pc, cj, 6000)
                                print("PART", rr.status, rr.reason, cj)
                                if rr.status != "proved":
                                    for nm in closure([cj])[1]:
                                        for d in DEFS.get(nm, []):
                                            print("   DEF", nm, d)
                        raise Unsupported("loop summary not inductive")
                for f, n in var_ch:
                    w = want[1][(f, n)]
                    if isinstance(w, Unknown):
                        continue
                    r = prove(s1.pc, self.eq(s1.frames[f][n], w, s1, self.with_heap(st, want[0])), 6000)
                    if r.status != "proved":
                        raise Unsupported("loop summary not inductive (variable)")
        hp, vr = acc(lambda vs: [])
        return hp, vr, [o for o in outs if not (o[4] is None or o[4][0] == "continue")]

    def inv_loop(self, s, st, ctx, it, cands):
        """a loop summarised by an inductive invariant: the conjunction of the candidate formulas that hold on entry and
        are preserved by every iteration.  cands(eng, st0, st, done) -> [(label, formula)]; done is the set of elements
        processed so far (for-loops over atoms)"""
        isfor = isinstance(s, ast.For)
        D = None
        sources = self.sources(it, st) if isfor else set()
        if isfor:
            src = self.iterable(it, st)
            D = defset(lambda x: self.member(Atom(x), src, st))

        def body(b, x):
            if isfor:
                for b1, r in self.bind_target(s.target, Atom(x), b, ctx):
                    if isinstance(r, Raised):
                        yield b1, ("raise", r.exc)
                    else:
                        yield from self.ex(s.body, b1, ctx)
                return
            for b1, v in self.ev(s.test, b, ctx):
                if isinstance(v, Raised):
                    yield b1, ("raise", v.exc)
                    continue
                t = self.truth(v, b1)
                if self.must(b1, Not(t)):
                    yield b1, ("end",)
                    continue
                b2 = b1.clone().assume(t)
                if not self.must(b1, t):
                    yield b1.clone().assume(Not(t)), ("end",)
                yield from self.ex(s.body, b2, ctx)

        def havoc(b):
            for h in heap_ch:
                b.heap[h] = self.havoc_cell(st.heap[h])
            for f, n in var_ch:
                if n in st.frames.get(f, {}):
                    b.frames[f][n] = self.havoc_var(st.frames[f][n], b) if (f, n) not in loose else Unknown()
                else:
                    b.frames[f].pop(n, None)
            return b
        heap_ch, var_ch, loose, kept = set(), set(), set(), None
        user = cands

        def cands(eng, s0, s1, done):
            out = []
            for h in sorted(heap_ch):
                a, b = s0.heap[h], s1.heap[h]
                for n in ["nodes"] if isinstance(a, CellGraph) else ["keys"] if isinstance(a, CellMap) else []:
                    p, q, y = getattr(a, n), getattr(b, n), binder(U, "y")
                    out.append((f"{h}: same {n}", z3.ForAll([y], mem(q, y) == mem(p, y), patterns=[mem(q, y), mem(p, y)]) if not p.eq(q) else TRUE))
            return out + user(eng, s0, s1, done)

        def step():
            b = havoc(st.clone())
            done = x = None
            if isfor:
                done, x = fresh(SET, "done"), fresh(U, "x")
                y = binder(U, "y")
                b.assume(z3.ForAll([y], z3.Implies(mem(done, y), mem(D, y)), patterns=[mem(done, y)]))
                b.assume(mem(D, x))
            for l, f in (cands(self, st, b, done) if kept is not None else []):
                if l in kept:
                    b.assume(f)
            done2 = defset(lambda z: Or(mem(done, z), z == x), "done") if isfor else None
            b0 = b.clone()
            del self.side[side0:]      # only the last iteration analysed counts: it assumes what was kept
            return b0, done2, list(body(b, x))
        side0 = len(self.side)
        for _ in range(8):
            b0, _, outs = step()
            nh, nv = set(), set()
            for s1, o in outs:
                h, v = self.changed(b0, s1)
                nh |= h
                nv |= v
            odd = {(f, n) for f, n in var_ch & nv for s1, _ in outs if self.shape(s1.frames[f].get(n), s1) != self.shape(b0.frames[f].get(n), b0)} - loose
            if nh <= heap_ch and nv <= var_ch and not odd:
                break
            heap_ch |= nh
            var_ch |= nv
            loose |= odd
        else:
            raise Unsupported("loop state does not stabilise")
        none = defset(lambda z: FALSE) if isfor else None
        probe = havoc(st.clone())
        labels = {l for l, _ in cands(self, st, probe, none)}
        memo = self.__dict__.setdefault("_failed", {})
        kept = {l for l, f in cands(self, st, st, none) if l in labels and memo.get((id(s), l), 0) < 2 and prove(st.pc, f, 700).status == "proved"}
        while True:
            b0, done2, outs = step()
            bad = set()
            for s1, o in outs:
                if o is None or o[0] == "continue":
                    if any(isinstance(b0.heap[h], CellBag) and s1.heap[h].region != b0.heap[h].region for h in heap_ch):
                        raise Unsupported("lists of a dict replaced in a loop")
                    if self.owners(st, self.changed(b0, s1)[0], {}) & sources:
                        raise Unsupported("a collection that changes while the loop goes through it")
                    for l, f in cands(self, st, s1, done2):
                        if l in kept and l not in bad and prove(s1.pc, f, 700).status != "proved":
                            bad.add(l)
            if not bad:
                break
            kept -= bad
            for l in bad:       # giving up a candidate early is sound and saves time when an outer loop is analysed again
                memo[(id(s), l)] = memo.get((id(s), l), 0) + 1
        for s1, o in outs:
            if o is not None and o[0] not in ("continue", "end"):
                s1.exact = False
                yield s1, (None if o[0] == "break" else o)
        fin = havoc(st.clone())
        fin.exact = False
        if isfor:
            for l, f in cands(self, st, fin, D):
                if l in kept:
                    fin.assume(f)
            yield from self.ex(s.orelse, fin, ctx)
            return
        for l, f in cands(self, st, fin, None):
            if l in kept:
                fin.assume(f)
        for s1, v in self.ev(s.test, fin, ctx):
            if isinstance(v, Raised):
                yield s1, ("raise", v.exc)
                continue
            t = self.truth(v, s1)
            if not self.must(s1, t):
                s1.assume(Not(t))
                yield from self.ex(s.orelse, s1, ctx)

    def with_heap(self, st, heap):
        s = st.clone()
        for h, c in heap.items():
            self.put(s, h, c)
        return s

    guess = 0

    def put(self, st, h, c):
        st.heap[h] = c
        if isinstance(c, CellBag) and c.region in self.regions and c.region not in st.heap:
            st.heap[c.region] = self.regions[c.region]

    def havoc_heap(self, b, st, heap_ch, regions):
        """the changed cells at an arbitrary iteration; regions: the lists of an unshared dict, at that iteration"""
        for h in heap_ch:
            c = st.heap[h]
            if isinstance(c, CellBag) and self.unshared(st, h):
                r = b.alloc(CellRegion(fresh(BAG, "hB"))).id
                regions[r] = h
                b.heap[h] = CellBag(fresh(SET, "hK"), r)
            else:
                b.heap[h] = self.havoc_cell(c)

    def unshared(self, st, h):
        r = st.heap[h].region
        return not any(k != h and isinstance(c, CellBag) and c.region == r for k, c in st.heap.items())

    def owners(self, st, hs, regions):
        """the changed cells, with the lists of a dict that is their only owner counted as the dict"""
        out = set()
        for h in hs:
            if h in regions:
                out.add(regions[h])
            elif h in st.heap and isinstance(st.heap[h], CellRegion):
                own = [k for k, c in st.heap.items() if isinstance(c, CellBag) and c.region == h]
                out.add(own[0] if len(own) == 1 else h)
            else:
                out.add(h)
        return out

    def shape(self, v, st):
        """what havoc_var keeps of a value"""
        if isinstance(v, Ref) and v.id in st.heap and isinstance(st.heap[v.id], CellColl) and st.heap[v.id].kind == "set" \
                and all(isinstance(b, Branch) and isinstance(b.elem, Atom) for b in self.coll(v, st).branches):
            return "set"
        return type(v).__name__ if isinstance(v, (BoolV, Coll, Num)) else "any"

    def havoc_var(self, v, st=None):
        if st is not None and self.shape(v, st) == "set":
            # some set of atoms, the same object as any other or a new one: it must stay as it is
            r = st.alloc(CellColl("set", setcoll(fresh(SET, "hS"))))
            self.frozen[r.id] = st.heap[r.id]
            return r
        if isinstance(v, BoolV):
            return BoolV(fresh(B, "hv"))
        if isinstance(v, Coll):
            return Coll([Marker(0)], v.kind)
        if isinstance(v, Num):
            return Num(fresh(v.t.sort(), "hn"))
        if isinstance(v, Seq) and v.kind == "array":
            f = z3.Function(fresh(I, "ha").decl().name(), I, R)
            return Seq(v.n, lambda i: Num(f(i)), "array", v.raw)
        return Unknown()

    def acc_var(self, fn, st, normals, depends):
        f, n = fn
        if n not in st.frames.get(f, {}):
            return Unknown()
        init = st.frames[f][n]
        if isinstance(init, BoolV):
            sets = {}
            for vs, g, b0, s1, o, fb, pb, hv in normals:
                v = s1.frames[f].get(n)
                if v is hv.get(fn):
                    continue
                if not isinstance(v, BoolV) or self.choices_in(s1, st, v.f):
                    return Unknown()
                c = z3.simplify(v.f)
                pc = And(*s1.pc[len(st.pc):])
                if depends(pc):
                    return Unknown()
                b = hv[fn].f
                if z3.is_true(c) or z3.is_false(c):
                    sets.setdefault(z3.is_true(c), []).append(Exists(vs + s1.fresh[fb:], pc))
                elif z3.is_or(c) and any(x.eq(b) for x in c.children()):
                    r = Or(*[x for x in c.children() if not x.eq(b)])
                    if depends(r):
                        return Unknown()
                    sets.setdefault(True, []).append(Exists(vs + s1.fresh[fb:], And(pc, r)))
                elif z3.is_and(c) and any(x.eq(b) for x in c.children()):
                    r = And(*[x for x in c.children() if not x.eq(b)])
                    if depends(r):
                        return Unknown()
                    sets.setdefault(False, []).append(Exists(vs + s1.fresh[fb:], And(pc, Not(r))))
                else:
                    return Unknown()
            if len(sets) == 0:
                return init
            if len(sets) == 1:
                k = next(iter(sets))
                f2 = Or(*sets[k])
                return BoolV(Or(init.f, f2) if k else And(init.f, Not(f2)))
            return Unknown()
        if isinstance(init, Num) or isinstance(init, Seq) and init.kind == "array":
            return self.lib.acc_num(self, fn, st, normals, depends)
        if isinstance(init, Coll) or isinstance(init, Ref):
            return Unknown()
        return Unknown()

    def accumulate(self, h, st, normals, depends):
        c0 = st.heap[h]
        if isinstance(c0, CellLitDict) and not c0.items:
            ref = self.lib.mkdict(self, self.accumulate_as(CellAbsDict(Coll([], "dict")), h, st, normals, depends).coll, st)
            return st.heap[ref.id]
        if isinstance(c0, (CellColl, CellAbsDict)):
            return self.accumulate_as(c0, h, st, normals, depends)
        return self.accumulate_pointwise(c0, h, st, normals, depends)

    def accumulate_as(self, c0, h, st, normals, depends):
        if True:
            base = c0.content if isinstance(c0, CellColl) else c0.coll
            br = list(self.coll(base, st).branches)
            minus = []
            for vs, g, b0, s1, o, fb, pb, hv in normals:
                c1 = s1.heap[h]
                if c1 is b0.heap[h]:
                    continue
                out = self.taken(c1)
                if out is not None:
                    # taking v out where it is there, doing nothing where it is not: v is not there afterwards
                    pc = []
                    for f in s1.pc[len(st.pc):]:
                        pc += f.children() if z3.is_and(f) else [f]
                    pc = And(*[f for f in pc if not (z3.is_const(f) and f.decl().name().startswith("htok!"))])
                    if depends(pc) or s1.fresh[fb:]:
                        raise Unsupported("removal depends on what was removed")
                    minus.append((vs, pc, out))
                    continue
                new = (c1.content if isinstance(c1, CellColl) else c1.coll)
                if not isinstance(new, Coll) or not any(isinstance(b, Marker) for b in new.branches):
                    if isinstance(new, Coll) or isinstance(new, Tup):
                        raise Unsupported("collection overwritten in a loop")
                    raise Unsupported("collection changed in a loop")
                pc = And(*s1.pc[len(st.pc):])
                if depends(pc):
                    raise Unsupported("accumulation depends on what was accumulated")
                for b in new.branches:
                    if not isinstance(b, Marker):
                        for k in set(s1.ghost.get("choice", ())) - set(st.ghost.get("choice", ())):
                            if k in repr(b.elem) or self.choices_in(s1, st, b.guard):
                                raise Unsupported("an element depends on an unspecified choice")
                        br.append(Branch(vs + s1.fresh[fb:] + b.vars, And(pc, b.guard), b.elem))
            if minus:
                if len(br) != len(self.coll(base, st).branches):
                    raise Unsupported("loop both adds and removes")
                return CellColl(c0.kind, Coll([self.without(b, minus) for b in br], base.kind if isinstance(base, Coll) else c0.kind, getattr(base, "nodup", False)))
            if isinstance(c0, CellAbsDict):
                return CellAbsDict(Coll(br, "dict"))
            if c0.kind == "list" and self._seq is not None and len(br) == len(normals) == 1 and isinstance(new.branches[0], Marker) and br[0].vars == list(normals[0][0]):
                br[0].ordered = self._seq.n     # one element per iteration, in the order of the iterations
            return CellColl(c0.kind, Coll(br, base.kind if isinstance(base, Coll) else c0.kind))

    def taken(self, cell):
        k = cell.content if isinstance(cell, CellColl) else None
        if isinstance(k, Coll) and len(k.branches) == 1 and isinstance(k.branches[0], Marker) and k.branches[0].minus:
            return list(k.branches[0].minus)
        return None

    def without(self, b, minus):
        """a branch of a collection without the elements taken out"""
        out = [(vs + ws, And(pc, h), t) for vs, pc, ts in minus for ws, h, t in ts]
        if isinstance(b, Marker):
            return Marker(b.id, b.minus + tuple(out))
        vs, g, e = b.inst()
        et = e.t if isinstance(e, Atom) else setof(e)
        if et is None:
            raise Unsupported("removal from a collection of compound values")
        return Branch(vs, And(g, *[Not(Exists(ws, And(h, t == et))) for ws, h, t in out if t.sort() == et.sort()]), e)

    def accumulate_pointwise(self, c0, h, st, normals, depends):
        # pointwise templates: the change of each iteration only adds (or only removes), independently of the state
        x, y = binder(U, "x"), binder(U, "y")

        def rel(get, vars, init):
            adds, dels = [], []
            for vs, g, b0, s1, o, fb, pb, hv in normals:
                before, after = get(b0.heap[h]), get(s1.heap[h])
                if before(*vars).eq(after(*vars)):
                    continue
                pc = And(*s1.pc[len(st.pc):])
                if depends(pc):
                    raise Unsupported("update condition depends on the loop's own changes")
                A, Bf = after(*vars), before(*vars)
                add = self.unfold(A, Bf, False)
                dele = self.unfold(A, Bf, True)
                if depends(dele):       # a guess: other members of the old structure do not matter either (checked below)
                    dele = self.others(dele, Bf, True)
                if depends(add):
                    add = self.others(add, Bf, False)
                if add is not None and not depends(add):
                    r, _ = check([A != Or(Bf, add)], 1500, 0, False)
                    if r == z3.unsat:
                        adds.append(Exists(vs + s1.fresh[fb:], And(pc, add)))
                        continue
                if dele is not None and not depends(dele):
                    r, _ = check([A != And(Bf, dele)], 1500, 0, False)
                    if r == z3.unsat:
                        dels.append(Exists(vs + s1.fresh[fb:], And(pc, Not(dele))))
                        continue
                raise Unsupported("loop both adds and removes, or depends on order")
            if adds and dels:
                raise Unsupported("loop both adds and removes")
            return And(Or(init, *adds), *[Not(d) for d in dels])
        if isinstance(c0, CellGraph):
            nodes = defset(lambda a: z3.substitute(rel(lambda c: (lambda z: mem(c.nodes, z)), [x], mem(c0.nodes, x)), (x, a)), "N")
            E = defrel(lambda a, b: z3.substitute(rel(lambda c: (lambda z, w: edge(c.E, z, w)), [x, y], edge(c0.E, x, y)), (x, a), (y, b)), "E")
            fields = dict(c0.fields)
            for k in fields:
                if any(s1.heap[h].fields.get(k) is not b0.heap[h].fields.get(k) for _, _, b0, s1, *_ in normals):
                    fields[k] = self.lib.acc_field(self, k, c0, h, st, normals)
            return CellGraph(c0.cls, nodes, E, fields)
        if isinstance(c0, CellBag):
            keys = defset(lambda a: z3.substitute(rel(lambda c: (lambda z: mem(c.keys, z)), [x], mem(c0.keys, x)), (x, a)), "K")
            if all(s1.heap[h].region == b0.heap[h].region and s1.heap[s1.heap[h].region] is b0.heap[b0.heap[h].region] for _, _, b0, s1, *_ in normals):
                return CellBag(keys, c0.region)
            if not self.unshared(st, h):
                raise Unsupported("lists of a shared dict replaced in a loop")
            r = st.clone().alloc(CellRegion(self.grouped(h, st, normals, depends))).id
            self.regions[r] = CellRegion(self._grouped)
            return CellBag(keys, r)
        if isinstance(c0, CellMap):
            keys = defset(lambda a: z3.substitute(rel(lambda c: (lambda z: mem(c.keys, z)), [x], mem(c0.keys, x)), (x, a)), "K")
            m = self.acc_map(h, c0, st, normals, depends)
            return CellMap(keys, m) if type(c0) is CellMap else type(c0)(keys, m, fresh(X, "tab"))
        return CellUnknown()

    def grouped(self, h, st, normals, depends):
        """lists built by adding one element per iteration to the list of some key: a guess, which the caller proves inductive"""
        if not self.guess:
            raise Unsupported("lists built in a loop")
        c0 = st.heap[h]
        bag0 = st.heap[c0.region].bag
        cur = []
        for vs, g, b0, s1, o, fb, pb, hv in normals:
            before, after = b0.heap[h], s1.heap[h]
            b, c = b0.heap[before.region].bag, s1.heap[after.region].bag
            if b.eq(c):
                continue
            x, y = fresh(U, "x"), fresh(U, "y")
            k = binder(U, "k")
            known = list(s1.fullpc) + [z3.ForAll([k, y], z3.Implies(z3.Not(mem(before.keys, k)), cnt(b, k, y) == 0), patterns=[cnt(b, k, y)])]
            atoms = {}
            for f in s1.frames.values():
                for v in f.values():
                    for w in v.items if isinstance(v, Tup) else [v]:
                        if isinstance(w, Atom) and not depends(w.t):
                            atoms[w.t.get_id()] = w.t
            for v in vs:
                if v.sort() == U:
                    atoms[v.get_id()] = v
            terms = sorted(atoms.values(), key=lambda t: (len(str(t)), str(t)))
            terms = [t for t in terms if {v.decl().name() for v in vs} & set(consts_of(t)[1])] + [t for t in terms if not {v.decl().name() for v in vs} & set(consts_of(t)[1])][:4]
            hit = next(((K, V) for V in terms for K in terms if V.sort() == U and K.sort() == U and
                        check(known + [cnt(c, x, y) != cnt(b, x, y) + z3.If(z3.And(x == K, y == V), 1, 0)], 1000, 0, False)[0] == z3.unsat), None)
            if hit is None:
                if DEBUG:
                    print("GROUPED", terms, [str(expand(cnt(c, x, y)))], [str(expand(cnt(b, x, y)))])
                raise Unsupported("lists built in a loop")
            pc = And(*s1.pc[len(st.pc):])
            cur.append(lambda p, q, vs=vs, s1=s1, fb=fb, pc=pc, hit=hit: Exists(vs + s1.fresh[fb:], And(pc, hit[0] == p, hit[1] == q)))

        def any_of(p, q):
            out = []
            for f in cur:
                e = f(p, q)
                if not any(e.eq(o) for o in out):
                    out.append(e)
            return Or(*out)
        self._grouped = defbag(lambda p, q: cnt(bag0, p, q) + z3.If(any_of(p, q), 1, 0), "C")
        return self._grouped

    def acc_map(self, h, c0, st, normals, depends):
        """map filled by a loop that sets the entry of its own (atomic) loop variable"""
        x = binder(U, "x")
        cur = []
        for vs, g, b0, s1, o, fb, pb, hv in normals:
            before, after = b0.heap[h].m, s1.heap[h].m
            if before is after or before.eq(after):
                continue
            pc = And(*s1.pc[len(st.pc):])
            vals = [v for v in vs if v.sort() == U]
            hit = None
            for v in vals:
                val = z3.simplify(expand(app(after, v)))
                if self.guess:      # the own entry as it was before the loop: a guess, which the caller proves inductive
                    own = [(p, q) for p, q in ((before, c0.m), (b0.heap[h].keys, c0.keys)) if z3.is_const(p)]
                    pc, val = rename(pc, own), rename(val, own)
                if depends(pc) or depends(val) or s1.fresh[fb:]:
                    continue
                y = binder(U, "y")
                if check(list(s1.pc) + [app(before, v) == app(c0.m, v)] * bool(self.guess) + [app(after, y) != z3.If(y == v, val, app(before, y))], 1500, 0, False)[0] == z3.unsat:
                    hit = (v, val)
            if hit is None or len(vs) != 1:
                return fresh(MAP, "M")
            v, val = hit
            cur.append((z3.substitute(pc, (v, x)), z3.substitute(val, (v, x))))
        e = app(c0.m, x)
        if not cur:
            return c0.m
        if len(cur) > 1 and not all(c[1].eq(cur[0][1]) for c in cur):
            return fresh(MAP, "M")
        for pc, val in cur:
            e = z3.If(pc, val, e)
        return defmap(lambda y: z3.substitute(e, (x, y)), "M")

    def others(self, f, Bf, val):
        out, stack, seen = [], [f], set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen or z3.is_quantifier(t) or not z3.is_app(t):
                continue
            seen.add(t.get_id())
            if t.decl().eq(Bf.decl()) and t.num_args() and t.arg(0).eq(Bf.arg(0)):
                out.append((t, z3.BoolVal(val)))
            stack += t.children()
        return z3.simplify(z3.substitute(f, *out)) if out else f

    def unfold(self, A, Bf, val):
        """A (a membership in an updated structure) with the earlier membership Bf replaced by a constant"""
        f = expand(A)
        return z3.simplify(z3.substitute(f, (Bf, z3.BoolVal(val))))

    def ex_While(self, s, st, ctx):
        hook = self.loop_hook(s, st, ctx, None)
        if hook is not None:
            yield from hook
            return
        raise Unsupported(f"while loop without an invariant (line {s.lineno})")


def expand(f, depth=12):
    """unfold definitional symbols in mem/edge atoms of a quantifier-free formula"""
    for _ in range(depth):
        hit = None
        stack = [f]
        seen = set()
        while stack and hit is None:
            t = stack.pop()
            if t.get_id() in seen or z3.is_quantifier(t):
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().name() in ("mem", "edge", "app", "cnt"):
                s = t.arg(0)
                nm = s.decl().name()
                if nm in DEFS:
                    for ax in DEFS[nm]:
                        r = rewrite(ax, t)
                        if r is not None:
                            hit = (t, r)
                            break
            stack.extend(t.children())
        if hit is None:
            return f
        f = z3.substitute(f, hit)
    return f


def rewrite(ax, t):
    """apply a definitional axiom forall vs. head == body to the instance t of head"""
    if z3.is_quantifier(ax):
        vs = [fresh(ax.var_sort(i), "r") for i in range(ax.num_vars())]
        b = z3.substitute_vars(ax.body(), *reversed(vs))
    else:
        vs, b = [], ax
    head, body = b.arg(0), b.arg(1)
    if not (z3.is_app(head) and head.decl().eq(t.decl())):
        head, body = body, head
    if not (z3.is_app(head) and head.decl().eq(t.decl())):
        return None
    sub = []
    names = {v.decl().name(): v for v in vs}

    def match(p, u):
        if z3.is_const(p) and p.decl().name() in names:
            sub.append((p, u))
            return True
        if not z3.is_app(u) or not p.decl().eq(u.decl()) or p.num_args() != u.num_args():
            return False
        return all(match(a, c) for a, c in zip(p.children(), u.children()))
    if not match(head, t):
        return None
    return z3.substitute(body, *sub)
