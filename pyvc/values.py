"""Symbolic values, heap cells and states."""
import z3
from .logic import *


class Unsupported(Exception):
    """the code uses something outside the verified subset"""


class V:
    pass


class Atom(V):
    def __init__(self, t, py=None):
        self.t, self.py = t, py

    def __repr__(self):
        return f"Atom({self.t})"


class Num(V):
    def __init__(self, t, py=None):
        if isinstance(t, (int, float)) and not isinstance(t, bool):
            py = t
            t = z3.IntVal(t) if isinstance(t, int) else z3.RealVal(repr(t))
        self.t, self.py = t, py

    def __repr__(self):
        return f"Num({self.t})"


class BoolV(V):
    def __init__(self, f):
        self.f = z3.BoolVal(f) if isinstance(f, bool) else f

    def __repr__(self):
        return f"Bool({self.f})"


class NoneV(V):
    def __repr__(self):
        return "None"


class Opaque(V):
    def __init__(self, what=""):
        self.what = what

    def __repr__(self):
        return f"Opaque({self.what})"


class Unknown(V):
    """a variable or cell whose value is not tracked here; reading it is unsupported"""


class Obj(V):
    """an immutable value of an abstract sort (distribution, factor, ...)"""
    def __init__(self, t, tag, data=None):
        self.t, self.tag, self.data = t, tag, data

    def __repr__(self):
        return f"{self.tag}({self.t})"


class Tup(V):
    def __init__(self, items, kind="tuple"):
        self.items, self.kind = list(items), kind

    def __repr__(self):
        return f"{self.kind}{self.items}"


class Ref(V):
    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return f"Ref({self.id})"


class Func(V):
    def __init__(self, info, chain=(), selfv=None, module=None, cls=None, defaults=None):
        self.info, self.chain, self.selfv, self.module, self.cls = info, chain, selfv, module, cls
        self.defaults = defaults or {}

    def __repr__(self):
        return f"Func({getattr(self.info, 'qual', '?')})"


class Lib(V):
    """library function, class or module, by dotted name; selfv for methods"""
    def __init__(self, name, selfv=None, data=None):
        self.name, self.selfv, self.data = name, selfv, data

    def __repr__(self):
        return f"Lib({self.name})"


class ClsV(V):
    def __init__(self, info):
        self.info = info

    def __repr__(self):
        return f"Cls({self.info.name})"


class SuperV(V):
    def __init__(self, cls, selfv):
        self.cls, self.selfv = cls, selfv


class Raised(V):
    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return f"Raised({self.exc})"


class Branch:
    def __init__(self, vars, guard, elem):
        self.vars, self.guard, self.elem = list(vars), guard, elem

    def inst(self):
        if not self.vars:
            return [], self.guard, self.elem
        new = [binder(v.sort(), "b") for v in self.vars]
        pairs = list(zip(self.vars, new))
        return new, z3.substitute(self.guard, *pairs), subst(self.elem, pairs)


class Marker:
    """the unknown earlier content of an accumulator inside a loop body"""
    def __init__(self, id, minus=()):
        self.id, self.minus = id, tuple(minus)      # minus: the elements taken out of it since


def setof(v):
    """the term S of a collection that is exactly the atoms of a set S"""
    if isinstance(v, Coll) and len(v.branches) == 1 and isinstance(v.branches[0], Branch):
        b = v.branches[0]
        if len(b.vars) == 1 and isinstance(b.elem, Atom) and b.elem.t.eq(b.vars[0]) and z3.is_app(b.guard) and b.guard.decl().name() == "mem" and b.guard.arg(1).eq(b.vars[0]):
            S = b.guard.arg(0)
            if b.vars[0].decl().name() not in consts_of(S)[1]:
                return S
    return None


class Coll(V):
    def __init__(self, branches, kind="list", nodup=False):
        self.branches, self.kind, self.nodup = list(branches), kind, nodup

    def inst(self):
        for b in self.branches:
            if isinstance(b, Marker):
                raise Unsupported("reading an accumulator inside its loop")
            yield b.inst()

    def __repr__(self):
        return f"Coll<{self.kind}>" + ";".join(repr((b.vars, b.guard, b.elem)) if isinstance(b, Branch) else "*" for b in self.branches)


class Seq(V):
    """n: the length; raw: a term whose maximum with 0 is the length"""
    def __init__(self, n, at, kind="list", raw=None):
        self.n, self.at, self.kind, self.raw = n, at, kind, n if raw is None else raw


class PathV(V):
    """a list of atoms given by a sequence term; immutable"""
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"Path({self.t})"


def subst(v, pairs):
    if not pairs:
        return v
    s = lambda t: z3.substitute(t, *pairs)
    if isinstance(v, Atom):
        return Atom(s(v.t), v.py)
    if isinstance(v, Num):
        return Num(s(v.t), v.py)
    if isinstance(v, BoolV):
        return BoolV(s(v.f))
    if isinstance(v, Tup):
        return Tup([subst(i, pairs) for i in v.items], v.kind)
    if isinstance(v, PathV):
        return PathV(s(v.t))
    if isinstance(v, Obj):
        return Obj(s(v.t), v.tag, v.data)
    if isinstance(v, Coll):
        return Coll([b if isinstance(b, Marker) else Branch(b.vars, s(b.guard), subst(b.elem, pairs)) for b in v.branches], v.kind, v.nodup)
    if isinstance(v, Seq):
        return Seq(s(v.n), lambda i, at=v.at: subst(at(i), pairs), v.kind, s(v.raw))
    if isinstance(v, (NoneV, Opaque, Unknown, ClsV)):
        return v
    if isinstance(v, Ref):
        return v
    if isinstance(v, Func):
        return v
    if isinstance(v, Lib):
        if v.data is None and not isinstance(v.selfv, V):
            return v
        return Lib(v.name, subst(v.selfv, pairs) if isinstance(v.selfv, V) else v.selfv, subdata(v.data, s, pairs))
    raise Unsupported(f"substitution in {type(v).__name__}")


def subdata(d, s, pairs):
    if isinstance(d, tuple):
        return tuple(subdata(x, s, pairs) for x in d)
    if isinstance(d, V):
        return subst(d, pairs)
    return s(d) if z3.is_expr(d) else d


def single(e, kind="list"):
    return Branch([], TRUE, e)


def setcoll(s, kind="set"):
    b = binder(U, "b")
    return Coll([Branch([b], mem(s, b), Atom(b))], kind, nodup=True)


# ------------------------------------------------------------------ heap cells (never mutated in place)
class CellColl:
    """list or set"""
    def __init__(self, kind, content):
        self.kind, self.content = kind, content


class CellLitDict:
    """dict with literally known keys, in order"""
    def __init__(self, items):
        self.items = list(items)


class CellMap:
    """dict atom -> atom"""
    def __init__(self, keys, m):
        self.keys, self.m = keys, m


class CellBag:
    """dict atom -> list of atoms; lists live in a region that shallow copies share"""
    def __init__(self, keys, region):
        self.keys, self.region = keys, region


class CellRegion:
    def __init__(self, bag):
        self.bag = bag


class CellAbsDict:
    """dict given by a collection of (key, value) pairs; lookup takes the pair with that key"""
    def __init__(self, coll):
        self.coll = coll


class CellGraph:
    def __init__(self, cls, nodes, E, fields):
        self.cls, self.nodes, self.E, self.fields = cls, nodes, E, fields

    def but(self, **kw):
        d = dict(cls=self.cls, nodes=self.nodes, E=self.E, fields=self.fields)
        d.update(kw)
        return CellGraph(**d)


class CellObj:
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class CellUnknown:
    pass


_id = [0]


class State:
    def __init__(self):
        self.frames, self.heap, self.pc, self.fresh = {}, {}, [], []
        self.exact = True
        self.yields = None
        self.ghost = {}

    def clone(self):
        s = State.__new__(State)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.fresh = list(self.fresh)
        s.exact = self.exact
        s.yields = self.yields
        s.ghost = dict(self.ghost)
        return s

    def assume(self, f):
        if not z3.is_true(f):
            self.pc.append(f)
        return self

    def alloc(self, cell):
        _id[0] += 1
        self.heap[_id[0]] = cell
        return Ref(_id[0])

    def new_frame(self):
        _id[0] += 1
        self.frames[_id[0]] = {}
        return _id[0]

    def cell(self, ref):
        c = self.heap[ref.id]
        if isinstance(c, CellUnknown):
            raise Unsupported("reading state changed by an unfinished loop")
        return c

    def set(self, ref, cell):
        self.heap[ref.id] = cell
