"""Symbolic worlds: arbitrary influence diagrams satisfying the class invariant, and value builders."""
import z3
from .logic import *
from .values import *
from .lib import CellGhost, CellModel, CellPath, cpdOf, cpdNone, isDD, isCC, isSF, mec_axiom, topo_order


def uconst(name):
    return z3.Const(name, U)


def macid(eng, st, cls="MACIDBase", wf=True, acyclic=True, tag=""):
    """an arbitrary (MA)CID satisfying the class invariant WF"""
    k = eng.repo.classes[cls] if isinstance(cls, str) else cls
    c = lambda n, s: z3.Const(n + tag, s)
    N, E = c("N", SET), c("E", REL)
    AKD, AKU, KD, KU = c("AKD", SET), c("AKU", SET), c("KD", SET), c("KU", SET)
    DA, UA = c("DA", MAP), c("UA", MAP)
    BD, BU = c("BD", BAG), c("BU", BAG)
    rd, ru = st.alloc(CellRegion(BD)), st.alloc(CellRegion(BU))
    f = {"agent_decisions": st.alloc(CellBag(AKD, rd.id)), "agent_utilities": st.alloc(CellBag(AKU, ru.id)),
         "decision_agent": st.alloc(CellMap(KD, DA)), "utility_agent": st.alloc(CellMap(KU, UA)),
         "model": st.alloc(CellModel(c("MK", SET), c("MR", MAP), c("TAB", X)))}
    ref = st.alloc(CellGraph(k, N, E, f))
    for g in WF(eng, st, ref, acyclic):
        st.assume(g)
    return ref


def WF(eng, st, ref, acyclic=True):
    """class invariant of MACIDBase"""
    c = st.heap[ref.id]
    bd, bu = st.heap[c.fields["agent_decisions"].id], st.heap[c.fields["agent_utilities"].id]
    dm, um = st.heap[c.fields["decision_agent"].id], st.heap[c.fields["utility_agent"].id]
    BD, BU = st.heap[bd.region].bag, st.heap[bu.region].bag
    x, y, a = binder(U, "x"), binder(U, "y"), binder(U, "a")
    out = [z3.ForAll([x, y], z3.Implies(edge(c.E, x, y), z3.And(mem(c.nodes, x), mem(c.nodes, y))), patterns=[edge(c.E, x, y)])]
    if acyclic:
        out.append(Acyc(c.E))
        out.append(z3.ForAll([x], z3.Not(edge(c.E, x, x)), patterns=[edge(c.E, x, x)]))
    for keys, bag, m in ((bd.keys, BD, dm), (bu.keys, BU, um)):
        out.append(z3.ForAll([a, x], z3.Implies(mem(keys, a), cnt(bag, a, x) == z3.If(z3.And(mem(m.keys, x), app(m.m, x) == a), 1, 0)),
                             patterns=[cnt(bag, a, x)]))
        out.append(z3.ForAll([x], z3.Implies(mem(m.keys, x), z3.And(mem(keys, app(m.m, x)), mem(c.nodes, x))), patterns=[mem(m.keys, x)]))
    out.append(z3.ForAll([x], z3.Not(z3.And(mem(dm.keys, x), mem(um.keys, x))), patterns=[z3.MultiPattern(mem(dm.keys, x), mem(um.keys, x))]))
    return out


class W:
    """readable access to the parts of a diagram in a state"""
    def __init__(self, eng, st, ref):
        self.eng, self.st, self.ref = eng, st, ref
        c = st.heap[ref.id]
        self.c, self.N, self.E = c, c.nodes, c.E
        f = c.fields
        if "decision_agent" in f:
            self.dm, self.um = st.heap[f["decision_agent"].id], st.heap[f["utility_agent"].id]
            self.bd, self.bu = st.heap[f["agent_decisions"].id], st.heap[f["agent_utilities"].id]
            self.KD, self.DA, self.KU, self.UA = self.dm.keys, self.dm.m, self.um.keys, self.um.m
            self.AKD, self.AKU = self.bd.keys, self.bu.keys
            self.BD, self.BU = st.heap[self.bd.region].bag, st.heap[self.bu.region].bag
        if "model" in f:
            self.model = st.heap[f["model"].id]
            self.MK, self.MR, self.TAB = self.model.keys, self.model.m, self.model.tabs

    def isdec(self, x):
        return mem(self.KD, x)

    def isutil(self, x):
        return mem(self.KU, x)

    def node(self, x):
        return mem(self.N, x)


def sett(pred):
    return defset(pred)


def atoms_in(st, name, pred):
    """an arbitrary collection of atoms all satisfying pred (a set: order unknown)"""
    s = z3.Const(name, SET)
    x = binder(U, "x")
    st.assume(z3.ForAll([x], Imp(mem(s, x), pred(x)), patterns=[mem(s, x)]))
    return st.alloc(CellColl("set", setcoll(s)))


def listcoll(pred, kind="list"):
    """specified result: the elements satisfying pred, each once"""
    b = binder(U, "b")
    return Coll([Branch([b], pred(b), Atom(b))], kind, nodup=True)


def bool_(f):
    return lambda st: BoolV(f)
