"""The depth-first path search: a loop rule for a search driven by an explicit stack of iterators (C06).

A search keeps the path so far and, for each of its prefixes, the successors not tried yet.  Invariant: the paths
yielded so far are exactly the complete paths that are not pending, where a path is pending when it extends a prefix of
the current path by a successor not tried yet."""
import ast
import z3
from pyvc.logic import *
from pyvc.values import *
from pyvc import lib as L
from pyvc.lib import CellPath
from pyvc.verify import *

SSEQ = z3.DeclareSort("SetSeq")
sat = z3.Function("sat", SSEQ, I, SET)


class CellStack:
    """a list of n iterators; sat(R, i) is what iterator i has not delivered yet"""
    def __init__(self, R, n):
        self.R, self.n = R, n


def upd(st, R, i, s):
    """R with position i set to s"""
    R2 = fresh(SSEQ, "stk")
    j = binder(I, "j")
    st.assume(sat(R2, i) == s)
    st.assume(z3.ForAll([j], z3.Implies(j != i, sat(R2, j) == sat(R, j)), patterns=[sat(R2, j)]))
    st.assume(z3.ForAll([j], z3.Implies(j != i, sat(R2, j) == sat(R, j)), patterns=[sat(R, j)]))
    return R2


def stack_getitem(eng, v, k, st):
    c = st.cell(v)
    if not isinstance(k, Num) or k.py != -1:
        raise Unsupported("indexing a stack of iterators other than at its top")
    for st1, r in eng.guarded(st, c.n > 0, "IndexError"):
        yield st1, (r or Lib("stackiter", v, (c.n - 1,)))


def stack_next(eng, src, default, st):
    if default:
        raise Unsupported("next() with a default on a stack")
    ref, (i,) = src.selfv, src.data
    c = st.cell(ref)
    x = fresh(U, "next")
    y = binder(U, "y")
    e = st.clone().assume(z3.ForAll([y], z3.Not(mem(sat(c.R, i), y)), patterns=[mem(sat(c.R, i), y)]))
    yield e, Raised("StopIteration")
    s = st.clone().assume(mem(sat(c.R, i), x))
    s.fresh = s.fresh + [x]
    s.set(ref, CellStack(upd(s, c.R, i, defset(lambda z: And(mem(sat(c.R, i), z), z != x), "rest")), c.n))
    yield s, Atom(x)


def stack_append(eng, ref, args, st):
    c = st.cell(ref)
    s = iter_set(eng, args[0], st)
    st.set(ref, CellStack(upd(st, c.R, c.n, s), c.n + 1))
    yield st, NoneV()


def stack_pop(eng, ref, args, st):
    c = st.cell(ref)
    if args:
        raise Unsupported("pop from inside a stack")
    for st1, r in eng.guarded(st, c.n > 0, "IndexError"):
        if r:
            yield st1, r
        else:
            st1.set(ref, CellStack(c.R, c.n - 1))
            yield st1, Opaque("iterator")


def iter_set(eng, v, st):
    """the elements an iterator over distinct elements delivers, as a set"""
    k = st.cell(v).content if isinstance(v, Ref) else v
    k = eng.iterable(k, st)
    if isinstance(k, Coll) and not (k.nodup or k.kind in ("set", "keys")):
        f = eng.lib.nodup_formula(eng, k, st)
        eng.side.append(("successors are distinct", list(st.pc), f))
    elif not isinstance(k, Coll):
        raise Unsupported("successors are not a set")
    return eng.setterm(k, st)


L.EXTRA.update({"getitem:CellStack": stack_getitem, "next:stackiter": stack_next, "append:CellStack": stack_append, "pop:CellStack": stack_pop,
                "truth:CellStack": lambda eng, v, st: st.cell(v).n > 0, "len:CellStack": lambda eng, v, st: Num(st.cell(v).n)})


def succ_call(eng, fv, args, kw, st):
    S, Dom = fv.data
    v = args[0]
    c = st.cell(v) if isinstance(v, Ref) else None
    t = v.t if isinstance(v, PathV) else c.t if isinstance(c, CellPath) else None
    if t is None or len(args) != 1:
        raise Unsupported("successor function called on something else than the path")
    for st1, r in eng.guarded(st, And(plen(t) >= 1, Dom(t)), "Exception"):
        yield st1, (r or setcoll(defset(lambda x: S(t, x), "succ"), "set"))


def find_roles(eng, st, ctx):
    """the variables that hold the path, the stack, the end and the successor function"""
    fr = st.frames[ctx.chain[-1]]
    path = [v for v in fr.values() if isinstance(v, Ref) and isinstance(st.heap[v.id], CellColl) and isinstance(st.heap[v.id].content, Tup)
            and len(st.heap[v.id].content.items) == 1 and isinstance(st.heap[v.id].content.items[0], Atom)]
    stack = [v for v in fr.values() if isinstance(v, Ref) and isinstance(st.heap[v.id], CellColl) and isinstance(st.heap[v.id].content, Tup)
             and len(st.heap[v.id].content.items) == 1 and not isinstance(st.heap[v.id].content.items[0], Atom)]
    if len(path) != 1 or len(stack) != 1:
        raise Unsupported("depth-first search in another form")
    return path[0], stack[0]


def dfs_hook(eng, s, st, ctx, it):
    if not isinstance(s, ast.While):
        return None
    return dfs_rule(eng, s, st, ctx)


def dfs_rule(eng, s, st, ctx):
    q = ctx.func.info
    names = [a.arg for a in q.node.args.args]
    fr = st.frames[ctx.chain[-1]]
    start, end, succ = (fr[n] for n in names[:3])
    start, end = start.t, end.t
    path, stack = find_roles(eng, st, ctx)
    if st.heap[st.yields].content.branches:
        raise Unsupported("search that has already yielded")

    def succset(p, s0):
        """successors of a path, as a predicate, by running the real successor function"""
        s1 = s0.clone()
        return [(s2, v) for s2, v in eng.call(succ, [PathV(p)], {}, s1) if not isinstance(v, Raised)]
    # the successor relation, defined once over an arbitrary nonempty path
    p0, x0 = binder(P, "p"), binder(U, "x")
    sg = st.clone().assume(plen(p0) >= 1)
    outs = succset(p0, sg)
    pcs = [(s2.fresh[len(sg.fresh):], And(*s2.pc[len(sg.pc):])) for s2, _ in outs]
    S = z3.Function(f"succ!{fresh(U).decl().name()}", P, U, B)
    body = Or(*[Exists(fr, And(pc if len(outs) > 1 else TRUE, eng.member(Atom(x0), eng.iterable(v, s2), s2))) for (fr, pc), (s2, v) in zip(pcs, outs)])
    Dom = z3.Function(f"domain!{fresh(U).decl().name()}", P, B)
    # where the successor function returns (elsewhere it raises)
    dom = Or(*[Exists(fr, pc) for fr, pc in pcs])
    sdef = And(z3.ForAll([p0, x0], z3.Implies(plen(p0) >= 1, S(p0, x0) == body), patterns=[S(p0, x0)]),
               z3.ForAll([p0], z3.Implies(plen(p0) >= 1, Dom(p0) == dom), patterns=[Dom(p0)]))

    k, k2 = binder(I, "k"), binder(I, "k2")

    def steps(p, n, pats=lambda p: [at(p, k), pre(p, k)]):
        return z3.ForAll([k], z3.Implies(z3.And(1 <= k, k < n, trig(p, k)), S(pre(p, k), at(p, k))), patterns=pats(p))

    def noend(p, n, pats=lambda p: [at(p, k)]):
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, trig(p, k)), at(p, k) != end), patterns=pats(p))
    Valid = z3.Function(f"complete!{fresh(U).decl().name()}", P, B)
    p1 = binder(P, "q")

    def validity(*pats):
        return z3.ForAll([p1], Valid(p1) == z3.And(plen(p1) >= 1, at(p1, 0) == start, at(p1, plen(p1) - 1) == end, steps(p1, plen(p1), *pats), noend(p1, plen(p1) - 1, *pats)), patterns=[Valid(p1)])
    vdef = validity()

    def pending(p, t, R, n):
        return z3.Exists([k], z3.And(0 <= k, k < n, plen(p) > k + 1, pre(p, k + 1) == pre(t, k + 1), mem(sat(R, k), at(p, k + 1))), patterns=[sat(R, k)])

    def inv(t, R, n, Y):
        """Y: a predicate on paths"""
        x = binder(U, "x")
        return [("the stack has one iterator per node of the path", And(n == plen(t), n >= 0)),
                ("the path starts at the start", Imp(n >= 1, at(t, z3.IntVal(0)) == start)),
                ("the successors of each prefix of the path are defined", z3.ForAll([k], z3.Implies(z3.And(1 <= k, k <= n), Dom(pre(t, k))), patterns=[pre(t, k)])),
                ("each step of the path is to a successor", steps(t, n)),
                ("the path has not reached the end", noend(t, n)),
                ("untried nodes are successors", z3.ForAll([k, x], z3.Implies(z3.And(0 <= k, k < n, mem(sat(R, k), x)), S(pre(t, k + 1), x)), patterns=[mem(sat(R, k), x)])),
                ("the next node of the path has been tried", z3.ForAll([k, k2], z3.Implies(z3.And(0 <= k, k2 == k + 1, k2 < n), z3.Not(mem(sat(R, k), at(t, k2)))), patterns=[z3.MultiPattern(sat(R, k), at(t, k2))])),
                ("exactly the complete paths that are not pending have been yielded",
                 z3.ForAll([p1], Y(p1) == z3.And(Valid(p1), z3.Not(pending(p1, t, R, n))), patterns=[Valid(p1)]))]
    lab = "path search invariant: "
    # ---- on entry
    e = st.clone()
    content = e.heap[stack.id].content.items[0]
    t0, R0 = sing(e.heap[path.id].content.items[0].t), fresh(SSEQ, "stk")
    e.assume(sdef).assume(vdef)
    e.assume(sat(R0, 0) == iter_set(eng, content, e))
    for l, f in inv(t0, R0, z3.IntVal(1), lambda p: FALSE):
        eng.side.append((lab + l + " (entry)", list(e.pc), f))
    # ---- an arbitrary iteration
    a = st.clone()
    t, R, n = fresh(P, "path"), fresh(SSEQ, "stk"), fresh(I, "n")
    Yf = z3.Function(f"yielded!{fresh(U).decl().name()}", P, B)
    a.set(path, CellPath(t))
    a.set(stack, CellStack(R, n))
    a.heap[a.yields] = CellColl("list", Coll([Marker(0)], "iter"))
    # inside the loop the successor function is known by this summary only
    xq = binder(U, "x")
    step = z3.ForAll([p0, xq], z3.Implies(z3.And(plen(p0) >= 1, Dom(p0), S(p0, xq)), Dom(snoc(p0, xq))), patterns=[z3.MultiPattern(S(p0, xq), Dom(p0))])
    eng.side.append((lab + "successors are defined on the extended path", list(st.pc) + [sdef], step))
    a.frames[ctx.chain[-1]][names[2]] = Lib("succfn", None, (S, Dom))
    a.assume(step).assume(vdef)
    for l, f in inv(t, R, n, Yf):
        a.assume(f)
    frames = a.frames[ctx.chain[-1]]
    for nm in list(frames):
        if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == nm for b in s.body for x in ast.walk(b)):
            frames[nm] = Unknown()
    it0 = a.clone()
    for a1, c in eng.ev(s.test, a, ctx):
        if isinstance(c, Raised):
            yield a1, ("raise", c.exc)
            continue
        f = eng.truth(c, a1)
        b = a1.clone().assume(f)
        for b1, o in eng.ex(s.body, b, ctx):
            if o is not None and o[0] == "raise" and eng.must(b1, FALSE, 2000):
                continue
            if o is not None and o[0] != "continue":
                raise Unsupported(f"{o[0]} inside the path search")
            for h in it0.heap:
                if h not in (path.id, stack.id, st.yields) and b1.heap[h] is not it0.heap[h]:
                    raise Unsupported("the path search changes other state")
            c1, c2 = b1.heap[path.id], b1.heap[stack.id]
            if not isinstance(c1, CellPath) or not isinstance(c2, CellStack):
                raise Unsupported("path or stack replaced")
            ys = b1.heap[b1.yields].content.branches
            new = [y for y in ys if not isinstance(y, Marker)]
            if len(ys) - len(new) != 1 or any(y.vars or not z3.is_true(y.guard) or not isinstance(y.elem, (PathV, Ref)) for y in new):
                raise Unsupported("yielding several paths at once")
            terms = [y.elem.t if isinstance(y.elem, PathV) else b1.cell(y.elem).t for y in new]
            for y in terms:
                eng.side.append((lab + "no path is yielded twice", list(b1.pc), Not(Yf(y))))
            # the stack update speaks about the old contents through definitions in the path condition
            for l, g in inv(c1.t, c2.R, c2.n, lambda p, terms=terms: z3.Or(Yf(p), *[p == y for y in terms]) if terms else Yf(p)):
                eng.side.append((lab + l + " (kept)", list(b1.pc), g))
        # ---- after the loop
        d = a1.clone().assume(Not(f))
        p = binder(P, "p")
        # the last part of the invariant again, for an empty stack
        every = z3.ForAll([p1], Yf(p1) == Valid(p1), patterns=[Yf(p1)])
        eng.side.append((lab + "at the end every complete path has been yielded", list(d.pc), every))
        d.pc = list(st.pc)
        # the same definitions, instantiated at marked positions only
        d.assume(every).assume(sdef).assume(validity(lambda p: [trig(p, k)]))
        d.frames[ctx.chain[-1]][names[2]] = succ
        d.heap[d.yields] = CellColl("list", Coll([Branch([p], Yf(p), PathV(p))], "iter", nodup=True))
        yield from eng.ex(s.orelse, d, ctx)


def register(reg):
    reg.hooks["_dfs_search_paths"] = dfs_hook


L.EXTRA["succfn"] = succ_call
