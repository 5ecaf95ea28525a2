"""Proofs of the lemmas the other contracts use.

A lemma is an axiom of the vocabulary that is not a definition.  Its proof is a list of facts, each proved from the
definitions, the lemmas proved before it and the earlier facts of the list; the last obligation is the lemma itself, word for
word.  Induction over the natural numbers and over the steps of a reduction are the two schemas used."""
import z3
from pyvc import logic
from pyvc.logic import *
from pyvc.lib import CompOf, Quot, RTb, firsts, lastp, qhead, qinv, qtail
from .analyze import Red, ROLES, req, reqE
from .paths import FORK, mot, prevp, pwit
from .patterns import childless, forki

FA = z3.ForAll
e, f, g = z3.Consts("e f g", REL)
a, b, c, x, y = z3.Consts("a b c x y", U)
p, q, r = z3.Consts("p q r", P)
i, j, k = z3.Ints("i j k")
n0, n1 = z3.IntVal(0), z3.IntVal(1)
hint = z3.Function("hint", U, B)
tail = z3.Function("tail", P, P)
joined = z3.Function("joined", P, P, P)
rtpath = z3.Function("rtpath", REL, U, U, P)
R = [z3.Const(n, s) for n, s in zip(("kd", "da", "ku", "ua"), ROLES)]
kd = R[0]
And_, Imp_, MP = z3.And, z3.Implies, z3.MultiPattern


def definitions():
    """descendants are the ends of directed paths with at least one edge; an acyclic graph has no node that is its own
    descendant; two sequences can be joined at a common element; prevp is the previous element"""
    w, t = rtpath(e, x, y), joined(p, q)
    return [FA([e, x, y], Imp_(RT(e, x, y), And_(DirPath(e, w, x, y), plen(w) >= 2)), patterns=[RT(e, x, y)]),
            FA([e, p, x, y], Imp_(And_(DirPath(e, p, x, y), plen(p) >= 2), RT(e, x, y)), patterns=[DirPath(e, p, x, y)]),
            FA([e], Acyc(e) == FA([x], z3.Not(RT(e, x, x)), patterns=[RT(e, x, x)]), patterns=[Acyc(e)]),
            FA([p, q], Imp_(And_(plen(p) >= 1, plen(q) >= 1), plen(t) == plen(p) + plen(q) - 1), patterns=[t]),
            FA([p, q, i], Imp_(And_(plen(q) >= 1, 0 <= i, i < plen(p)), at(t, i) == at(p, i)), patterns=[at(t, i), MP(t, at(p, i))]),
            FA([p, q, i], Imp_(And_(plen(p) >= 1, plen(q) >= 1, at(p, plen(p) - 1) == at(q, n0), 0 <= i, i < plen(q)), at(t, i + plen(p) - 1) == at(q, i)), patterns=[MP(t, at(q, i))]),
            FA([p, i], prevp(p, i) == at(p, i - 1), patterns=[prevp(p, i)]),
            FA([p], Imp_(plen(p) >= 1, plen(tail(p)) == plen(p) - 1), patterns=[tail(p)]),
            FA([p, i], Imp_(And_(0 <= i, i + 1 < plen(p)), at(tail(p), i) == at(p, i + 1)), patterns=[at(tail(p), i), MP(tail(p), at(p, i + 1))]),
            FA([x], hint(x), patterns=[hint(x)])]


def chosen(vs, c, P, term, pattern):
    """term is some c with P(c), if there is one (a choice function)"""
    return FA([*vs, c], Imp_(P(c), P(term)), patterns=[z3.MultiPattern(*pattern)] if isinstance(pattern, list) else [pattern])


class Induction:
    """forall vs, k >= lo: Q(k), by a base case and a step"""
    def __init__(self, label, vs, lo, Q, patterns, using=None):
        self.label, self.using = label, using
        self.parts = [(f"{label} (base)", FA(vs, Q(lo)) if vs else Q(lo)),
                      (f"{label} (step)", FA([*vs, k], Imp_(And_(k >= lo, Q(k)), Q(k + 1))))]
        self.fact = FA([*vs, k], Imp_(k >= lo, Q(k)), patterns=patterns(k))


class Reductions:
    """Red(e, f) implies Q(e, f), by induction over the links removed"""
    def __init__(self, label, Q, patterns):
        self.label, self.using = label, None
        step = FA([a, b], And_(Imp_(edge(g, a, b), edge(f, a, b)), Imp_(And_(edge(f, a, b), z3.Not(edge(g, a, b))), And_(mem(kd, b), z3.Not(req(f, b, a, *R))))),
                  patterns=[edge(g, a, b), edge(f, a, b)])
        self.parts = [(f"{label} (nothing removed)", FA([e, *R], Q(e, e))), (f"{label} (links removed)", FA([e, f, g, *R], Imp_(And_(Q(e, f), step), Q(e, g))))]
        self.fact = FA([e, f, *R], Imp_(Red(e, f, *R), Q(e, f)), patterns=[Red(e, f, *R)])


HINTED = [FA([p, i], trig(p, i), patterns=[trig(p, i)]), FA([x], hint(x), patterns=[hint(x)])]


def proof(name, *facts, choice=()):
    def steps():
        hyp = definitions() + list(choice)
        out, named = [], {f"choice {n}": c for n, c in enumerate(choice)}
        for fact in facts:
            if isinstance(fact, tuple):     # (name, statement[, names of the earlier facts it follows from])
                bare = len(fact) == 3       # from those facts alone
                out.append((fact[0], HINTED + [named[n] for n in fact[2]] if bare else list(hyp), fact[1], bare))
                named[fact[0]] = fact[1]
                hyp.append(fact[1])
            else:
                out += [(l, list(hyp) if fact.using is None else HINTED + [named[n] for n in fact.using], o, fact.using is not None) for l, o in fact.parts]
                named[fact.label] = fact.fact
                hyp.append(fact.fact)
        for ax in logic.LEMMAS[name].axioms:
            out.append(("conclusion", list(hyp), ax.f, False))
        return out
    lemma(name, steps)


def T(t, *idx):
    """hints: terms for the solver (hint and trig are always true)"""
    return [h for v in idx for h in (trig(t, v), hint(at(t, v)))]


def register(reg):
    if logic.LEMMAS:
        return
    t = snoc(sing(x), y)
    proof("an edge leads to a descendant", ("two nodes", FA([x, y], And_(plen(t) == 2, at(t, n0) == x, at(t, n1) == y), patterns=[t])),
          ("a path", FA([e, x, y], Imp_(edge(e, x, y), DirPath(e, t, x, y)), patterns=[MP(edge(e, x, y), t)])),
          ("a descendant", FA([e, x, y], Imp_(And_(edge(e, x, y), plen(t) == 2), RT(e, x, y)), patterns=[edge(e, x, y)])))
    t = joined(p, q)
    both = And_(DirPath(e, p, x, y), DirPath(e, q, y, c), plen(p) >= 1, plen(q) >= 1)
    join = [("the first part", FA([e, p, q, x, y, c, i], Imp_(And_(both, 0 <= i, i + 1 < plen(p), *T(p, i, i + 1)), edge(e, at(t, i), at(t, i + 1))))),
            ("the second part", FA([e, p, q, x, y, c, i, j], Imp_(And_(both, 0 <= i, i + 1 < plen(q), j == i + plen(p) - 1, *T(q, i, i + 1)), edge(e, at(t, j), at(t, j + 1))))),
            ("the ends", FA([e, p, q, x, y, c], Imp_(both, And_(plen(t) == plen(p) + plen(q) - 1, at(t, n0) == x, at(t, plen(t) - 1) == c)))),
            ]
    o = i - plen(p) + 1
    joinall = join + [("every edge", FA([e, p, q, x, y, c, i, j], Imp_(And_(both, 0 <= i, j == i + 1, j < plen(t), *T(p, i, j), *T(q, o, o + 1)), edge(e, at(t, i), at(t, j))),
                                        patterns=[MP(DirPath(e, p, x, y), DirPath(e, q, y, c), at(t, i), at(t, j))])),
                      ("joined", FA([e, p, q, x, y, c], Imp_(both, DirPath(e, t, x, c)), patterns=[MP(DirPath(e, p, x, y), DirPath(e, q, y, c))]))]
    proof("descent is transitive", *joinall)
    proof("definition of an acyclic graph")
    proof("an acyclic graph has no cycle of two edges", ("descendants", FA([e, x, y], Imp_(And_(edge(e, x, y), edge(e, y, x), z3.Or(RT(e, x, y), RT(e, y, x), True)), RT(e, x, x)),
                                                                         patterns=[MP(edge(e, x, y), edge(e, y, x))])))
    n = plen(p)
    m = pre(p, n - 1)
    path = And_(DirPath(e, p, x, y), n >= 2)
    s = tail(p)
    proof("a descendant has an incoming edge",
          ("the last edge", FA([e, p, x, y], Imp_(And_(path, *T(p, n - 1, n - 2)), edge(e, at(p, n - 2), y)), patterns=[DirPath(e, p, x, y)])),
          ("all but the last edge", FA([e, p, x, y, i], Imp_(And_(path, 0 <= i, i + 1 < n - 1, *T(m, i, i + 1)), edge(e, at(m, i), at(m, i + 1))), patterns=[MP(DirPath(e, p, x, y), at(m, i))])),
          ("its ends", FA([e, p, x, y], Imp_(path, And_(plen(m) == n - 1, at(m, n0) == x, at(m, n - 2) == at(p, n - 2))), patterns=[DirPath(e, p, x, y)])),
          ("a shorter path", FA([e, p, x, y], Imp_(And_(path, *T(m, n0)), DirPath(e, m, x, at(p, n - 2))), patterns=[DirPath(e, p, x, y)])),
          ("by the last edge", FA([e, x, y], Imp_(RT(e, x, y), z3.Exists([c], And_(edge(e, c, y), z3.Or(c == x, RTb(e, x, c))))), patterns=[RT(e, x, y)])),
          choice=[chosen([e, x, y], c, lambda c: And_(edge(e, c, y), z3.Or(c == x, RTb(e, x, c))), lastp(e, x, y), [RT(e, x, y), edge(e, c, y)])])
    proof("an ancestor has an outgoing edge",
          ("the first edge", FA([e, p, x, y], Imp_(And_(path, *T(p, n0, n1)), edge(e, x, at(p, n1))), patterns=[DirPath(e, p, x, y)])),
          ("all but the first edge", FA([e, p, x, y, i, j], Imp_(And_(path, 0 <= i, j == i + 1, j < n - 1, *T(p, i + 1, i + 2)), edge(e, at(s, i), at(s, j))), patterns=[MP(DirPath(e, p, x, y), at(s, i), at(s, j))])),
          ("its ends", FA([e, p, x, y], Imp_(And_(path, *T(p, n1)), And_(plen(s) == n - 1, at(s, n0) == at(p, n1), at(s, n - 2) == y)), patterns=[DirPath(e, p, x, y)])),
          ("a shorter path", FA([e, p, x, y], Imp_(And_(path, *T(s, n0)), DirPath(e, s, at(p, n1), y)), patterns=[DirPath(e, p, x, y)])),
          ("by the first edge", FA([e, x, y], Imp_(RT(e, x, y), z3.Exists([c], And_(edge(e, x, c), z3.Or(c == y, RTb(e, c, y))))), patterns=[RT(e, x, y)])),
          choice=[chosen([e, x, y], c, lambda c: And_(edge(e, x, c), z3.Or(c == y, RTb(e, c, y))), firsts(e, x, y), [RT(e, x, y), edge(e, x, c)])])
    down = DirPath(e, p, a, b)
    proof("nodes on a directed path are descendants of its start and ancestors of its end",
          ("edges descend", FA([e, x, y], Imp_(edge(e, x, y), RT(e, x, y)), patterns=[edge(e, x, y)])),
          Induction("descendants", [e, p, a, b], 1, lambda k: Imp_(And_(down, k < plen(p), *T(p, k - 1, k, k + 1)), RT(e, a, at(p, k))), lambda k: [MP(DirPath(e, p, a, b), at(p, k))]),
          Induction("ancestors", [e, p, a, b], 1, lambda k: Imp_(And_(down, k < plen(p), *T(p, plen(p) - 1 - k, plen(p) - k)), RT(e, at(p, plen(p) - 1 - k), b)), lambda k: [MP(DirPath(e, p, a, b), trig(p, k))]),
          ("in terms of the position", FA([e, p, a, b, i], Imp_(And_(down, 0 <= i, i < plen(p) - 1, *T(p, plen(p) - 1 - i)), RT(e, at(p, i), b)), patterns=[MP(DirPath(e, p, a, b), at(p, i))])))
    w = joined(rtpath(e, a, x), rtpath(e, x, b))
    reach = lambda u, v: z3.Or(u == v, RT(e, u, v))
    through = lambda q, a, x, b: And_(DirPath(e, q, a, b), 0 <= idx(q, x), idx(q, x) < plen(q), at(q, idx(q, x)) == x)
    here = lambda q, a, x, b, i: And_(DirPath(e, q, a, b), 0 <= i, i < plen(q), at(q, i) == x)
    via = z3.Exists([q], through(q, a, x, b))
    proof("a descendant is reached along a directed path", *joinall,
          ("one node", FA([e, x], And_(plen(sing(x)) == 1, DirPath(e, sing(x), x, x)), patterns=[MP(sing(x), edge(e, x, x))])),
          ("found by position", FA([e, q, a, x, b, i], Imp_(here(q, a, x, b, i), through(q, a, x, b)), patterns=[MP(DirPath(e, q, a, b), at(q, i), idx(q, x))])),
          ("both parts", FA([e, a, x, b], Imp_(And_(RT(e, a, x), RT(e, x, b), *T(w, plen(rtpath(e, a, x)) - 1), *T(rtpath(e, x, b), n0), *T(rtpath(e, a, x), plen(rtpath(e, a, x)) - 1), idx(w, x) >= idx(w, x)), here(w, a, x, b, plen(rtpath(e, a, x)) - 1)),
                            patterns=[MP(RT(e, a, x), RT(e, x, b))])),
          ("the start", FA([e, a, b], Imp_(And_(RT(e, a, b), *T(rtpath(e, a, b), n0)), here(rtpath(e, a, b), a, a, b, n0)), patterns=[RT(e, a, b)])),
          ("the end", FA([e, a, b], Imp_(And_(RT(e, a, b), *T(rtpath(e, a, b), plen(rtpath(e, a, b)) - 1)), here(rtpath(e, a, b), a, b, b, plen(rtpath(e, a, b)) - 1)), patterns=[RT(e, a, b)])),
          ("the node alone", FA([e, a], Imp_(And_(*T(sing(a), n0)), here(sing(a), a, a, a, n0)))),
          *[(f"the path through the node ({l})", FA([e, a, x, b], Imp_(And_(h, *T(v, m), hint(at(v, idx(v, x))), plen(v) >= 1), through(pwit(e, a, x, b), a, x, b)), patterns=[pwit(e, a, x, b)]), ["both parts", "the start", "the end", "the node alone", "one node", "found by position", "choice 0"])
            for l, h, v, m in (("between", And_(RT(e, a, x), RT(e, x, b)), w, plen(rtpath(e, a, x)) - 1), ("at the start", And_(a == x, RT(e, x, b)), rtpath(e, a, b), n0),
                               ("at the end", And_(RT(e, a, x), x == b), rtpath(e, a, b), plen(rtpath(e, a, b)) - 1), ("alone", And_(a == x, x == b), sing(a), n0))],
          choice=[chosen([e, a, b, x], q, lambda q: through(q, a, x, b), pwit(e, a, x, b), [DirPath(e, q, a, b), pwit(e, a, x, b)])])
    und = UndPath(e, p, a, b)
    proof("every node of an undirected path but the first is adjacent to its predecessor",
          ("the predecessor", FA([e, p, a, b, i], Imp_(And_(und, 1 <= i, i < plen(p), *T(p, i - 1, i)), And_(prevp(p, i) == at(p, i - 1), z3.Or(edge(e, at(p, i), at(p, i - 1)), edge(e, at(p, i - 1), at(p, i))))), patterns=[MP(und, at(p, i))])))
    proof("a reduction only removes edges", Reductions("subset", lambda e, f: FA([a, b], Imp_(edge(f, a, b), edge(e, a, b)), patterns=[edge(f, a, b)]), None))
    proof("a reduction only removes information links", Reductions("links into decisions", lambda e, f: FA([a, b], Imp_(And_(edge(e, a, b), z3.Not(edge(f, a, b))), mem(kd, b)), patterns=[edge(f, a, b), edge(e, a, b)]), None))
    sub = lambda f, e: FA([a, b], Imp_(edge(f, a, b), edge(e, a, b)), patterns=[edge(f, a, b)])
    proof("a reduction is acyclic",
          ("a path in a subgraph is a path", FA([e, f, p, x, y], Imp_(And_(sub(f, e), DirPath(f, p, x, y)), DirPath(e, p, x, y)), patterns=[MP(DirPath(f, p, x, y), Acyc(e))])),
          ("a subgraph of an acyclic graph", FA([e, f], Imp_(And_(sub(f, e), Acyc(e)), Acyc(f)), patterns=[MP(Acyc(e), Acyc(f))])),
          ("a reduction is a subgraph", FA([e, f, *R], Imp_(Red(e, f, *R), sub(f, e)), patterns=[Red(e, f, *R)])))
    G = reqE(e, *R)
    least = [FA([e, *R], Red(e, G, *R), patterns=[G])]
    proof("the minimal reduction is acyclic", choice=least)
    proof("the minimal reduction only removes edges", choice=least)
    proof("the minimal reduction only removes information links", choice=least)
    kd_, s_ = z3.Consts("kd0 s0", SET)
    nofork = FA([i], Imp_(And_(1 <= i, i + 1 < plen(p)), mot(e, p, i) != FORK), patterns=[mot(e, p, i), at(p, i)])
    start = And_(UndPath(e, p, a, b), plen(p) >= 2, edge(e, at(p, n1), at(p, n0)), Acyc(e), nofork)
    proof("a backdoor path that ends in a childless node has a fork",
          Induction("every step goes backwards", [e, p, a, b], 1, lambda k: Imp_(And_(start, k < plen(p), *T(p, k - 1, k, k + 1), mot(e, p, k - 1) == mot(e, p, k - 1)), edge(e, at(p, k), at(p, k - 1))), lambda k: [MP(UndPath(e, p, a, b), at(p, k))]),
          choice=[chosen([e, p], i, lambda i: And_(1 <= i, i + 1 < plen(p), mot(e, p, i) == FORK), forki(e, p), [forki(e, p), mot(e, p, i)])])
    m, u, v = z3.Const("m", MAP), *z3.Consts("u v", U)
    Q = Quot(e, m)
    cls = lambda x: app(m, x)
    t, h = lambda x, y: qtail(e, m, x, y), lambda x, y: qhead(e, m, x, y)
    walk = And_(CompOf(e, m), DirPath(Q, p, x, y))
    cross = And_(CompOf(e, m), edge(Q, x, y))
    edges = [("an edge between components", FA([e, m, x, y], Imp_(cross, And_(x != y, cls(t(x, y)) == x, cls(h(x, y)) == y, edge(e, t(x, y), h(x, y)), RT(e, t(x, y), h(x, y)))), patterns=[MP(CompOf(e, m), edge(Q, x, y))])),
             ("an edge from a component, from any of its nodes", FA([e, m, x, y, u], Imp_(And_(cross, cls(u) == x), And_(RT(e, u, h(x, y)), cls(h(x, y)) == y)), patterns=[MP(CompOf(e, m), edge(Q, x, y), cls(u))])),
             ("every step of a path is an edge", FA([e, p, x, y, i, j], Imp_(And_(DirPath(e, p, x, y), 0 <= i, j == i + 1, j < plen(p), *T(p, i, j)), edge(e, at(p, i), at(p, j))), patterns=[MP(DirPath(e, p, x, y), at(p, i), at(p, j))])),
             ("its first node", FA([e, p, x, y], Imp_(DirPath(e, p, x, y), And_(at(p, n0) == x, plen(p) >= 1)), patterns=[DirPath(e, p, x, y)])),
             ("descent goes on", FA([e, u, c, v], Imp_(And_(RT(e, u, c), RT(e, c, v)), RT(e, u, v)), patterns=[MP(RT(e, u, c), RT(e, c, v))])),
             Induction("a path from a component", [e, m, p, x, y, u], 1,
                       lambda k: Imp_(And_(walk, k < plen(p), cls(u) == x, *T(p, k - 1, k, k + 1)), And_(RT(e, u, h(at(p, k - 1), at(p, k))), cls(h(at(p, k - 1), at(p, k))) == at(p, k))),
                       lambda k: [MP(DirPath(Q, p, x, y), trig(p, k), app(m, u))],
                       ["an edge from a component, from any of its nodes", "every step of a path is an edge", "its first node", "descent goes on"]),
             ("two nodes of a component", FA([e, m, u, v], Imp_(And_(CompOf(e, m), cls(u) == cls(v), u != v), RT(e, u, v)), patterns=[MP(CompOf(e, m), cls(u), cls(v))])),
             ("the last node of a path", FA([e, p, x, y], Imp_(And_(DirPath(e, p, x, y), plen(p) >= 2), at(p, plen(p) - 1) == y), patterns=[DirPath(e, p, x, y)])),
             ("a path to a node", FA([e, m, p, x, y, u], Imp_(And_(walk, plen(p) >= 2, cls(u) == x, *T(p, plen(p) - 1)), And_(RT(e, u, h(at(p, plen(p) - 2), y)), cls(h(at(p, plen(p) - 2), y)) == y)), patterns=[MP(DirPath(Q, p, x, y), app(m, u))]),
              ["the last node of a path", "a path from a component"]),
             ("down to a component", FA([e, m, u, c, v], Imp_(And_(CompOf(e, m), RT(e, u, c), cls(c) == cls(v)), RT(e, u, v)), patterns=[MP(CompOf(e, m), RT(e, u, c), cls(c), cls(v))])),
             ("a path between components", FA([e, m, p, x, y, u, v], Imp_(And_(walk, plen(p) >= 2, cls(u) == x, cls(v) == y, hint(h(at(p, plen(p) - 2), y))), RT(e, u, v)), patterns=[MP(DirPath(Q, p, x, y), app(m, u), app(m, v))]),
              ["a path to a node", "down to a component"]),
             ("descent between components", FA([e, m, x, y, u, v], Imp_(And_(CompOf(e, m), RT(Q, x, y), cls(u) == x, cls(v) == y), RT(e, u, v)), patterns=[MP(CompOf(e, m), RT(Q, x, y), app(m, u), app(m, v))]))]
    proof("descent between components is descent between their nodes", *edges)
    quot = [x_ for x_ in edges if isinstance(x_, tuple) and x_[0] in ("every step of a path is an edge", "its first node", "the last node of a path")]
    proof("descent between nodes is descent between their components", *quot,
          ("an edge leads on", FA([e, m, u, v], Imp_(And_(edge(e, u, v), cls(u) != cls(v), edge(Q, cls(u), cls(v)) == edge(Q, cls(u), cls(v)), RT(Q, cls(u), cls(v)) == RT(Q, cls(u), cls(v))), RT(Q, cls(u), cls(v))), patterns=[MP(Q, edge(e, u, v))])),
          ("descent goes on", FA([e, u, c, v], Imp_(And_(RT(e, u, c), RT(e, c, v)), RT(e, u, v)), patterns=[MP(RT(e, u, c), RT(e, c, v))])),
          Induction("a path of nodes", [e, m, p, x, y], 0,
                    lambda k: Imp_(And_(DirPath(e, p, x, y), k < plen(p), Q == Q, *T(p, k - 1, k, k + 1)), z3.Or(cls(x) == cls(at(p, k)), RT(Q, cls(x), cls(at(p, k))))),
                    lambda k: [MP(DirPath(e, p, x, y), trig(p, k), Q)],
                    ["every step of a path is an edge", "its first node", "descent goes on", "an edge leads on"]),
          ("a path of nodes to its end", FA([e, m, p, x, y], Imp_(And_(DirPath(e, p, x, y), plen(p) >= 2, *T(p, plen(p) - 1)), z3.Or(cls(x) == cls(y), RT(Q, cls(x), cls(y)))), patterns=[MP(DirPath(e, p, x, y), Q)]),
           ["the last node of a path", "a path of nodes"]))
    proof("only components are connected",
          choice=[chosen([e, m, i_], x, lambda x: cls(x) == i_, qinv(e, m, i_), [qinv(e, m, i_), cls(x)]) for i_ in (y,)])
    proof("the components form an acyclic graph", ("no component reaches itself", FA([e, m, x], Imp_(And_(CompOf(e, m), RT(Q, x, x)), cls(qinv(e, m, x)) != cls(qinv(e, m, x))), patterns=[MP(CompOf(e, m), RT(Q, x, x))])))
