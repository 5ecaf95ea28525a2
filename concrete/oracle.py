"""Independent, brute-force definitions of everything the properties talk about.

Nothing in this file is taken from the code under test: graphs are plain
(nodes, edges) pairs, probabilities are computed by enumerating the joint.
"""
import itertools


# ---------------------------------------------------------------- graphs
def parents(E, n):
    return {a for a, b in E if b == n}


def children(E, n):
    return {b for a, b in E if a == n}


def descendants(E, n):
    """proper descendants"""
    ch = {}
    for a, b in E:
        ch.setdefault(a, []).append(b)
    seen, stack = set(), list(ch.get(n, []))
    while stack:
        x = stack.pop()
        if x not in seen:
            seen.add(x)
            stack.extend(ch.get(x, []))
    return seen


def ancestors_refl(E, ns):
    pa = {}
    for a, b in E:
        pa.setdefault(b, []).append(a)
    seen, stack = set(), list(ns)
    while stack:
        x = stack.pop()
        if x not in seen:
            seen.add(x)
            stack.extend(pa.get(x, []))
    return seen


def is_acyclic(V, E):
    return all(n not in descendants(E, n) for n in V)


def dir_paths(E, s, t):
    """all directed paths s -> t of a DAG (the trivial one when s == t)"""
    if s == t:
        return [(s,)]
    out = []
    for c in sorted(children(E, s)):
        for p in dir_paths(E, c, t):
            out.append((s,) + p)
    return out


def undir_paths(E, s, t):
    """all simple undirected paths s - t"""
    out = []

    def go(path):
        if path[-1] == t:
            out.append(tuple(path))
            return
        for n in sorted((children(E, path[-1]) | parents(E, path[-1])) - set(path)):
            go(path + [n])

    go([s])
    return out


def motif(E, path, i):
    a, b, c = path[i - 1], path[i], path[i + 1]
    into = (a, b) in E
    out = (b, c) in E
    if into and out:
        return "forward"
    if into:
        return "collider"
    if out:
        return "fork"
    return "backward"


def path_active(E, path, obs):
    """interior nodes only: the definition of an active (undirected) path"""
    for i in range(1, len(path) - 1):
        m = motif(E, path, i)
        if m == "collider":
            if not (({path[i]} | descendants(E, path[i])) & obs):
                return False
        elif path[i] in obs:
            return False
    return True


def dconnected(E, x, y, obs):
    """d-connection as pgmpy defines it: an active path exists and neither end is observed"""
    if x in obs or y in obs:
        return False
    # reachability over (node, direction), from first principles
    anc = ancestors_refl(E, obs)
    seen, stack = set(), [(x, "up")]
    while stack:
        n, d = stack.pop()
        if (n, d) in seen:
            continue
        seen.add((n, d))
        if d == "up" and n not in obs:
            stack += [(p, "up") for p in parents(E, n)] + [(c, "down") for c in children(E, n)]
        elif d == "down":
            if n not in obs:
                stack += [(c, "down") for c in children(E, n)]
            if n in anc:
                stack += [(p, "up") for p in parents(E, n)]
    return any(n == y for n, _ in seen)


def dconnected_def(E, x, y, obs):
    """same thing through explicit path enumeration (cross-check of the above)"""
    if x in obs or y in obs:
        return False
    return any(path_active(E, p, obs) for p in undir_paths(E, x, y))


# ---------------------------------------------------------------- influence diagrams
class D:
    """V: list of nodes, E: list of edges, dec: {agent: [nodes]}, util: {agent: [nodes]}"""

    def __init__(self, V, E, dec, util):
        self.V, self.E, self.dec, self.util = list(V), list(E), dec, util
        self.owner = {d: a for a, ds in dec.items() for d in ds}
        self.uowner = {u: a for a, us in util.items() for u in us}

    def with_edges(self, E):
        return D(self.V, E, self.dec, self.util)

    def my_desc_utils(self, d):
        return set(self.util.get(self.owner[d], [])) & descendants(self.E, d)


def mech_edges(g):
    return list(g.E) + [(("mec", v), v) for v in g.V]


def r_reachable(g, d, n):
    obs = {d} | parents(g.E, d)
    return any(dconnected(mech_edges(g), ("mec", n), u, obs) for u in g.my_desc_utils(d))


def relevance_edges(g, decs):
    return {(a, b) for a in decs for b in decs if a != b and r_reachable(g, a, b)}


def sufficient_recall(g, agents):
    return all(is_acyclic(g.dec.get(a, []), relevance_edges(g, g.dec.get(a, []))) for a in agents)


def requisite(g, d, n):
    obs = ({d} | parents(g.E, d)) - {n}
    return any(dconnected(g.E, n, u, obs) for u in g.my_desc_utils(d))


def minimal_reduction(g, rng=None):
    """repeatedly remove non-requisite observation links until none is left"""
    E = set(g.E)
    while True:
        h = g.with_edges(E)
        bad = sorted((n, d) for d in g.owner for n in parents(E, d) if not requisite(h, d, n))
        if not bad:
            return E
        E.discard(rng.choice(bad) if rng else bad[0])


def all_dags(names):
    names = list(names)
    pairs = [(names[i], names[j]) for i in range(len(names)) for j in range(i + 1, len(names))]
    for bits in itertools.product((0, 1), repeat=len(pairs)):
        yield [p for p, b in zip(pairs, bits) if b]


def all_topological_orders(V, E, nodes):
    def go(rest, acc):
        if not rest:
            yield list(acc)
            return
        for x in sorted(rest):
            if not (ancestors_refl(E, [x]) - {x}) & rest:
                yield from go(rest - {x}, acc + [x])

    yield from go(set(nodes), [])
