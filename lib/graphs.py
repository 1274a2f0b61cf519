"""Reference graph theory, written independently of causy (plain sets of pairs).

A DAG / mixed graph over nodes 0..n-1 is a frozenset of ordered pairs; an
undirected edge is present in both directions.
"""
import itertools
from functools import lru_cache


def pairs(n):
    return list(itertools.combinations(range(n), 2))


def is_acyclic(n, arcs):
    indeg = [0] * n
    ch = [[] for _ in range(n)]
    for a, b in arcs:
        ch[a].append(b)
        indeg[b] += 1
    q = [i for i in range(n) if indeg[i] == 0]
    seen = 0
    while q:
        x = q.pop()
        seen += 1
        for y in ch[x]:
            indeg[y] -= 1
            if indeg[y] == 0:
                q.append(y)
    return seen == n


@lru_cache(None)
def all_dags(n):
    out = []
    ps = pairs(n)
    for st in itertools.product((0, 1, 2), repeat=len(ps)):
        arcs = frozenset((a, b) if s == 1 else (b, a) for (a, b), s in zip(ps, st) if s)
        if is_acyclic(n, arcs):
            out.append(arcs)
    return out


def all_mixed(n):
    """every graph with each pair absent, ->, <- or undirected"""
    ps = pairs(n)
    for st in itertools.product((0, 1, 2, 3), repeat=len(ps)):
        arcs = set()
        for (a, b), s in zip(ps, st):
            if s & 1:
                arcs.add((a, b))
            if s & 2:
                arcs.add((b, a))
        yield frozenset(arcs)


def skeleton(arcs):
    return frozenset((min(a, b), max(a, b)) for a, b in arcs)


def v_structures(n, arcs):
    sk = skeleton(arcs)
    out = set()
    for c in range(n):
        pa = sorted(a for a, b in arcs if b == c)
        for x, y in itertools.combinations(pa, 2):
            if (x, y) not in sk:
                out.add((x, c, y))
    return frozenset(out)


@lru_cache(None)
def _classes(n):
    cl = {}
    for d in all_dags(n):
        cl.setdefault((skeleton(d), v_structures(n, d)), []).append(d)
    return cl


@lru_cache(None)
def cpdag(n, dag):
    """union over the Markov equivalence class: an edge is undirected iff both
    directions occur in the class (Verma & Pearl / Andersson et al.)"""
    u = set()
    for d in _classes(n)[(skeleton(dag), v_structures(n, dag))]:
        u |= d
    return frozenset(u)


def equivalence_class(n, dag):
    return _classes(n)[(skeleton(dag), v_structures(n, dag))]


def cpdag_classes(n):
    """(cpdag, one member) for every Markov equivalence class"""
    return [(cpdag(n, ms[0]), ms[0]) for ms in _classes(n).values()]


# larger graphs with few edges: what depends on distance, not on density
FAMILIES = {
    "path": (7, ((0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6))),
    "cycle": (6, ((0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (0, 5))),
    "tree": (7, ((0, 1), (1, 2), (1, 3), (3, 4), (4, 5), (5, 6))),
    "ladder": (6, ((0, 1), (1, 2), (3, 4), (4, 5), (0, 3), (1, 4), (2, 5))),
}
LABELS = {7: [(0, 1, 2, 3, 4, 5, 6), (3, 6, 0, 5, 2, 4, 1)], 6: [(0, 1, 2, 3, 4, 5), (3, 0, 5, 1, 4, 2)]}


def family_graphs(name, label, states):
    """(n, arcs) for every assignment of states ('>', '<', '-') to the edges of the skeleton"""
    n, es = FAMILIES[name]
    perm = LABELS[n][label]
    for st in itertools.product(states, repeat=len(es)):
        arcs = set()
        for (a, b), s in zip(es, st):
            a, b = perm[a], perm[b]
            if s in ">-":
                arcs.add((a, b))
            if s in "<-":
                arcs.add((b, a))
        yield n, frozenset(arcs)


def family_dags(name, label=0):
    return [(n, a) for n, a in family_graphs(name, label, "><") if is_acyclic(n, a)]


def family_classes(name, label=0):
    """n, [(cpdag, members)] of all Markov equivalence classes with this skeleton"""
    cl = {}
    for n, a in family_dags(name, label):
        cl.setdefault(v_structures(n, a), []).append(a)
    return FAMILIES[name][0], [(frozenset().union(*ms), ms) for ms in cl.values()]


def ancestors(n, arcs, s):
    s = set(s)
    ch = True
    while ch:
        ch = False
        for a, b in arcs:
            if b in s and a not in s:
                s.add(a)
                ch = True
    return s


def descendants(arcs, x):
    s = {x}
    ch = True
    while ch:
        ch = False
        for a, b in arcs:
            if a in s and b not in s:
                s.add(b)
                ch = True
    return s


def dsep(n, arcs, x, y, z):
    """d-separation by moralisation of the ancestral graph"""
    anc = ancestors(n, arcs, {x, y} | set(z))
    sub = [(a, b) for a, b in arcs if a in anc and b in anc]
    und = {i: set() for i in anc}
    for a, b in sub:
        und[a].add(b)
        und[b].add(a)
    for c in anc:
        pa = [a for a, b in sub if b == c]
        for p, q in itertools.combinations(pa, 2):
            und[p].add(q)
            und[q].add(p)
    seen, st = {x}, [x]
    while st:
        w = st.pop()
        for v in und[w]:
            if v in z or v in seen:
                continue
            if v == y:
                return False
            seen.add(v)
            st.append(v)
    return True


def dsep_bayes_ball(n, arcs, x, y, z):
    """second, independent oracle: reachability over (node, direction)"""
    z = set(z)
    anc = ancestors(n, arcs, z)
    pa = {i: [a for a, b in arcs if b == i] for i in range(n)}
    ch = {i: [b for a, b in arcs if a == i] for i in range(n)}
    st, seen = [(x, "up")], set()
    while st:
        v, d = st.pop()
        if (v, d) in seen:
            continue
        seen.add((v, d))
        if v == y:
            return False
        if d == "up":
            if v not in z:
                st += [(p, "up") for p in pa[v]] + [(c, "down") for c in ch[v]]
        else:
            if v not in z:
                st += [(c, "down") for c in ch[v]]
            if v in anc:
                st += [(p, "up") for p in pa[v]]
    return True


def subsets(it):
    it = list(it)
    for r in range(len(it) + 1):
        yield from itertools.combinations(it, r)


# ---------------------------------------------------------------- exact data

def hadamard_columns(k):
    """k mutually orthogonal, zero-mean +-1 columns of the smallest length 2^m"""
    m = 1
    while (1 << m) - 1 < k:
        m += 1
    rows = 1 << m
    return [[(-1) ** bin(i & j).count("1") for i in range(rows)] for j in range(1, k + 1)]


WEIGHT_SETS = [
    (1.0, 1.0),
    (1.0, -1.0),
    (0.8, 1.1, -0.9),
    (0.7, -1.2, 1.05, 0.9),
    (1.3, 0.75, -1.1, 0.95, -0.85),
    (-0.9, 1.25, 0.8, 1.1, 0.7, -1.15),
    (0.6, 0.9, 1.2, -0.75, 1.4, -1.05, 0.85),
    (1.5, -0.65, 0.95, 1.15, -1.3, 0.55, 1.25),
]


def covariance(n, dag, w):
    import numpy as np

    b = np.zeros((n, n))
    for (a, c), x in w.items():
        b[c, a] = x
    m = np.linalg.inv(np.eye(n) - b)
    return m @ m.T


def partial_corr(cov, x, y, z):
    import numpy as np

    idx = [x, y] + list(z)
    p = np.linalg.inv(cov[np.ix_(idx, idx)])
    return -p[0, 1] / (p[0, 0] * p[1, 1]) ** 0.5


def faithful_weights(n, dag):
    """deterministic choice of edge weights for which every d-connected triple has
    a partial correlation bounded away from 0; returns (weights, bound)"""
    arcs = sorted(dag)
    best = None
    for ws in WEIGHT_SETS:
        for off in range(len(ws)):
            w = {a: ws[(i + off) % len(ws)] for i, a in enumerate(arcs)}
            cov = covariance(n, dag, w)
            lo = 1.0
            for x, y in pairs(n):
                rest = [i for i in range(n) if i not in (x, y)]
                for z in subsets(rest):
                    if not dsep(n, dag, x, y, z):
                        lo = min(lo, abs(partial_corr(cov, x, y, z)))
                        if best and lo <= best[1]:
                            break
                if best and lo <= best[1]:
                    break
            if best is None or lo > best[1]:
                best = (w, lo)
        if best[1] > 0.15:
            break
    return best


def exact_data(n, dag, w, rows):
    """columns (lists of floats) whose SAMPLE covariance is exactly that of the
    linear model: noises are orthogonal zero-mean +-1 columns"""
    had = hadamard_columns(n)
    base = len(had[0])
    rep = (rows + base - 1) // base
    val = {}
    order = []
    left = set(range(n))
    while left:
        for x in sorted(left):
            if all(a not in left for a, b in dag if b == x):
                order.append(x)
                left.discard(x)
                break
    for x in order:
        col = [float(v) for v in had[x]]
        for a, b in dag:
            if b == x:
                col = [c + w[(a, b)] * p for c, p in zip(col, val[a])]
        val[x] = col
    return [val[i] * rep for i in range(n)]


def relabel(arcs, perm):
    return frozenset((perm[a], perm[b]) for a, b in arcs)


@lru_cache(None)
def iso_classes(n):
    """one DAG per isomorphism class, with the lexicographically smallest arcs"""
    seen, out = set(), []
    perms = list(itertools.permutations(range(n)))
    for d in all_dags(n):
        if d in seen:
            continue
        out.append(d)
        for p in perms:
            seen.add(relabel(d, p))
    return out


def to_item(arcs):
    return sorted([a, b] for a, b in arcs)


def from_item(item):
    return frozenset((a, b) for a, b in item)


def long_dags(sizes=(9, 12)):
    """sparse graphs on many nodes: what depends on long distances or many steps"""
    for n in sizes:
        yield n, frozenset((i, i + 1) for i in range(n - 1))
        yield n, frozenset({(0, 2), (1, 2)} | {(i, i + 1) for i in range(2, n - 1)})
        yield n, frozenset((i, i + 1) if i % 2 else (i + 1, i) for i in range(n - 1))
        yield n, frozenset((i, i + 1) if i < n // 2 else (i + 1, i) for i in range(n - 1))
        yield n, frozenset({(0, i) for i in range(1, n - 1)} | {(n - 1, n - 2)})
        yield n, frozenset((i, n - 1) for i in range(n - 1))


def long_relabel(n, arcs, label):
    perm = [range(n), range(n - 1, -1, -1), sorted(range(n), key=lambda i: (i * 5 + 3) % n if n % 5 else (i * 7 + 3) % n)][label]
    return relabel(arcs, tuple(perm))
