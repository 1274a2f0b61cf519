"""Building and reading causy graphs."""
import itertools

import causy.graph as _g
from causy.edge_types import DirectedEdge, UndirectedEdge

MODES = ("direct", "soft", "purged", "reversed")


def ident(i):
    return "v%d" % i


def build(n, arcs, mode="direct", values=None, manager=None):
    """a GraphManager holding exactly `arcs` (undirected = both directions).

    direct:   edges are added one by one
    reversed: as direct, in the opposite order and with the nodes added backwards
    soft:     start from the complete undirected graph and soft-delete directions
    purged:   as soft, then purge the soft-deleted edges
    """
    m = manager or _g.GraphManager()
    order = range(n) if mode != "reversed" else range(n - 1, -1, -1)
    if not m.nodes:
        for i in order:
            # names are labels: the name of a node is the id of another one
            m.add_node(ident((i + 1) % n), values[i] if values else [1.0, 2.0], id_=ident(i))
    nd = m.nodes
    arcs = set(arcs)
    if mode in ("direct", "reversed"):
        ps = sorted(itertools.combinations(range(n), 2), reverse=mode == "reversed")
        for a, b in ps:
            if (a, b) in arcs and (b, a) in arcs:
                m.add_edge(nd[ident(a)], nd[ident(b)], {})
            elif (a, b) in arcs:
                m.add_directed_edge(nd[ident(a)], nd[ident(b)], {})
            elif (b, a) in arcs:
                m.add_directed_edge(nd[ident(b)], nd[ident(a)], {})
        return m
    for a, b in itertools.combinations(range(n), 2):
        u, v = nd[ident(a)], nd[ident(b)]
        m.add_edge(u, v, {})
        f, r = (a, b) in arcs, (b, a) in arcs
        if f and not r:
            m.remove_directed_edge(v, u, soft_delete=True)
            m.update_directed_edge(u, v, edge_type=DirectedEdge())
        elif r and not f:
            m.remove_directed_edge(u, v, soft_delete=True)
            m.update_directed_edge(v, u, edge_type=DirectedEdge())
        elif not f and not r:
            m.remove_edge(u, v, soft_delete=True)
    if mode == "purged":
        m.purge_soft_deleted_edges()
    return m


def arcs_of(m, n=None, index=None):
    """set of (i, j) for the existing directions, through public queries"""
    ids = list(m.nodes)
    ix = index or {ident(i): i for i in range(len(ids))}
    return frozenset(
        (ix[u], ix[v]) for u, v in itertools.permutations(ids, 2) if m.directed_edge_exists(u, v)
    )


def types_of(m, index=None):
    ids = list(m.nodes)
    ix = index or {ident(i): i for i in range(len(ids))}
    return {
        (ix[u], ix[v]): m.edge_type(u, v).name
        for u, v in itertools.permutations(ids, 2)
        if m.directed_edge_exists(u, v)
    }
