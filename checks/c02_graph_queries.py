"""C02: path and relationship queries are exact on every graph."""
import itertools

from lib import cg
from lib import graphs as G

import causy.graph_model  # noqa: F401  (installs the graph access mixins)
from causy.causal_discovery.constraint.algorithms.pc import PC  # noqa: F401
from causy.graph import Graph, GraphManager

PROPERTY = "C02"
LEVEL = "model_checking"
ASSUMPTIONS = ["graphs with up to 4 nodes; each graph built in 4 ways (added, added backwards, soft-deleted, purged)"]
BOUNDS = {
    "quick": "all mixed graphs with 2 and 3 nodes, all 4096 with 4 nodes (4 constructions); all orientations of a path and a tree with 7 and a cycle and a ladder with 6 nodes; 12 chains, zigzags, stars and fans with 9 and 12 nodes in 3 orders; every pair of nodes",
    "thorough": "as quick, plus all DAGs with 5 nodes and all their query pairs",
}


def simple_paths(adj, u, v):
    out = []

    def rec(x, path):
        if x == v:
            out.append(tuple(path))
            return
        for y in adj[x]:
            if y not in path:
                rec(y, path + [y])

    rec(u, [u])
    return sorted(out)


def one(sh, n, arcs, mode):
    m = cg.build(n, arcs, mode)
    I = cg.ident
    fwd = {x: [b for a, b in arcs if a == x] for x in range(n)}
    und = {x: sorted({b for a, b in arcs if a == x} | {a for a, b in arcs if b == x}) for x in range(n)}
    strict = frozenset((a, b) for a, b in arcs if (b, a) not in arcs)
    ix = {I(i): i for i in range(n)}

    def chk(cond, what, **d):
        sh.check(cond, what, key="%s n=%d arcs=%r mode=%s" % (what, n, sorted(arcs), mode), arcs=sorted(arcs), mode=mode, **d)

    for u, v in itertools.permutations(range(n), 2):
        sp = simple_paths(fwd, u, v)
        for a, b in ((I(u), I(v)), (m.nodes[I(u)], m.nodes[I(v)])):
            got = m.directed_path_exists(a, b)
            chk(bool(got) == bool(sp), "directed_path_exists", pair=[u, v], got=repr(got))
            ps = sorted(
                tuple(ix[x.id] for x in p) for p in m.all_paths_on_underlying_undirected_graph(a, b)
            )
            chk(ps == simple_paths(und, u, v), "all paths on the underlying undirected graph", pair=[u, v], got=ps)
            dp = sorted(
                tuple([ix[p[0][0].id]] + [ix[e[1].id] for e in p]) for p in m.graph.directed_paths(a, b)
            )
            chk(dp == sp, "directed_paths", pair=[u, v], got=dp, want=sp)
            chk(
                bool(m.graph.only_directed_edge_exists(a, b)) == ((u, v) in strict),
                "only_directed_edge_exists",
                pair=[u, v],
            )
    for u in range(n):
        for a in (I(u), m.nodes[I(u)]):
            de = sorted(ix[x.id] for x in m.descendants_of_node(a))
            chk(de == sorted(G.descendants(strict, u)), "descendants_of_node", node=u, got=de)
            pa = sorted(ix[x.id] for x in m.parents_of_node(a))
            chk(pa == sorted(x for x, y in arcs if y == u), "parents_of_node", node=u, got=pa)
            si = sorted(ix[getattr(x, "id", x)] for x in m.get_siblings(a))
            chk(si == sorted(x for x, y in arcs if y == u and (u, x) in arcs), "get_siblings", node=u, got=si)
    chk(cg.arcs_of(m) == arcs, "edges", got=sorted(cg.arcs_of(m)))
    sh.add(transitions=n * (n - 1) * 8 + 6 * n)


def graphs_part(sh, item):
    n = item["n"]
    for i, arcs in enumerate(G.all_mixed(n)):
        if i % item["of"] == item["k"]:
            for mode in cg.MODES:
                one(sh, n, arcs, mode)
                sh.add(traces_validated_against_impl=1)
            sh.add(states=1)
            sh.sample([n, sorted(arcs)])


def dags5(sh, item):
    for i, arcs in enumerate(G.all_dags(5)):
        if i % item["of"] == item["k"]:
            sh.add(states=1)
            one(sh, 5, arcs, cg.MODES[i % 4])
            sh.add(traces_validated_against_impl=1)


def family(sh, item):
    for i, (n, arcs) in enumerate(G.family_graphs(item["family"], item["label"], "><-")):
        if i % item["of"] == item["k"]:
            sh.add(states=1, traces_validated_against_impl=1)
            one(sh, n, arcs, cg.MODES[i // item["of"] % 4])


def long_part(sh, item):
    n, arcs = list(G.long_dags())[item["g"]]
    arcs = G.long_relabel(n, arcs, item["label"])
    for j, extra in enumerate((set(), {(b, a) for a, b in sorted(arcs)[::3]}, {(n - 1, 0)})):
        if any(a == b or (b, a) in arcs and extra == {(a, b)} for a, b in extra):
            continue
        sh.add(states=1, traces_validated_against_impl=1)
        one(sh, n, arcs | extra, cg.MODES[(item["g"] + j) % 4])


def run(ctx):
    ctx.explore(long_part, [{"g": g, "label": l} for g in range(12) for l in range(3)], name="long graphs", limit=300)
    ctx.explore(family, [{"family": f, "label": l, "k": k, "of": 9} for f in sorted(G.FAMILIES) for l in (0, 1) for k in range(9)], name="larger graphs", limit=300)
    ctx.explore(graphs_part, [{"n": n, "k": 0, "of": 1} for n in (2, 3)])
    ctx.explore(graphs_part, [{"n": 4, "k": k, "of": 64} for k in range(64)], limit=300)
    if ctx.thorough:
        G.all_dags(5)
        ctx.explore(dags5, [{"k": k, "of": 64} for k in range(64)], limit=1200)
