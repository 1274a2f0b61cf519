"""C14: the direct effect on a directed edge is the coefficient of the cause in
the regression of the effect on all its parents."""
import itertools

import numpy as np
import torch

from lib import cg
from lib import discovery as D
from lib import graphs as G

from causy.causal_effect_estimation.multivariate_regression import ComputeDirectEffectsInDAGsMultivariateRegression
from causy.edge_types import DirectedEdge, UndirectedEdge
from causy.graph_model import graph_model_factory
from causy.models import Algorithm

PROPERTY = "C14"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "values are claimed for directed edges into variables which have no undirected edge (otherwise the effect is not identified)",
    "oracle: ordinary least squares with intercept (normal equations, numpy), and the true weights where the data follow the DAG",
]
BOUNDS = {
    "quick": "all DAGs with <= 4 nodes x 4 units/offsets on exact linear data; all 4096 mixed graphs with 4 nodes on generic data; 302 5-node classes; 4 to 12 parents; effects after full PC runs for all 4-node DAGs",
    "thorough": "as quick, all 29281 5-node DAGs, and all mixed graphs in 4 constructions",
}

UNITS = [([1, 1, 1, 1, 1], [0, 0, 0, 0, 0]), ([2, 0.5, -3, 10, 1], [0, 5, -40, 1, 3]), ([1, 1, 1, 1, 1], [100, 100, 100, 100, 100]), ([0.01, 100, 1, -1, 5], [1, -1, 0, 2, 30])]

Model = graph_model_factory(
    Algorithm(name="effects", pipeline_steps=[ComputeDirectEffectsInDAGsMultivariateRegression()], edge_types=[DirectedEdge(), UndirectedEdge()], extensions=[])
)


def ols(cols, effect, parents):
    y = np.array(cols[effect], dtype=float)
    x = np.stack([np.array(cols[p], dtype=float) for p in parents] + [np.ones(len(y))], axis=1)
    q, *_ = np.linalg.lstsq(x, y, rcond=None)
    return {p: q[i] for i, p in enumerate(parents)}


def estimate(n, arcs, cols, mode="direct"):
    m = Model()
    m.create_graph_from_data({cg.ident(i): torch.tensor(cols[i], dtype=torch.float64) for i in range(n)})
    cg.build(n, arcs, mode, manager=m.graph)
    for k, (a, b) in enumerate(itertools.permutations(range(n), 2)):
        u, v = cg.ident(a), cg.ident(b)
        if m.graph.directed_edge_exists(u, v):
            m.graph.update_directed_edge(m.graph.nodes[u], m.graph.nodes[v], metadata={"tag": k})
    before = types(m)
    m.execute_pipeline_steps()
    return m, before


def types(m):
    return {k: t for k, t in cg.types_of(m.graph).items()}


def judge(sh, n, arcs, cols, truth, mode, label):
    m, before = estimate(n, arcs, cols, mode)
    g = m.graph
    key = "%s n=%d %r %s" % (label, n, sorted(arcs), mode)
    sh.add(traces_validated_against_impl=1, transitions=len(arcs))
    sh.check(types(m) == before, "the graph itself is unchanged", key="graph " + key, arcs=sorted(arcs))
    for k, (a, b) in enumerate(itertools.permutations(range(n), 2)):
        if (a, b) not in arcs:
            continue
        u, v = cg.ident(a), cg.ident(b)
        val = g.edge_value(u, v) or {}
        sh.check(val.get("tag") == k, "other edge data is kept", key="tag " + key, arcs=sorted(arcs), edge=[a, b], got=repr(val))
        if (b, a) in arcs:
            sh.check("direct_effect" not in val, "no effect on an undirected edge", key="undirected " + key, arcs=sorted(arcs), edge=[a, b], got=repr(val))
            continue
        if any((x, b) in arcs and (b, x) in arcs for x in range(n)):
            continue
        parents = [x for x in range(n) if (x, b) in arcs]
        want = ols(cols, b, parents)[a] if truth is None else truth[(a, b)]
        got = val.get("direct_effect")
        sh.check(
            isinstance(got, (int, float)) and abs(got - want) <= 1e-6 * max(1, abs(want)),
            "direct effect",
            key=key,
            arcs=sorted(arcs),
            edge=[a, b],
            got=repr(got),
            want=want,
        )
    have = sorted((u, v) for u, v in itertools.permutations(g.nodes, 2) if g.directed_edge_exists(u, v) and "direct_effect" in (g.edge_value(u, v) or {}))
    rep = sorted((a.u.id, a.v.id) for st in g.action_history for a in st.actions if getattr(a.action, "value", a.action) == "UPDATE_EDGE_DIRECTED" and "direct_effect" in (a.data or {}))
    sh.check(rep == have, "every effect is reported as an update of its edge", key="reported " + key, arcs=sorted(arcs), got=rep, want=have)


def transformed(cols, unit):
    s, o = unit
    return [[x * s[i] + o[i] for x in c] for i, c in enumerate(cols)]


def dags(sh, item):
    n = item["n"]
    ds = G.iso_classes(n) if item.get("iso") else G.all_dags(n)
    for i, dag in enumerate(ds):
        if i % item["of"] != item["k"]:
            continue
        cols, w = D.data(n, dag)
        cols = [c[:64] for c in cols]
        for q, unit in enumerate(UNITS):
            truth = {(a, b): x * unit[0][b] / unit[0][a] for (a, b), x in w.items()}
            judge(sh, n, dag, transformed(cols, unit), truth, cg.MODES[q], "dag unit %d" % q)
        sh.add(states=1)
        sh.sample([n, sorted(dag)])


GENERIC = [
    [1, 4, 2, 8, 5, 7, 1, 3, 9, 6],
    [2, 7, 1, 8, 2, 8, 1, 8, 2, 8.5],
    [3, 1, 4, 1, 5, 9, 2, 6, 5, 3],
    [1, 6, 1, 8, 0, 3, 3, 9, 8, 8],
]


def mixed(sh, item):
    n = 4
    for i, arcs in enumerate(G.all_mixed(n)):
        if i % item["of"] != item["k"]:
            continue
        strict = [a for a in arcs if (a[1], a[0]) not in arcs]
        if not G.is_acyclic(n, strict):
            continue
        sh.add(states=1)
        for mode in item["modes"]:
            judge(sh, n, arcs, GENERIC, None, mode, "mixed")


def pipeline(sh, item):
    n = 4
    names = D.NAMES[:n]
    for i, dag in enumerate(G.all_dags(n)):
        if i % item["of"] != item["k"]:
            continue
        cols, w = D.data(n, dag)
        unit = UNITS[i % 4]
        cols = transformed(cols, unit)
        m = D.fit(["PC", "PCStable", "PCClassic"][i % 3], cols, names)
        arcs = D.arcs(m, names)
        sh.add(states=1, traces_validated_against_impl=1, transitions=len(arcs))
        for a, b in arcs:
            val = m.graph.edge_value(names[a], names[b])
            if (b, a) in arcs:
                sh.check("direct_effect" not in val, "no effect on an undirected edge after PC", key="pc undirected %r" % sorted(dag), dag=sorted(dag), edge=[a, b])
            elif not any((x, b) in arcs and (b, x) in arcs for x in range(n)):
                want = w[(a, b)] * unit[0][b] / unit[0][a] if (a, b) in w else None
                got = val.get("direct_effect")
                sh.check(
                    want is not None and got is not None and abs(got - want) <= 1e-6 * max(1, abs(want)),
                    "direct effect after PC",
                    key="pc %r" % sorted(dag),
                    dag=sorted(dag),
                    edge=[a, b],
                    got=got,
                    want=want,
                )


def many(sh, item):
    """up to 12 parents"""
    n = item["n"]
    x, cols = 12345, []
    for i in range(n):
        col = []
        for j in range(3 * n + 7):
            x = (x * 1103515245 + 12345) % 2**31
            col.append((x >> 8) % 2000 / 100 + i)
        cols.append(col)
    for label in range(3):
        for extra in ((), ((0, 1),), ((0, 1), (1, 2), (0, 2))):
            arcs = G.long_relabel(n, frozenset({(i, n - 1) for i in range(n - 1)} | {e for e in extra if max(e) < n - 1}), label)
            sh.add(states=1)
            judge(sh, n, arcs, cols, None, cg.MODES[(label + len(extra)) % 4], "many parents")


def run(ctx):
    ctx.explore(many, [{"n": n} for n in range(5, 14)], name="many parents")
    ctx.explore(dags, [{"n": n, "k": 0, "of": 1} for n in (2, 3)] + [{"n": 4, "k": k, "of": 64} for k in range(64)], name="DAGs")
    ctx.explore(mixed, [{"k": k, "of": 64, "modes": ctx.pick(["direct"], cg.MODES)} for k in range(64)], name="mixed graphs")
    G.iso_classes(5)
    ctx.explore(dags, [{"n": 5, "iso": 1, "k": k, "of": 64} for k in range(64)], name="5-node classes", limit=600)
    ctx.explore(pipeline, [{"k": k, "of": 64} for k in range(64)], name="after PC", limit=600)
    if ctx.thorough:
        ctx.explore(dags, [{"n": 5, "k": k, "of": 256} for k in range(256)], name="5-node DAGs", limit=3600)
