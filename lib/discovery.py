"""Running the shipped algorithms on data whose correlations are known exactly."""
import itertools
import math

import torch

from lib import graphs as G
from lib.harness import HarnessError

from causy.causal_discovery.constraint.algorithms.pc import PC, ParallelPC, PCClassic, PCStable

ALGS = {"PC": PC, "PCClassic": PCClassic, "PCStable": PCStable, "ParallelPC": ParallelPC}
NAMES = "ABCDEFGHIJKLMNOP"
_DATA = {}


def data(n, dag, thr=0.05):
    """(columns, weights): every d-separation is an exactly vanishing (partial)
    correlation, every d-connection is highly significant"""
    key = (n, dag)
    if key not in _DATA:
        w, lo = G.faithful_weights(n, dag)
        rows = 64
        while math.atanh(min(lo, 0.99)) * math.sqrt(rows - n - 3) < 6:
            rows *= 2
            if rows > 1 << 17:
                raise HarnessError("weights not faithful enough: %r %r" % (sorted(dag), lo))
        if len(_DATA) > 64:
            _DATA.clear()
        _DATA[key] = (G.exact_data(n, dag, w, rows), w)
    return _DATA[key]


def long_data(n, dag):
    """as data(), for polytrees with many nodes (single paths cannot cancel); strength checked for sets of up to 3 nodes"""
    key = (n, dag)
    if key not in _DATA:
        w = {a: 1.0 if i % 3 else -1.0 for i, a in enumerate(sorted(dag))}
        cov = G.covariance(n, dag, w)
        lo = 1.0
        for x, y in G.pairs(n):
            rest = [i for i in range(n) if i not in (x, y)]
            for k in range(4):
                for z in itertools.combinations(rest, k):
                    r = abs(G.partial_corr(cov, x, y, z))
                    if r > 1e-9:
                        lo = min(lo, r)
        rows = 64
        while math.atanh(min(lo, 0.99)) * math.sqrt(rows - n - 3) < 6:
            rows *= 2
            if rows > 1 << 17:
                raise HarnessError("weights not faithful enough: %r %r" % (sorted(dag), lo))
        _DATA[key] = (G.exact_data(n, dag, w, rows), w)
    return _DATA[key]


def fit(alg, cols, names):
    m = (ALGS[alg] if isinstance(alg, str) else alg)()
    m.create_graph_from_data({k: torch.tensor(c, dtype=torch.float64) for k, c in zip(names, cols)})
    m.create_all_possible_edges()
    m.execute_pipeline_steps()
    return m


def arcs(m, names):
    g = m.graph
    by = {nd.name: nd.id for nd in g.nodes.values()}
    return frozenset(
        (i, j) for i, a in enumerate(names) for j, b in enumerate(names) if i != j and g.directed_edge_exists(by[a], by[b])
    )
