"""C19: generated samples follow exactly the equations of the given edges, and the returned graph has exactly these edges."""
import itertools
import json
import os
import subprocess
import sys

import numpy as np
import torch

from lib import graphs as G
from lib import harness
from lib.harness import call

from causy.sample_generator import (
    IIDSampleGenerator,
    NodeReference,
    SampleEdge,
    TimeAwareNodeReference,
    TimeseriesSampleGenerator,
)

PROPERTY = "C19"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "one edge per (source, lag, target); time series edges have a lag of at least 1 and a stable coefficient matrix",
    "before the longest lag has passed the time series start-up is not specified",
    "the noise function is scripted: every draw is a distinct power-of-two-like value, so that a residual identifies its draw",
]
BOUNDS = {
    "quick": "IID: all 543 DAGs with 4 nodes and all smaller, all orientations of a path and a tree with 7 and a cycle and a ladder with 6 nodes, 3 orders of edges, sizes 1 and 3; all cyclic digraphs with <= 3 nodes incl. self-loops; time series: all 255 sets of lagged edges on 2 variables with lags 1, 2 and all 511 with lag 1 on 3 variables, sizes 1..5, and all 298 sets of up to 3 edges with lags 1, 3, 5 on 2 variables, sizes 4 and 7; graphs with 9 nodes, 130 samples; 4 hash seeds",
    "thorough": "as quick; IID classes with 5 nodes; all sets of up to 5 edges on 2 variables with lags 1..4",
}
NAMES = ["X", "B", "z", "A", "Q", "m", "C", "x10", "x9", "d"]


class Draws:
    """noise that can be recognised: draw number i is 1000 + i * 1.25"""

    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return 1000.0 + 1.25 * self.n

    def index(self, residual):
        i = (residual - 1000.0) / 1.25
        return round(i) if abs(i - round(i)) < 1e-3 else None


def weight(i):
    return [0.5, -2.0, 3.0, 0.25, -1.0, 1.5, -0.75, 4.0, 2.5, -3.5][i % 10]


def iid(sh, item):
    names = NAMES[: item["n"]]
    arcs = [tuple(a) for a in item["dag"]]
    edges = [(names[u], names[v], weight(k)) for k, (u, v) in enumerate(arcs)]
    used = sorted({x for u, v, _ in edges for x in (u, v)})
    for order in (edges, edges[::-1], edges[1::2] + edges[::2]):
        given = [SampleEdge(NodeReference(u), NodeReference(v), w) for u, v, w in order]
        now = {}
        made = call(lambda: IIDSampleGenerator(edges=given, random=lambda: now["draws"]()))
        kept = []
        # one generator is used repeatedly
        for size in item.get("sizes", (1, 3, 2)):
            rnd = now["draws"] = Draws()
            r = call(lambda: made[1].generate(size)) if made[0] == "ok" else made
            sh.add(traces_validated_against_impl=1)
            if not sh.check(r[0] == "ok", "samples of an acyclic graph", key="iid raises", edges=order, got=r):
                return
            out, g = r[1]
            kept.append((out, {k: v.tolist() for k, v in out.items()}))
            sh.check(all({k: v.tolist() for k, v in o.items()} == was for o, was in kept), "samples drawn earlier do not change", key="iid kept", edges=order)
            sh.check(sorted(out) == used and all(len(out[k]) == size for k in out), "one column of the given size per variable", key="iid columns", edges=order, got={k: len(v) for k, v in out.items()})
            seen = []
            for v in used:
                for t in range(size):
                    res = float(out[v][t]) - sum(w * float(out[a][t]) for a, b, w in order if b == v)
                    seen.append(rnd.index(res))
                    sh.add(transitions=1)
            sh.check(
                sorted(seen, key=str) == sorted(range(1, len(used) * size + 1), key=str) and rnd.n == len(used) * size,
                "each value is the weighted sum of its causes plus its own noise",
                key="iid equation %r" % sorted(arcs),
                edges=order,
                draws=seen,
                data={k: v.tolist() for k, v in out.items()},
            )
            graph(sh, g, {v: (v, [float(x) for x in out[v]]) for v in used}, {(a, b) for a, b, _ in order}, "iid %r" % sorted(arcs))
            sh.check([(e.from_node.node, e.to_node.node, e.value) for e in given] == order, "the given edges are not changed", key="iid input")
    sh.add(states=1)
    sh.sample({"edges": edges})


def graph(sh, g, nodes, arcs, key):
    sh.check(set(g.nodes) == set(nodes), "the nodes of the graph", key="nodes " + key, got=sorted(g.nodes), want=sorted(nodes))
    for i, (name, vals) in nodes.items():
        if i in g.nodes:
            sh.check([float(x) for x in g.nodes[i].values] == vals, "the values of a node are the generated ones", key="values " + key, node=i, got=repr(g.nodes[i].values), want=vals)
    got = {(u, v) for u in g.nodes for v in g.nodes if g.directed_edge_exists(u, v)}
    sh.check(got == arcs, "the edges of the graph are the given ones", key="graph " + key, got=sorted(got), want=sorted(arcs))
    sh.check(len(g.retrieve_edges()) == len(arcs), "edges are listed once", key="edge list " + key, got=len(g.retrieve_edges()), want=len(arcs))


def cyclic(sh, item):
    """every digraph on n nodes that is not acyclic is rejected (and does not run forever)"""
    n = item["n"]
    pairs = [(u, v) for u in range(n) for v in range(n) if item["loops"] or u != v]
    for mask in range(1, 1 << len(pairs)):
        arcs = [p for i, p in enumerate(pairs) if mask >> i & 1]
        adj = np.zeros((n, n), dtype=int)
        for u, v in arcs:
            adj[u, v] = 1
        if not np.trace(sum(np.linalg.matrix_power(adj, k) for k in range(1, n + 1))):
            continue
        given = [SampleEdge(NodeReference(NAMES[u]), NodeReference(NAMES[v]), 0.5) for u, v in arcs]
        r = call(lambda: IIDSampleGenerator(edges=given, random=lambda: 0.0).generate(2))
        sh.add(states=1, transitions=1, traces_validated_against_impl=1)
        sh.check(r[:2] == ("exc", "ValueError"), "a cycle is rejected", key="cycle %r" % arcs, got=r[:2])


def series(sh, item):
    names = NAMES[: item["n"]]
    slots = [tuple(s) for s in item["slots"]]  # (from, lag, to)
    k = len(slots)
    # weights small enough to be stable
    edges = [(names[a], lag, names[b], weight(i) / (6.0 * k)) for i, (a, lag, b) in enumerate(slots)]
    used = sorted({x for a, _, b, _ in edges for x in (a, b)})
    if item.get("strong"):
        # close to the limit of stability: spectral radius 0.9
        top = max(lag for _, lag, _, _ in edges)
        m = np.zeros((len(used) * top, len(used) * top))
        m[len(used):, : -len(used)] = np.eye(len(used) * (top - 1))
        for a, lag, b, w in edges:
            m[used.index(b), (lag - 1) * len(used) + used.index(a)] = w
        rho = max(abs(np.linalg.eigvals(m)))
        scale = 0.9 / rho if rho > 1e-6 else 6.0
        edges = [(a, lag, b, float(w * scale**lag)) for a, lag, b, w in edges]
    for order in (edges, edges[::-1]):
        given = [SampleEdge(TimeAwareNodeReference(a, -lag), TimeAwareNodeReference(b), w) for a, lag, b, w in order]
        now = {}
        gen = TimeseriesSampleGenerator(edges=given, random=lambda: now["draws"]())
        scripted_start = hasattr(TimeseriesSampleGenerator, "_initial_distribution_fn")
        if scripted_start:
            # every start is drawn anew
            gen._initial_distribution_fn = lambda x: x * now["factor"]
        # one generator is used repeatedly
        for turn, size in enumerate(item["sizes"]):
            rnd = now["draws"] = Draws()
            now["factor"] = 1.0 + turn
            r = call(lambda: gen.generate(size))
            sh.add(traces_validated_against_impl=1)
            key = "series %r size=%d" % (sorted(slots), size)
            if not sh.check(r[0] == "ok", "samples of a stable time series", key="raises " + key, got=r):
                return
            out, g = r[1]
            sh.check(sorted(out) == used and all(len(out[v]) == size for v in out), "one column of the given size per variable", key="columns " + key)
            seen = []
            for v in used:
                mine = [(a, lag, w) for a, lag, b, w in order if b == v]
                start = max([1] + [lag for _, lag, _ in mine])
                for t in range(start, size):
                    res = float(out[v][t]) - sum(w * float(out[a][t - lag]) for a, lag, w in mine)
                    i = rnd.index(res)
                    seen.append(i)
                    sh.add(transitions=1)
                    sh.check(i is not None and 1 <= i <= rnd.n, "each value is the weighted sum of the lagged causes plus noise", key="equation " + key, edges=order, variable=v, t=t, residual=res)
            sh.check(len(set(seen)) == len(seen), "every value has its own noise", key="noise " + key, draws=seen)
            arcs = {("%s-t%d" % (a, t - lag), "%s-t%d" % (b, t)) for a, lag, b, w in order for t in range(1, size) if t - lag >= 0}
            graph(sh, g, {"%s-t%d" % (v, t): (v, [float(out[v][t])]) for v in used for t in range(size)}, arcs, key)
            if scripted_start:
                top = max(lag for _, lag, _, _ in order)
                k_ = len(used)
                m = np.zeros((k_ * top, k_ * top))
                m[k_:, :-k_] = np.eye(k_ * (top - 1))
                noise = np.zeros((k_ * top, k_ * top))
                noise[:k_, :k_] = np.eye(k_)
                for a, lag, b, w in order:
                    m[used.index(b), (lag - 1) * k_ + used.index(a)] = w
                c = noise
                for _ in range(4000 if item.get("strong") else 400):
                    c = m @ c @ m.T + noise
                got = [float(out[v][0]) for v in used]
                want = np.sqrt(np.diag(c))[:k_] * now["factor"]
                sh.check(np.allclose(got, want, rtol=1e-3), "the start has the stationary standard deviation", key="start " + key, got=got, want=list(want), edges=order)
    sh.add(states=1)
    sh.sample({"edges": edges})


PROG = """
import json, random, sys
sys.path.insert(0, %r)
import torch
from causy.sample_generator import *
out = []
for names in (["X", "Y", "Z"], ["alpha", "b", "C9"], ["v%%d" %% i for i in range(3)]):
    x, y, z = names
    for cls in ("iid", "ts"):
        random.seed(7); torch.manual_seed(7)
        if cls == "iid":
            g = IIDSampleGenerator(edges=[SampleEdge(NodeReference(x), NodeReference(z), 2.0), SampleEdge(NodeReference(y), NodeReference(z), -1.0)])
        else:
            g = TimeseriesSampleGenerator(edges=[SampleEdge(TimeAwareNodeReference(x, -1), TimeAwareNodeReference(z), 0.4), SampleEdge(TimeAwareNodeReference(y, -1), TimeAwareNodeReference(z), -0.3), SampleEdge(TimeAwareNodeReference(x, -1), TimeAwareNodeReference(x), 0.5)])
        data, graph = g.generate(4)
        out.append([{k: [float(q) for q in v] for k, v in sorted(data.items())}, sorted([e.u.id, e.v.id] for e in graph.retrieve_edges())])
print(json.dumps(out))
"""


def hashseed(sh, item):
    outs = []
    for seed in item["seeds"]:
        env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONPATH", None)
        p = subprocess.run([sys.executable, "-c", PROG % harness.REPO], env=env, capture_output=True, text=True, cwd=harness.VERIF, timeout=200)
        sh.add(traces_validated_against_impl=1, transitions=6)
        if not sh.check(p.returncode == 0, "generation runs", key="hash run", err=p.stderr[-500:]):
            return
        outs.append(json.loads(p.stdout))
    sh.check(all(o == outs[0] for o in outs), "the same seed gives the same sample in every process", key="hash seed", outs=outs)
    sh.add(states=1)


def run(ctx):
    items = [{"n": n, "dag": G.to_item(d)} for n in (2, 3, 4) for d in G.all_dags(n) if d]
    if ctx.thorough:
        items += [{"n": 5, "dag": G.to_item(d)} for d in G.iso_classes(5) if d]
    items += [{"n": n, "dag": G.to_item(d)} for f in sorted(G.FAMILIES) for n, d in G.family_dags(f, 1)]
    ctx.explore(iid, items, name="iid")
    ctx.explore(iid, [{"n": n, "dag": G.to_item(G.long_relabel(n, d, l)), "sizes": [130, 7]} for n, d in G.long_dags((9,)) for l in range(3)], name="many variables and samples", limit=300)
    ctx.explore(cyclic, [{"n": 2, "loops": True}, {"n": 3, "loops": True}], name="cycles")
    s2 = [(a, lag, b) for a in range(2) for lag in (1, 2) for b in range(2)]
    its = [{"n": 2, "slots": c, "sizes": [1, 2, 3, 5]} for r in range(1, 9) for c in itertools.combinations(s2, r)]
    s3 = [(a, 1, b) for a in range(3) for b in range(3)]
    its += [{"n": 3, "slots": c, "sizes": [4]} for r in range(1, 10) for c in itertools.combinations(s3, r)]
    s5 = [(a, lag, b) for a in range(2) for lag in (1, 3, 5) for b in range(2)]
    its += [{"n": 2, "slots": c, "sizes": [1, 4], "strong": 1} for r in range(1, 9) for c in itertools.combinations(s2, r)]
    its += [{"n": 2, "slots": c, "sizes": [4, 7]} for r in range(1, 4) for c in itertools.combinations(s5, r)]
    if ctx.thorough:
        s4 = [(a, lag, b) for a in range(2) for lag in (1, 2, 3, 4) for b in range(2)]
        its += [{"n": 2, "slots": c, "sizes": [6, 7]} for r in range(1, 6) for c in itertools.combinations(s4, r)]
    ctx.explore(series, its, name="time series")
    ctx.explore(hashseed, [{"seeds": s} for s in ctx.pick([[0, 1], [2, 3]], [[0, 1, 2, 3], [4, 5, 6, 7]])], name="hash seeds")
