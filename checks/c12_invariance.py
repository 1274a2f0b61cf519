"""C12: the result depends on the data and nothing else: not on the format, row
order, units or names of the variables, the hash seed, or what ran before."""
import itertools
import json
import math
import os
import subprocess
import sys

import numpy as np
import torch

from lib import discovery as D
from lib import graphs as G
from lib.harness import HarnessError, VERIF, scratch
from checks.c08_independence import fisher_p

from causy.data_loader import AbstractDataLoader, JSONDataLoader, JSONLDataLoader

PROPERTY = "C12"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "data sets in which no test statistic is within 1e-6 of the threshold and no covariance matrix is singular",
    "hash seeds: a finite set of PYTHONHASHSEED values, each in its own process",
]
BOUNDS = {
    "quick": "every ordered choice of 4 of 7 base columns (840 data sets) x 17 transformations x PC/PCStable/PCClassic; 4-node DAGs: all column orders and renamings of the 31 isomorphism classes; all ordered pairs of 7 data sets with the same model; all interleavings of the steps of two runs; 4 hash seeds",
    "thorough": "every ordered choice of 4 of 9 base columns; 8 hash seeds",
}

# integer columns of length 48: noises, and mixtures of them with some more noise
NOISE = [
    [5, -3, 8, 1, 0, 4, -6, 2, 9, -1, 3, 7, -8, 6, -2, -5],
    [-4, 6, 2, -7, 9, -5, 1, -1, -8, 3, 0, 8, 4, -6, 7, -2],
    [3, 3, -1, 7, 2, -9, 4, -2, 5, 0, 8, -6, -4, 1, -7, -3],
    [0, 7, 1, 9, -3, 6, 2, -8, -5, -6, 4, -1, 3, -7, -4, 5],
    [1, -2, 4, -1, -4, 5, 3, -6, 0, 7, -3, 2, -5, 6, 8, -7],
]


def _mix(*ks):
    return [sum(k * c[i % 16] for k, c in zip(ks, NOISE)) + i % 3 for i in range(48)]


BASE = [
    _mix(4, 0, 0, 0, 0),
    _mix(4, 3, 0, 0, 0),
    _mix(3, 3, 3, 0, 1),
    _mix(0, 4, 0, 2, 0),
    _mix(-3, 0, 3, 0, 2),
    _mix(0, 3, -3, 4, 0),
    _mix(1, 1, 0, 3, 4),
    _mix(0, 0, 4, 1, 1),
    _mix(2, -3, 0, 1, 4),
]


class InMemoryDataLoader(AbstractDataLoader):
    def __init__(self, rows, options=None):
        self.rows = rows
        self.options = options

    def load(self):
        yield from self.rows

    def hash(self):
        return "h"


def decided(cols, alpha=0.05):
    """no decision on the brink"""
    n, m = len(cols), len(cols[0])
    c = np.corrcoef(np.array(cols, dtype=float))
    for k in range(2, n + 1):
        for s in itertools.combinations(range(n), k):
            if abs(np.linalg.det(c[np.ix_(s, s)])) < 1e-4:
                return False
    for x, y in itertools.combinations(range(n), 2):
        rest = [i for i in range(n) if i not in (x, y)]
        for z in G.subsets(rest):
            r = G.partial_corr(c, x, y, z) if z else c[x, y]
            if abs(fisher_p(r, m, len(z)) - alpha) < 1e-6:
                return False
    return True


def result(m, names, values=True):
    """what a user sees: edges, types, separating sets, correlations, effects"""
    g = m.graph
    by = {nd.name: nd.id for nd in g.nodes.values()}
    out = []
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            if i == j:
                continue
            if g.directed_edge_exists(by[a], by[b]):
                v = g.edge_value(by[a], by[b]) or {}
                out.append([i, j, g.edge_type(by[a], by[b]).name] + ([_num(v.get("correlation")), _num(v.get("direct_effect"))] if values else []))
    back = {by[a]: i for i, a in enumerate(names)}
    seps = []
    for i, j in itertools.combinations(range(len(names)), 2):
        h = g.retrieve_edge_history(g.nodes[by[names[i]]], g.nodes[by[names[j]]])
        s = sorted({tuple(sorted(back[z.id] for z in r.data["separatedBy"])) for r in h if "separatedBy" in (r.data or {})})
        if s:
            seps.append([i, j, [list(x) for x in s]])
    return json.loads(json.dumps([out, seps]))


def _num(x):
    return None if x is None else round(float(x), 7)


def fit(alg, data):
    m = D.ALGS[alg]()
    m.create_graph_from_data(data)
    m.create_all_possible_edges()
    m.execute_pipeline_steps()
    return m


def variants(cols, names):
    """(label, names, data, scales or None)"""
    n, m = len(cols), len(cols[0])
    d = {k: list(map(float, c)) for k, c in zip(names, cols)}
    yield "list of rows", names, [{k: d[k][i] for k in names} for i in range(m)], None
    yield "shuffled keys in rows", names, [{k: d[k][i] for k in (names if i % 2 else names[::-1])} for i in range(m)], None
    yield "tensors", names, {k: torch.tensor(v, dtype=torch.float64) for k, v in d.items()}, None
    yield "integer tensors", names, {k: torch.tensor([int(x) for x in v], dtype=[torch.int64, torch.int32, torch.int16][i % 3]) for i, (k, v) in enumerate(d.items())}, None
    yield "arrays", names, {k: np.array([int(x) for x in v], dtype=[np.int64, np.float64, np.float32][i % 3]) for i, (k, v) in enumerate(d.items())}, None
    yield "dict in another order", names, {k: d[k] for k in names[::-1]}, None
    yield "loader", names, InMemoryDataLoader(json.loads(json.dumps([{k: d[k][i] for k in names} for i in range(m)]))), None
    rows = json.loads(json.dumps([{k: d[k][i] for k in (names if i % 2 else names[::-1])} for i in range(m)]))
    yield "loader with shuffled keys", names, InMemoryDataLoader(rows), None
    with scratch() as s:
        path = os.path.join(s, "data.json")
        with open(path, "w") as f:
            json.dump({k: d[k] for k in names[2:] + names[:2]}, f)
        yield "JSON file", names, JSONDataLoader(path), None
        with open(path, "w") as f:
            f.write("".join(json.dumps(r) + "\n" for r in rows))
        yield "JSONL file", names, JSONLDataLoader(path), None
    yield "rows reversed", names, {k: v[::-1] for k, v in d.items()}, None
    yield "rows rotated", names, {k: v[5:] + v[:5] for k, v in d.items()}, None
    yield "rows interleaved", names, {k: v[::2] + v[1::2] for k, v in d.items()}, None
    for lab, sc, off in (("scaled", [2, 10, 0.5, 7], [0, 0, 0, 0]), ("shifted", [1, 1, 1, 1], [100, -3, 50, 7]), ("mirrored", [-1, 1, -3, 2], [1, 2, 3, 4])):
        yield lab, names, {k: [x * sc[i] + off[i] for x in d[k]] for i, k in enumerate(names)}, sc
    new = ["aa", "b", "x y", "z1"][:n]
    yield "renamed", new, {b: d[a] for a, b in zip(names, new)}, None


def rescale(res, sc):
    """the result expected when variable i is multiplied by sc[i]"""
    edges, seps = res
    out = []
    for i, j, t, c, e in edges:
        s = 1 if sc[i] * sc[j] > 0 else -1
        out.append([i, j, t, None if c is None else c * s, None if e is None else e * sc[j] / sc[i]])
    return [out, seps]


def close(a, b):
    if a[1] != b[1] or len(a[0]) != len(b[0]):
        return False
    for x, y in zip(a[0], b[0]):
        if x[:3] != y[:3]:
            return False
        for p, q in zip(x[3:], y[3:]):
            if (p is None) != (q is None) or (p is not None and abs(p - q) > 1e-5 * max(1, abs(p))):
                return False
    return True


NAMES = ["A", "B", "C", "D"]


def datasets(sh, item):
    for combo in item["combos"]:
        cols = [BASE[i] for i in combo]
        if not decided(cols):
            sh.add(skipped_near_threshold=1)
            continue
        sh.add(states=1)
        for alg in item["algs"]:
            first = result(fit(alg, {k: list(map(float, c)) for k, c in zip(NAMES, cols)}), NAMES)
            for lab, names, data, sc in variants(cols, NAMES):
                before = json.dumps(data, default=lambda t: t.tolist() if hasattr(t, "tolist") else repr(type(t)))
                got = result(fit(alg, data), names)
                want = rescale(first, sc) if sc else first
                sh.add(traces_validated_against_impl=1, transitions=1)
                sh.check(close(want, got), "same result: " + lab, key="%s %s %r" % (lab, alg, combo), alg=alg, combo=combo, got=got, want=want)
                after = json.dumps(data, default=lambda t: t.tolist() if hasattr(t, "tolist") else repr(type(t)))
                sh.check(before == after, "the given data is not changed", key="input %s" % lab)
        sh.sample(combo)


def classes(sh, item):
    """column order and names of faithful data: the graph is the same graph"""
    n = 4
    dag = G.from_item(item["dag"])
    cols, w = D.data(n, dag)
    want = G.cpdag(n, dag)
    for q, order in enumerate(itertools.permutations(range(n))):
        alg = sorted(D.ALGS)[q % 4]
        m = D.fit(alg, [cols[i] for i in order], [D.NAMES[i] for i in order])
        got = D.arcs(m, D.NAMES[:n])
        sh.add(traces_validated_against_impl=1, transitions=1)
        sh.check(got == want, "column order does not matter", key="order %s %r %r" % (alg, item["dag"], order), alg=alg, got=sorted(got), want=sorted(want))
        perm_names = [D.NAMES[i] for i in order]
        alg = sorted(D.ALGS)[(q + 1) % 4]
        m = D.fit(alg, cols, perm_names)
        got = D.arcs(m, perm_names)
        sh.add(traces_validated_against_impl=1, transitions=1)
        sh.check(got == want, "names do not matter", key="names %s %r %r" % (alg, item["dag"], order), alg=alg, got=sorted(got), want=sorted(want))
    sh.add(states=1)


REUSE = [(0, 1, 2, 3), (3, 2, 1, 0), (2, 4), (1, 0, 5), (6, 5, 4, 3, 2), (0,), (5, 3, 1, 6)]


def _cols(combo):
    return {NAMES5[i]: list(map(float, BASE[b])) for i, b in enumerate(combo)}


NAMES5 = ["A", "B", "C", "D", "E"]


def prepare(m, combo):
    m.create_graph_from_data(_cols(combo))
    m.create_all_possible_edges()
    return m


def reuse(sh, item):
    """a model used for one data set and then for another; earlier graphs stay what they are"""
    alg = item["alg"]
    a, b = REUSE[item["a"]], REUSE[item["b"]]
    ca = [BASE[i] for i in a]
    if not decided(ca) or not decided([BASE[i] for i in b]):
        sh.add(skipped_near_threshold=1)
        return
    sh.add(states=1)
    fresh = {c: result(fit(alg, _cols(c)), NAMES5[: len(c)]) for c in {a, b}}
    m = D.ALGS[alg]()
    for c in (a, b, a):
        prepare(m, c).execute_pipeline_steps()
        got = result(m, NAMES5[: len(c)])
        sh.add(traces_validated_against_impl=1, transitions=1)
        sh.check(close(fresh[c], got), "same result with a used model", key="reuse %s %r %r" % (alg, a, b), alg=alg, got=got, want=fresh[c])
    one, two = prepare(D.ALGS[alg](), a), prepare(D.ALGS[alg](), b)
    one.execute_pipeline_steps()
    two.execute_pipeline_steps()
    for mm, c in ((one, a), (two, b)):
        got = result(mm, NAMES5[: len(c)])
        sh.add(traces_validated_against_impl=1, transitions=1)
        sh.check(close(fresh[c], got), "a later run leaves an earlier graph alone", key="earlier %s %r %r" % (alg, a, b), alg=alg, got=got, want=fresh[c])


def steps_of(m):
    return sum(1 for _ in m.execute_pipeline_step_with_progress())


def interleave(sh, item):
    """two runs that report progress, advanced step by step in every order"""
    alg = item["alg"]
    a, b = (tuple(x) for x in item["pair"])
    fresh = {c: result(fit(alg, _cols(c)), NAMES5[: len(c)]) for c in {a, b}}
    la, lb = (steps_of(prepare(D.ALGS[alg](), c)) + 1 for c in (a, b))
    for pos in itertools.combinations(range(la + lb), la):
        ms = [prepare(D.ALGS[alg](), a), prepare(D.ALGS[alg](), b)]
        gens = [m.execute_pipeline_step_with_progress() for m in ms]
        for k in range(la + lb):
            next(gens[0 if k in pos else 1], None)
            sh.add(transitions=1)
        for m, c in zip(ms, (a, b)):
            got = result(m, NAMES5[: len(c)])
            sh.check(close(fresh[c], got), "same result whatever runs in between", key="interleaved %s %r" % (alg, item["pair"]), alg=alg, order=list(pos), got=got, want=fresh[c])
        sh.add(traces_validated_against_impl=1, schedules=1)


def combos(k):
    return [list(c) for c in itertools.permutations(range(k), 4)]


def digest_run(sh, item):
    """in a process of its own, with its own hash seed"""
    p = subprocess.run(
        [sys.executable, os.path.join(VERIF, "lib", "hashrun.py"), json.dumps(item["combos"])],
        env={**os.environ, "PYTHONHASHSEED": str(item["seed"])},
        capture_output=True,
        text=True,
        timeout=600,
    )
    if p.returncode != 0:
        if "HarnessError" in p.stderr or "/repo/" not in p.stderr:
            raise HarnessError(p.stderr[-1000:])
        sh.violation("run fails", key="hash run", seed=item["seed"], err=p.stderr[-800:])
        return
    sh.emit([item["seed"], json.loads(p.stdout)])
    sh.add(traces_validated_against_impl=len(item["combos"]))


def compare(sh, item):
    for i, (a, b) in enumerate(zip(item["a"], item["b"])):
        sh.add(transitions=1)
        sh.check(a == b, "same result under another hash seed", key="hash seed", combo=item["combos"][i], got=b, want=a, seed=item["seed"])


def run(ctx):
    cs = combos(ctx.pick(7, 9))
    algs = ["PC", "PCStable", "PCClassic"]
    if not ctx.thorough:
        parts = [{"combos": cs[i::64], "algs": [algs[i % 3]]} for i in range(64)]
    else:
        parts = [{"combos": cs[i::256], "algs": algs} for i in range(256)]
    ctx.explore(datasets, parts, name="data sets", limit=1800)
    ctx.explore(classes, [{"dag": G.to_item(d)} for d in G.iso_classes(4)], name="order and names", limit=300)
    ctx.explore(reuse, [{"alg": g, "a": i, "b": j} for g in algs for i in range(len(REUSE)) for j in range(len(REUSE))], name="used models", limit=300)
    pairs = [[REUSE[0], REUSE[1]], [REUSE[3], REUSE[6]], [REUSE[2], REUSE[4]]]
    ctx.explore(interleave, [{"alg": g, "pair": p} for g in algs for p in (pairs if ctx.thorough else pairs[:2])], name="interleaved runs", limit=600)
    seeds = ctx.pick([0, 1, 2, 3], list(range(8)))
    sub = [c for c in cs[:: ctx.pick(5, 11)]]
    out = dict(ctx.explore(digest_run, [{"seed": s, "combos": sub} for s in seeds], name="hash seeds", limit=900))
    if len(out) == len(seeds):
        ctx.explore(compare, [{"a": out[seeds[0]], "b": out[s], "combos": sub, "seed": s} for s in seeds[1:]], name="hash seed comparison", jobs=1)
