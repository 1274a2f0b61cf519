"""C08: every independence test removes an edge exactly when the (partial)
correlation in the data is not significant at the step's threshold."""
import itertools
import math

import numpy as np
from scipy import special

from lib.harness import HarnessError, call

import torch
from causy.causal_discovery.constraint.independence_tests.common import (
    CorrelationCoefficientTest,
    ExtendedPartialCorrelationTestLinearRegression,
    ExtendedPartialCorrelationTestMatrix,
    PartialCorrelationTest,
)
from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
from causy.edge_types import DirectedEdge, UndirectedEdge
from causy.graph_model import graph_model_factory
from causy.interfaces import GeneratorInterface
from causy.models import Algorithm

PROPERTY = "C08"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "data have exactly the chosen sample (partial) correlations: orthogonal cosine columns, checked with numpy",
    "more rows than the test needs (rows > conditioning variables + 3), no constant columns",
    "correlations closer than 1e-7 to the decision boundary are not explored",
]
BOUNDS = {
    "quick": "2 variables: 7 sample sizes x 6 thresholds x (17 grid + 12 boundary correlations) x 4 affine transforms; 3 variables: 3 sizes x 4 thresholds x 14 partial correlations x 9 loadings x 6 column orders; extended tests: 1..3 conditioning variables x 3 sizes x 3 thresholds x 12 partial correlations x 5 loadings x 4 orders",
    "thorough": "as quick with 12 sample sizes, 9 thresholds, 41 grid correlations, 25 loadings and all argument orders",
}


class Fixed(GeneratorInterface):
    combos: list = []

    def __init__(self, combos=(), **k):
        super().__init__(chunked=False)
        self.combos = [list(c) for c in combos]

    def generate(self, graph, graph_model_instance_):
        for c in self.combos:
            yield tuple(c)


def basis(m, k):
    """k orthonormal zero-mean columns of length m"""
    if k > m - 1:
        raise HarnessError("too few rows")
    i = np.arange(m)
    return [np.cos(np.pi * (i + 0.5) * j / m) * math.sqrt(2.0 / m) for j in range(1, k + 1)]


def fisher_p(r, m, k):
    if abs(r) >= 1:
        return 0.0
    return special.erfc(abs(math.atanh(r)) * math.sqrt(m - k - 3) / math.sqrt(2))


def student_p(r, m, k):
    df = m - 2 - k
    if abs(r) >= 1:
        return 0.0
    # two-sided p of the t statistic of r, written directly with the beta function
    return special.betainc(df / 2, 0.5, 1 - r * r)


def fisher_critical(alpha, m, k):
    return math.tanh(special.erfcinv(alpha) * math.sqrt(2) / math.sqrt(m - k - 3))


def student_critical(alpha, m, k):
    df = m - 2 - k
    return math.sqrt(1 - special.betaincinv(df / 2, 0.5, alpha))


def near(c):
    """values on both sides of a decision boundary, of both signs"""
    out = []
    for d in (1e-6, 1e-3, 0.04):
        for s in (1, -1):
            for x in (c - d, c + d):
                if 0 <= x < 0.99999:
                    out.append(s * x)
    return out


TRANSFORMS = [(1, 0), (-2.5, 7), (1e3, -50), (1e-3, 0.1)]


def execute(cols, names, step):
    m = graph_model_factory(
        Algorithm(name="t", pipeline_steps=[CalculatePearsonCorrelations(), step], edge_types=[DirectedEdge(), UndirectedEdge()], extensions=[])
    )()
    m.create_graph_from_data({n: torch.tensor(c, dtype=torch.float64) for n, c in zip(names, cols)})
    m.create_all_possible_edges()
    m.execute_pipeline_steps()
    return m


def sepset(m, u, v):
    out = []
    for r in m.graph.retrieve_edge_history(m.graph.nodes[u], m.graph.nodes[v]):
        if (r.data or {}).get("separatedBy") is not None:
            out.append(frozenset(x.id if hasattr(x, "id") else x for x in r.data["separatedBy"]))
    return out


def verdict(sh, m, names, pvals, alpha, key, **d):
    """pvals: {(u, v): (p, frozenset(z))} for tested pairs"""
    g = m.graph
    for u, v in itertools.combinations(names, 2):
        want = True
        if (u, v) in pvals or (v, u) in pvals:
            p, z = pvals.get((u, v)) or pvals[(v, u)]
            if abs(p - alpha) < 1e-10:
                continue
            want = not p > alpha
        got = (g.directed_edge_exists(u, v), g.directed_edge_exists(v, u))
        sh.add(transitions=1)
        sh.check(got == (want, want), "edge kept iff the test rejects independence", key="decision " + key, u=u, v=v, got=got, want=want, alpha=alpha, pvals=repr(pvals), **d)
        if not want and got == (False, False):
            s = [x for x in sepset(m, g.nodes[u].id, g.nodes[v].id)]
            sh.check(s and all(x == z for x in s), "recorded separating set", key="sepset " + key, u=u, v=v, got=repr(s), want=sorted(z), **d)


PERFECT = "perfect correlation: %s in %s"


def perfect(sh, item):
    """exactly collinear variables: the edge is kept (the tests of independence_tests/common.py raise: known finding)"""
    m = item["m"]
    e = basis(m, 2)
    for alpha in item["alphas"]:
        for r in (1, -1):
            for (s1, o1), (s2, o2) in itertools.product(TRANSFORMS, repeat=2):
                base = 4.0 * np.arange(m)  # exact arithmetic for some, rounding for others
                for b in (e[0], base):
                    x, y = s1 * b + o1, r * s2 * b + o2
                    res = call(execute, [x, y], ["A", "B"], CorrelationCoefficientTest(threshold=alpha))
                    sh.add(traces_validated_against_impl=1, transitions=1)
                    if res[0] == "exc":
                        sh.violation("test of two collinear variables raises", key=PERFECT % (res[1], "CorrelationCoefficientTest"), m=m, alpha=alpha, r=r, x=list(x), y=list(y), error=res[2][-200:])
                    else:
                        verdict(sh, res[1], ("A", "B"), {("A", "B"): (0.0, frozenset())}, alpha, "collinear m=%d alpha=%r r=%r" % (m, alpha, r))
        sh.add(states=1)
    sh.sample(item)


def perfect_partial(sh, item):
    """partial correlations of exactly 1 and -1: the edge is kept (all but the regression test raise: known findings)"""
    m, k, loads = item["m"], item["k"], item["loads"]
    names = "ABCDE"[: k + 2]
    for alpha in item["alphas"]:
        for r in (1, -1):
            for scale in (1, -2.5, 1e3):
                cols = loaded(m, r, loads, k)
                cols[1] = cols[1] * scale
                for cls in [ExtendedPartialCorrelationTestMatrix, ExtendedPartialCorrelationTestLinearRegression] + [PartialCorrelationTest] * (k == 1):
                    res = call(execute, cols, names, cls(threshold=alpha, generator=Fixed([list(names)])))
                    sh.add(traces_validated_against_impl=1, transitions=1)
                    if res[0] == "exc":
                        sh.violation("test of two variables that are collinear given the others raises", key=PERFECT % (res[1], cls.__name__), alpha=alpha, r=r, scale=scale, error=res[2][-200:], **{x: item[x] for x in "mk"})
                    else:
                        sh.check(res[1].graph.undirected_edge_exists("A", "B"), "edge kept iff the test rejects independence", key="collinear given others", cls=cls.__name__, alpha=alpha, r=r, scale=scale, **{x: item[x] for x in "mk"})
        sh.add(states=1)
    sh.sample(item)


def pair(sh, item):
    m = item["m"]
    e = basis(m, 2)
    for alpha in item["alphas"]:
        grid = [i / item["grid"] for i in range(-item["grid"] + 1, item["grid"])]
        for r in grid + near(fisher_critical(alpha, m, 0)):
            for (s1, o1), (s2, o2) in zip(TRANSFORMS, TRANSFORMS[1:] + TRANSFORMS[:1]):
                x = s1 * e[0] + o1
                y = s2 * (r * e[0] + math.sqrt(max(0, 1 - r * r)) * e[1]) + o2
                rr = r * math.copysign(1, s1 * s2)
                for names in (("A", "B"), ("B", "A")):
                    md = execute([x, y], names, CorrelationCoefficientTest(threshold=alpha))
                    sh.add(traces_validated_against_impl=1)
                    key = "m=%d alpha=%r r=%r" % (m, alpha, r)
                    verdict(sh, md, names, {("A", "B"): (fisher_p(r, m, 0), frozenset())}, alpha, key)
                # the correlation itself
                c = execute([x, y], names, CorrelationCoefficientTest(threshold=0.0))
                for u, v in (("A", "B"), ("B", "A")):
                    if c.graph.directed_edge_exists(u, v):
                        val = c.graph.edge_value(u, v)["correlation"]
                        sh.check(abs(val - rr) < 1e-7 and -1 <= val <= 1, "Pearson correlation", key="pearson " + key, got=val, want=rr)
            sh.add(states=1)
    sh.sample({"m": m, "alphas": item["alphas"]})


def loaded(m, r, loads, k):
    """x, y, z1..zk with partial correlation r of x and y given all z"""
    e = basis(m, k + 2)
    zs = []
    for j in range(k):
        z = e[2 + j].copy()
        if j:
            z = z + 0.4 * zs[j - 1]
        zs.append(z)
    x = e[0].copy()
    y = r * e[0] + math.sqrt(max(0, 1 - r * r)) * e[1]
    for j, z in enumerate(zs):
        x = x + loads[0] * (1 if j % 2 == 0 else -0.7) * z
        y = y + loads[1] * (0.8 if j % 2 else 1) * z
    return [x, y] + zs


def pcorr(cols, i, j, rest):
    c = np.corrcoef(np.stack([cols[t] for t in [i, j] + list(rest)]))
    p = np.linalg.inv(c)
    return -p[0, 1] / math.sqrt(p[0, 0] * p[1, 1])


def triple(sh, item):
    m, alpha, loads = item["m"], item["alpha"], item["loads"]
    for r in [0, 0.3, -0.6, 0.95] + near(fisher_critical(alpha, m, 1)):
        cols = loaded(m, r, loads, 1)
        if abs(pcorr(cols, 0, 1, [2]) - r) > 1e-9:
            raise HarnessError("construction")
        pv = {}
        for i, j, z in ((0, 1, 2), (0, 2, 1), (1, 2, 0)):
            pv[("ABC"[i], "ABC"[j])] = (fisher_p(pcorr(cols, i, j, [z]), m, 1), frozenset("ABC"[z]))
        for perm in itertools.permutations(range(3)):
            for t in range(2):
                s, o = TRANSFORMS[(perm[0] + t) % 4]
                tc = [cols[0] * s + o, cols[1] * 3 - 1, cols[2] * (-s)]
                md = execute([tc[i] for i in perm], ["ABC"[i] for i in perm], PartialCorrelationTest(threshold=alpha))
                sh.add(traces_validated_against_impl=1)
                verdict(sh, md, "ABC", pv, alpha, "m=%d alpha=%r r=%r loads=%r" % (m, alpha, r, loads), perm=perm)
        sh.add(states=1)
    sh.sample(item)


EXT = {
    "matrix": (ExtendedPartialCorrelationTestMatrix, fisher_p, fisher_critical),
    "regression": (ExtendedPartialCorrelationTestLinearRegression, student_p, student_critical),
}


def extended(sh, item):
    m, alpha, loads, k = item["m"], item["alpha"], item["loads"], item["k"]
    cls, pf, cf = EXT[item["test"]]
    names = "ABCDE"[: k + 2]
    for r in [0, 0.4, -0.8, 0.99] + near(cf(alpha, m, k)):
        cols = loaded(m, r, loads, k)
        if abs(pcorr(cols, 0, 1, range(2, k + 2)) - r) > 1e-8:
            raise HarnessError("construction")
        zs = list(names[2:])
        orders = [["A", "B"] + list(z) for z in itertools.permutations(zs)] + [["B", "A"] + list(z) for z in itertools.permutations(zs)]
        if not item["all"]:
            orders = [orders[0], orders[-1]] + orders[1:-1:3]
        for q, o in enumerate(orders):
            s, off = TRANSFORMS[q % 4]
            if item["test"] == "regression":
                off = 0  # data with a mean: see offset()
            tc = [c * (s if i % 2 else 2) + off * (i + 1) for i, c in enumerate(cols)]
            seq = list(range(k + 2)) if q % 2 else list(range(k + 1, -1, -1))
            md = execute([tc[i] for i in seq], [names[i] for i in seq], cls(threshold=alpha, generator=Fixed([o])))
            sh.add(traces_validated_against_impl=1)
            verdict(sh, md, names, {("A", "B"): (pf(r, m, k), frozenset(zs))}, alpha, "%s m=%d k=%d alpha=%r r=%r loads=%r" % (item["test"], m, k, alpha, r, loads), order=o)
        # the conditioning variables matter, not all variables: leave the last one out
        if k > 1:
            r2 = pcorr(cols, 0, 1, range(2, k + 1))
            md = execute(cols, names, cls(threshold=alpha, generator=Fixed([["A", "B"] + zs[:-1]])))
            sh.add(traces_validated_against_impl=1)
            verdict(sh, md, names, {("A", "B"): (pf(r2, m, k - 1), frozenset(zs[:-1]))}, alpha, "%s m=%d k=%d of %d alpha=%r r=%r" % (item["test"], m, k - 1, k, alpha, r))
        sh.add(states=1)
    sh.sample(item)


OFFSET = "regression without intercept on data with a non-zero mean"


def offset(sh, item):
    """the regression-based test on data with a mean; it leaves out the intercept (known finding): a decision is the
    known finding exactly if it is the one of the regression without intercept, any other wrong decision is reported"""
    m, alpha, loads, k = item["m"], item["alpha"], item["loads"], item["k"]
    names = "ABCDE"[: k + 2]
    zs = list(names[2:])
    for r in [0, 0.4, -0.8, 0.99] + near(student_critical(alpha, m, k)):
        for off in (0.01, 0.3, -5.0, 100.0):
            cols = [c * 2 + off * (i + 1) for i, c in enumerate(loaded(m, r, loads, k))]
            md = execute(cols, names, ExtendedPartialCorrelationTestLinearRegression(threshold=alpha, generator=Fixed([list(names)])))
            sh.add(traces_validated_against_impl=1)
            z = np.stack(cols[2:]).T
            rx, ry = (v - z @ np.linalg.lstsq(z, v, rcond=None)[0] for v in cols[:2])
            raw = float(rx @ ry / math.sqrt((rx @ rx) * (ry @ ry)))
            p, q = student_p(r, m, k), student_p(raw, m, k)
            want = not p > alpha
            got = md.graph.undirected_edge_exists("A", "B")
            if got != want and got == (not q > alpha):
                sh.violation("edge kept iff the test rejects independence", key=OFFSET, got=got, want=want, r=r, uncentred=raw, **item)
            else:
                verdict(sh, md, names, {("A", "B"): (p, frozenset(zs))}, alpha, "offset %r m=%d k=%d alpha=%r r=%r" % (off, m, k, alpha, r))
        sh.add(states=1)
    sh.sample(item)


def run(ctx):
    sizes = ctx.pick([4, 5, 6, 10, 30, 100, 1000], [4, 5, 6, 7, 8, 10, 15, 30, 60, 100, 300, 1000, 5000])
    alphas = ctx.pick([0.001, 0.01, 0.05, 0.1, 0.3, 0.9], [0.0001, 0.001, 0.005, 0.01, 0.05, 0.1, 0.2, 0.3, 0.5, 0.9])
    ctx.explore(pair, [{"m": m, "alphas": [a], "grid": ctx.pick(8, 20)} for m in sizes for a in alphas], name="pairs")
    vals = ctx.pick([0, 0.5, -1.5], [0, 0.3, -0.7, 1, -1.5])
    loads = [[a, b] for a in vals for b in vals]
    ctx.explore(
        triple,
        [{"m": m, "alpha": a, "loads": l} for m in ctx.pick([6, 30, 400], [5, 6, 9, 30, 100, 400]) for a in alphas[:: ctx.pick(2, 2)] + [0.01] for l in loads],
        name="triples",
    )
    l2 = ctx.pick([[0, 0], [0.5, 0.5], [-1.2, 0.8], [0, 1.5], [2, -2]], loads)
    ctx.explore(
        extended,
        [
            {"m": m, "alpha": a, "loads": l, "k": k, "test": t, "all": ctx.thorough}
            for t in EXT
            for k in ctx.pick([1, 2, 3], [1, 2, 3])
            for m in ctx.pick([8, 40, 300], [8, 12, 40, 100, 300])
            for a in ctx.pick([0.005, 0.05, 0.4], [0.001, 0.005, 0.05, 0.1, 0.4])
            for l in l2
        ],
        name="extended",
    )
    ctx.explore(perfect, [{"m": m, "alphas": alphas} for m in sizes if m <= 100], name="collinear")
    ctx.explore(
        perfect_partial,
        [{"m": m, "k": k, "loads": l, "alphas": alphas[::2]} for k in (1, 2, 3) for m in ctx.pick([8, 40, 300], [7, 8, 12, 40, 100, 300]) for l in l2],
        name="collinear given others",
    )
    ctx.explore(
        offset,
        [
            {"m": m, "alpha": a, "loads": l, "k": k}
            for k in [1, 2, 3]
            for m in ctx.pick([8, 40], [8, 12, 40, 100])
            for a in ctx.pick([0.05], [0.005, 0.05, 0.4])
            for l in l2
        ],
        name="regression on data with a mean",
    )
