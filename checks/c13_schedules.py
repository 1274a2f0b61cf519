"""C13: parallel execution gives the same graph under every schedule of the
worker pool and every outcome of the random choices."""
import copy
import itertools
import random

from lib import discovery as D
from lib import graphs as G
from lib.stubs import FakePool

from causy.causal_discovery.constraint.algorithms.pc import ParallelPC
from causy.causal_discovery.constraint.independence_tests.common import CorrelationCoefficientTest, PartialCorrelationTest
from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
from causy.edge_types import DirectedEdge, UndirectedEdge
from causy.graph_model import graph_model_factory
from causy.generators import AllCombinationsGenerator
from causy.interfaces import PipelineStepInterface
from causy.models import Algorithm, ComparisonSettings, TestResult, TestResultAction
from checks import c12_invariance as C12

PROPERTY = "C13"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "the worker pool is replaced by a scheduler with the semantics of multiprocessing.Pool.imap_unordered: tasks are "
    "pickled when a chunk is built, chunks complete in any order, results are applied as they arrive",
    "schedules are enumerated exhaustively up to a number of deviations from the default schedule",
    "shuffles are enumerated as rotations of the combination list, sampling decisions individually",
]
BOUNDS = {
    "quick": "steps of up to 5995 tasks, 3 fixed schedules; ParallelPC: one DAG of each of the 185 4-node Markov equivalence classes with <= 1 deviation, 31 isomorphism classes x 2 labelings with <= 2 deviations (first 150 each), chunk sizes 1 and 2; test steps alone: every schedule of 4 triples, 42 data sets; 512 steps whose three tests look at the graph: every schedule",
    "thorough": "ParallelPC: all 543 4-node DAGs with <= 2 deviations, isomorphism classes with <= 3; 5-node classes with 1; every schedule of the test steps on 840 data sets; the 512 steps from 5 graphs, both kinds of removal, chunk sizes 1 and 2",
}


class Chooser:
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.trace = []

    def __call__(self, n, what):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        c = min(c, n - 1)
        self.trace.append((c, n))
        return c


class controlled:
    """every choice of the pool and of the random module goes through ch"""

    def __init__(self, ch, rnd=True):
        self.ch, self.rnd = ch, rnd

    def __enter__(self):
        ch = self.ch
        self.old = (FakePool.__dict__["choose"], random.shuffle, random.randint)
        FakePool.choose = staticmethod(ch)
        if self.rnd:

            def shuffle(x):
                if len(x) > 1:
                    r = ch(min(len(x), 4), "shuffle")
                    x[:] = x[r:] + x[:r]

            def randint(a, b):
                return b if ch(2, "randint") == 0 else a

            random.shuffle, random.randint = shuffle, randint
        random.seed(1)

    def __exit__(self, *a):
        FakePool.choose, random.shuffle, random.randint = self.old[0], self.old[1], self.old[2]
        return False


def schedules(run, deviations, cap):
    """depth-first over all choice sequences with at most `deviations` non-default choices"""
    stack = [([], 0)]
    n = 0
    while stack and n < cap:
        prefix, dev = stack.pop()
        trace = run(prefix)
        n += 1
        yield trace
        if dev < deviations:
            for i in range(len(prefix), len(trace)):
                for c in range(1, trace[i][1]):
                    stack.append(([x[0] for x in trace[:i]] + [c], dev + 1))
    if stack:
        yield None


_M = {}


def parallel_model(chunk):
    if chunk not in _M:
        a = copy.deepcopy(ParallelPC._original_algorithm)
        for s in a.pipeline_steps:
            if getattr(s, "parallel", False) is True:
                s.chunk_size_parallel_processing = chunk
        _M[chunk] = graph_model_factory(a)
    return _M[chunk]


def discovery(sh, item):
    n = item["n"]
    names = D.NAMES[:n]
    for d in item["dags"]:
        dag = G.from_item(d)
        cols, w = D.data(n, dag)
        want = G.cpdag(n, dag)
        for chunk in item["chunks"]:
            M = parallel_model(chunk)
            sh.add(states=1)

            def run(prefix):
                ch = Chooser(prefix)
                with controlled(ch):
                    m = D.fit(M, cols, names)
                got = D.arcs(m, names)
                sh.check(
                    got == want,
                    "result does not depend on the schedule",
                    key="parallel dag=%r chunk=%d choices=%r" % (d, chunk, [c for c, _ in ch.trace]),
                    dag=d,
                    choices=[c for c, _ in ch.trace],
                    got=sorted(got),
                    want=sorted(want),
                )
                return ch.trace

            for t in schedules(run, item["dev"], item["cap"]):
                if t is None:
                    sh.add(capped=1)
                else:
                    sh.add(traces_validated_against_impl=1, transitions=len(t))
        sh.sample([d, item["dev"]])


def steps_model(parallel, chunk):
    key = ("steps", parallel, chunk)
    if key not in _M:
        kw = {"parallel": parallel, "chunk_size_parallel_processing": chunk}
        _M[key] = graph_model_factory(
            Algorithm(
                name="steps",
                pipeline_steps=[CalculatePearsonCorrelations(), CorrelationCoefficientTest(threshold=0.05), PartialCorrelationTest(threshold=0.05, **kw)],
                edge_types=[DirectedEdge(), UndirectedEdge()],
                extensions=[],
            )
        )
    return _M[key]


def skeleton(M, cols):
    m = M()
    m.create_graph_from_data({k: list(map(float, c)) for k, c in zip(C12.NAMES, cols)})
    m.create_all_possible_edges()
    m.execute_pipeline_steps()
    return C12.result(m, C12.NAMES)[0]


def steps(sh, item):
    for combo in item["combos"]:
        cols = [C12.BASE[i] for i in combo]
        if not C12.decided(cols):
            continue
        want = skeleton(steps_model(False, 1), cols)
        for chunk in (1, 2):
            sh.add(states=1)

            def run(prefix):
                ch = Chooser(prefix)
                with controlled(ch):
                    got = skeleton(steps_model(True, chunk), cols)
                sh.check(got == want, "parallel tests remove the same edges as sequential ones", key="steps %r chunk=%d" % (combo, chunk), combo=combo, choices=[c for c, _ in ch.trace], got=got, want=want)
                return ch.trace

            for t in schedules(run, 99, 2000):
                if t is None:
                    sh.add(capped=1)
                else:
                    sh.add(traces_validated_against_impl=1, transitions=len(t))


PAIRS = (("A", "B"), ("A", "C"), ("B", "C"))
# when a test of the pair removes its edge: always, never, or depending on whether some edge exists / is directed one way
CONDITIONS = ["always", "never"] + [(w, i) for w in ("exists", "missing") for i in range(3)]


class Conditional(PipelineStepInterface):
    """removes the edge of a pair depending on the graph the test sees"""

    conditions: list = []
    parallel: bool = True
    chunk_size_parallel_processing: int = 1

    def process(self, nodes, graph):
        c = self.conditions[PAIRS.index(tuple(sorted(nodes)))]
        if c not in ("always", "never"):
            there = graph.edge_exists(*(graph.nodes[x] for x in PAIRS[c[1]]))
            c = "always" if there == (c[0] == "exists") else "never"
        if c == "never":
            return None
        u, v = (graph.nodes[x] for x in nodes)
        action = TestResultAction.REMOVE_EDGE_UNDIRECTED if self.undirected else TestResultAction.REMOVE_EDGE_DIRECTED
        return TestResult(u=u, v=v, action=action, data={})

    undirected: bool = True


def conditional(sh, item):
    """all tests of a step see the graph as it was before the step, whatever the pool does"""
    gen = AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=2, max=2))
    for conds in item["conds"]:
        for undirected in item["undirected"]:
            start = item["start"]  # pairs without an edge
            want = set()
            for i, c in enumerate(conds):
                if i in start:
                    continue
                gone = c == "always" or (c != "never" and (c[1] not in start) == (c[0] == "exists"))
                if not (gone and undirected):
                    want.add(PAIRS[i][::-1])
                if not gone:
                    want.add(PAIRS[i])
            for chunk in item["chunks"]:
                sh.add(states=1)
                M = graph_model_factory(
                    Algorithm(
                        name="conditional",
                        pipeline_steps=[Conditional(generator=gen, conditions=[list(c) if c not in ("always", "never") else c for c in conds], undirected=undirected, chunk_size_parallel_processing=chunk)],
                        edge_types=[DirectedEdge(), UndirectedEdge()],
                        extensions=[],
                    )
                )

                def run(prefix):
                    ch = Chooser(prefix)
                    with controlled(ch):
                        m = M()
                        m.create_graph_from_data({k: [1.0, 2.0] for k in "ABC"})
                        m.create_all_possible_edges()
                        for i in start:
                            m.graph.remove_edge(m.graph.nodes[PAIRS[i][0]], m.graph.nodes[PAIRS[i][1]])
                        m.execute_pipeline_steps()
                    got = {(u, v) for u in "ABC" for v in "ABC" if u != v and m.graph.directed_edge_exists(u, v)}
                    sh.check(got == want, "every test sees the graph as it was before the step", key="conditional %r start=%r chunk=%d" % (conds, start, chunk), choices=[c for c, _ in ch.trace], got=sorted(got), want=sorted(want))
                    return ch.trace

                for t in schedules(run, 99, 2000):
                    sh.add(**({"capped": 1} if t is None else {"traces_validated_against_impl": 1, "transitions": len(t)}))


class Thirds(PipelineStepInterface):
    """proposes to remove every third pair"""

    parallel: bool = True
    chunk_size_parallel_processing: int = 1

    def process(self, nodes, graph):
        a, b = (graph.nodes[x] for x in nodes)
        if (int(a.name[1:]) + int(b.name[1:])) % 3:
            return None
        return TestResult(u=a, v=b, action=TestResultAction.REMOVE_EDGE_UNDIRECTED, data={})


def many(sh, item):
    """a parallel step with many tasks"""
    n = item["n"]
    gen = AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=2, max=2))
    M = graph_model_factory(
        Algorithm(
            name="thirds",
            pipeline_steps=[Thirds(generator=gen, chunk_size_parallel_processing=item["chunk"])],
            edge_types=[DirectedEdge(), UndirectedEdge()],
            extensions=[],
        )
    )
    for choice in (0, 1, 2):
        with controlled(lambda k, what: min(choice, k - 1)):
            m = M()
            m.create_graph_from_data({"v%d" % i: [1.0, 2.0] for i in range(n)})
            nd = m.graph.nodes
            pairs = [(i, j) for i in range(n) for j in (i + 1, i + 2, n - 1) if i < j < n]
            for i, j in sorted(set(pairs)):
                m.graph.add_edge(nd["v%d" % i], nd["v%d" % j], {})
            m.execute_pipeline_steps()
        got = {(i, j) for i in range(n) for j in range(i + 1, n) if m.graph.undirected_edge_exists(nd["v%d" % i], nd["v%d" % j])}
        want = {(i, j) for i, j in pairs if (i + j) % 3}
        sh.add(states=1, traces_validated_against_impl=1, transitions=n * (n - 1) // 2)
        sh.check(got == want, "every task of a parallel step is done", key="many n=%d chunk=%d choice=%d" % (n, item["chunk"], choice), missing=sorted(got ^ want)[:20])
        asked = sorted(tuple(sorted((int(a.u.id[1:]), int(a.v.id[1:])))) for s in m.graph.action_history for a in s.all_proposed_actions)
        sh.check(asked == sorted((i, j) for i in range(n) for j in range(i + 1, n) if not (i + j) % 3), "every task of a parallel step is asked once", key="many asked n=%d chunk=%d choice=%d" % (n, item["chunk"], choice), got=len(asked))


def run(ctx):
    ctx.explore(many, [{"n": n, "chunk": c} for n, c in ((24, 1), (24, 7), (50, 100), (50, 5000), (110, 1000), (110, 4097))], name="many tasks", limit=300)
    allc = list(itertools.product(CONDITIONS, repeat=3))
    ctx.explore(
        conditional,
        [
            {"conds": allc[i::64], "start": list(st), "undirected": un, "chunks": ch}
            for i in range(64)
            for st, un, ch in ctx.pick([((), [True], [1]), ((2,), [False], [2])], [(st, [True, False], [1, 2]) for st in ((), (0,), (1,), (2,), (0, 1))])
        ],
        name="tests that look at the graph",
        limit=3600,
    )
    dags = [G.to_item(d) for d in (G.all_dags(4) if ctx.thorough else sorted((m for _, m in G.cpdag_classes(4)), key=sorted))]
    ctx.explore(discovery, [{"n": 4, "dags": dags[i::128], "chunks": [1], "dev": ctx.pick(1, 2), "cap": 10**6} for i in range(128)], name="DAGs", limit=7200)
    iso = [G.to_item(G.relabel(d, p)) for d in G.iso_classes(4) for p in ((0, 1, 2, 3), (3, 1, 0, 2))]
    ctx.explore(
        discovery,
        [{"n": 4, "dags": [d], "chunks": [c], "dev": ctx.pick(2, 3), "cap": ctx.pick(150, 20000)} for d in iso for c in (1, 2)],
        name="isomorphism classes",
        limit=7200,
    )
    cs = C12.combos(7)
    cs = cs if ctx.thorough else cs[::20]
    ctx.explore(steps, [{"combos": cs[i::64]} for i in range(64)], name="test steps", limit=3600)
    if ctx.thorough:
        G.iso_classes(5)
        G.cpdag(5, frozenset())
        ctx.explore(discovery, [{"n": 5, "dags": [G.to_item(d)], "chunks": [1, 3], "dev": 1, "cap": 3000} for d in G.iso_classes(5)], name="5-node classes", limit=7200)
