"""Running the orientation rules on given skeletons, separating sets and PDAGs."""
import itertools

from lib import graphs as G

from causy.causal_discovery.constraint.orientation_rules.pc import (
    ColliderTest,
    FurtherOrientQuadrupleTest,
    FurtherOrientTripleTest,
    NonColliderTest,
    OrientQuadrupleTest,
)
from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
from causy.common_pipeline_steps.logic import Loop
from causy.edge_types import DirectedEdge, UndirectedEdge
from causy.graph_model import graph_model_factory
from causy.interfaces import GeneratorInterface, PipelineStepInterface
from causy.models import Algorithm, TestResult, TestResultAction


class Removals:
    """what the (scripted) independence tests decide: [(u, v, sepset)], given as ids"""

    todo = []


class RemovalGenerator(GeneratorInterface):
    def __init__(self, **k):
        super().__init__(chunked=False)

    def generate(self, graph, graph_model_instance_):
        for i in range(len(Removals.todo)):
            yield (i,)


class RemovalStep(PipelineStepInterface):
    parallel: bool = False

    def __init__(self, **k):
        super().__init__(generator=RemovalGenerator(), **k)

    def process(self, nodes, graph, unapplied_actions=None):
        u, v, z = Removals.todo[nodes[0]]
        n = graph.nodes
        if z in ("restore", "direct"):
            # the edge is put back; only the direction u -> v is removed
            kind = TestResultAction.RESTORE_EDGE if z == "restore" else TestResultAction.REMOVE_EDGE_DIRECTED
            return TestResult(u=n[u], v=n[v], action=kind, data={})
        if z is None:
            return TestResult(u=n[u], v=n[v], action=TestResultAction.REMOVE_EDGE_UNDIRECTED, data={})
        return TestResult(
            u=n[u],
            v=n[v],
            action=TestResultAction.REMOVE_EDGE_UNDIRECTED,
            data={"separatedBy": [n[i] for i in z], "triple": [n[u], n[v], [n[i] for i in z]]},
        )


def loop():
    return Loop(
        pipeline_steps=[NonColliderTest(), FurtherOrientTripleTest(), OrientQuadrupleTest(), FurtherOrientQuadrupleTest()],
        exit_condition=ExitOnNoActions(),
    )


_MODELS = {}


def make(strategy=None, rules=False):
    key = (strategy, rules)
    if key not in _MODELS:
        steps = []
        if strategy:
            steps += [RemovalStep(), ColliderTest(conflict_resolution_strategy=strategy)]
        if rules:
            steps.append(loop())
        _MODELS[key] = graph_model_factory(
            Algorithm(name="orient", pipeline_steps=steps, edge_types=[DirectedEdge(), UndirectedEdge()], extensions=[])
        )
    return _MODELS[key]()


RULES = {1: NonColliderTest, 2: FurtherOrientTripleTest, 3: OrientQuadrupleTest, 4: FurtherOrientQuadrupleTest}


def single(rule, repeat):
    """a model that runs one rule, once or until nothing changes"""
    key = ("single", rule, repeat)
    if key not in _MODELS:
        steps = [RULES[rule]()]
        if repeat:
            steps = [Loop(pipeline_steps=steps, exit_condition=ExitOnNoActions())]
        _MODELS[key] = graph_model_factory(
            Algorithm(name="rule", pipeline_steps=steps, edge_types=[DirectedEdge(), UndirectedEdge()], extensions=[])
        )
    return _MODELS[key]()


def meek(rule, n, arcs):
    """the arrows (a, b) that the premise of Meek's rule gives to undirected edges"""
    d = {a for a in arcs if (a[1], a[0]) not in arcs}
    u = {a for a in arcs if (a[1], a[0]) in arcs}
    adj = lambda a, b: (a, b) in arcs or (b, a) in arcs
    out = set()
    for a, b in u:
        others = [c for c in range(n) if c not in (a, b)]
        if rule == 1:
            hit = any((c, a) in d and not adj(c, b) for c in others)
        elif rule == 2:
            hit = any((a, c) in d and (c, b) in d for c in others)
        elif rule == 3:
            hit = any((a, c) in u and (a, e) in u and (c, b) in d and (e, b) in d and not adj(c, e) for c, e in itertools.combinations(others, 2))
        else:
            hit = any((a, c) in u and (a, e) in u and (c, e) in d and (e, b) in d and not adj(c, b) for c, e in itertools.permutations(others, 2))
        if hit:
            out.add((a, b))
    return out


def names(n):
    return ["v%d" % i for i in range(n)]


def from_tests(n, skeleton, sep, strategy, rules, flip=False):
    """start from the complete graph, let the tests remove every pair not in the
    skeleton with its separating set, then run collider orientation (and rules)"""
    m = make(strategy, rules)
    ids = names(n)
    m.create_graph_from_data({i: [1.0, 2.0, 4.0] for i in ids})
    m.create_all_possible_edges()
    todo = []
    for a, b in G.pairs(n):
        if (a, b) not in skeleton:
            u, v = (ids[b], ids[a]) if flip and (a + b) % 2 else (ids[a], ids[b])
            todo.append((u, v, [ids[i] for i in sep.get((a, b), [])]))
    Removals.todo = todo[::-1] if flip else todo
    m.execute_pipeline_steps()
    return m


def from_script(n, todo, strategy):
    """collider orientation after any decisions"""
    m = make(strategy, False)
    ids = names(n)
    m.create_graph_from_data({i: [1.0, 2.0, 4.0] for i in ids})
    m.create_all_possible_edges()
    Removals.todo = [(ids[a], ids[b], [ids[i] for i in z] if isinstance(z, (list, tuple)) else z) for a, b, z in todo]
    m.execute_pipeline_steps()
    return m


def mixed_reference(n, start, sep, strategy):
    """as orient_reference, from a graph in which some edges have a direction already"""
    arcs = set(start)
    adj = lambda a, b: (a, b) in start or (b, a) in start
    for x, y in G.pairs(n):
        for z in range(n):
            if adj(x, y) or z in (x, y) or (x, z) not in start or (y, z) not in start or z in sep.get((x, y), []):
                continue
            if (x, z) not in arcs or (y, z) not in arcs:
                if strategy == "KEEP_FIRST":
                    continue
                arcs |= {(x, z), (y, z)}
            arcs -= {(z, x), (z, y)}
    return frozenset(arcs)


def from_pdag(n, arcs, manager_builder, model=None):
    m = model or make(None, True)
    ids = names(n)
    m.create_graph_from_data({i: [1.0, 2.0, 4.0] for i in ids})
    manager_builder(n, arcs, m.graph)
    m.execute_pipeline_steps()
    return m


def extensions(n):
    """skeleton -> [(dag, v-structures)]"""
    by = {}
    for d in G.all_dags(n):
        by.setdefault(G.skeleton(d), []).append((d, G.v_structures(n, d)))
    return by


def pdag_v_structures(n, arcs):
    d = [a for a in arcs if (a[1], a[0]) not in arcs]
    sk = G.skeleton(arcs)
    out = set()
    for c in range(n):
        pa = sorted(a for a, b in d if b == c)
        for x, y in itertools.combinations(pa, 2):
            if (x, y) not in sk:
                out.add((x, c, y))
    return frozenset(out)


def colliders(n, skeleton, sep):
    """unshielded triples (x, y, z) which the separating sets make colliders at z,
    in the order of the pairs (x, y) and of z"""
    adj = lambda a, b: (min(a, b), max(a, b)) in skeleton
    return [
        (x, y, z)
        for x, y in G.pairs(n)
        if not adj(x, y)
        for z in range(n)
        if z not in (x, y) and adj(x, z) and adj(y, z) and z not in sep.get((x, y), [])
    ]


def orient_reference(n, skeleton, sep, strategy):
    """arcs after collider orientation, and whether any two colliders contradict"""
    arcs = {a for p in skeleton for a in (p, p[::-1])}
    conflict = False
    for x, y, z in colliders(n, skeleton, sep):
        if (x, z) not in arcs or (y, z) not in arcs:
            conflict = True
            if strategy == "KEEP_FIRST":
                continue
            arcs |= {(x, z), (y, z)}
        arcs -= {(z, x), (z, y)}
    return frozenset(arcs), conflict


def pattern_closure(n, dag):
    """too many DAGs to enumerate: pattern and Meek's rules"""
    arcs = {a for p in G.skeleton(dag) for a in (p, p[::-1])}
    for x, c, y in G.v_structures(n, dag):
        arcs -= {(c, x), (c, y)}
    while True:
        more = {(b, a) for r in (1, 2, 3) for a, b in meek(r, n, arcs)}
        if not more:
            return frozenset(arcs)
        arcs -= more
