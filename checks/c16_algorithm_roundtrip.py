"""C16: an algorithm written as JSON or YAML and read back is the same algorithm."""
import copy
import itertools
import json
import os
import shutil

import yaml
from pydantic_yaml import to_yaml_str

from lib import discovery as D
from lib.harness import call
from lib.harness import scratch_dir

from causy.causal_discovery.constraint.independence_tests import common as ind
from causy.causal_discovery.constraint.orientation_rules import fci as fcir
from causy.causal_discovery.constraint.orientation_rules import pc as pcr
from causy.causal_effect_estimation.multivariate_regression import ComputeDirectEffectsInDAGsMultivariateRegression
from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
from causy.common_pipeline_steps.logic import ApplyActionsTogether, Loop
from causy.common_pipeline_steps.placeholder import PlaceholderTest
from causy.contrib.graph_ui import GraphUIExtension
from causy.edge_types import (
    BiDirectedEdge,
    DirectedEdge,
    DirectedEdgeUIConfig,
    UndirectedEdge,
    UndirectedEdgeUIConfig,
)
from causy.generators import (
    AllCombinationsGenerator,
    PairsWithEdgesInBetweenGenerator,
    PairsWithNeighboursGenerator,
    RandomSampleGenerator,
)
from causy.graph_model import graph_model_factory
from causy.interfaces import AS_MANY_AS_FIELDS
from causy.causal_discovery import AVAILABLE_ALGORITHMS
from causy.models import Algorithm, AlgorithmReferenceType, ComparisonSettings
from causy.serialization import (
    CausyJSONEncoder,
    load_algorithm_by_reference,
    load_algorithm_from_specification,
    serialize_algorithm,
)
from causy.variables import BoolVariable, FloatVariable, IntegerVariable, StringVariable, VariableReference

PROPERTY = "C16"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "steps, generators, edge types and variables shipped with causy; hooks and the chunk size of a generator are not part of a specification",
]
BOUNDS = {
    "quick": "13 step classes x 7 generators x 3 thresholds x 2 parallel x 4 nestings x 3 formats; all sets of edge types and extensions; all variable types with all choices; the 4 shipped algorithms with their results on 62 DAGs; all subsets of optional parts left out; hashes of all pairs of algorithms; every named part renamed or removed",
    "thorough": "as quick, with every ordered pair of steps in a pipeline",
}


def V(n):
    return VariableReference(name=n)


def ref(x):
    return ("ref", x.name) if isinstance(x, VariableReference) else ("value", getattr(x, "value", x), type(getattr(x, "value", x)).__name__)


GENS = {
    "all-ref": lambda: AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=V("i"), max=3)),
    "all-fields": lambda: AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=2, max=AS_MANY_AS_FIELDS)),
    "neighbours": lambda: PairsWithNeighboursGenerator(comparison_settings=ComparisonSettings(min=3, max=4), chunked=True, shuffle_combinations=False),
    "neighbours-ref": lambda: PairsWithNeighboursGenerator(comparison_settings=ComparisonSettings(min=2, max=V("i")), chunked=V("b"), shuffle_combinations=V("b")),
    "edges": lambda: PairsWithEdgesInBetweenGenerator(chunked=True),
    "sample": lambda: RandomSampleGenerator(every_nth=V("i"), generator=AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=2, max=V("i")))),
    "default": lambda: None,
}
STEPS = [
    CalculatePearsonCorrelations,
    ind.CorrelationCoefficientTest,
    ind.PartialCorrelationTest,
    ind.ExtendedPartialCorrelationTestMatrix,
    ind.ExtendedPartialCorrelationTestLinearRegression,
    pcr.ColliderTest,
    pcr.NonColliderTest,
    pcr.FurtherOrientTripleTest,
    pcr.OrientQuadrupleTest,
    pcr.FurtherOrientQuadrupleTest,
    fcir.ColliderRuleFCI,
    ComputeDirectEffectsInDAGsMultivariateRegression,
    PlaceholderTest,
]


def variables():
    return [FloatVariable(name="f", value=0.25), IntegerVariable(name="i", value=3, choices=[2, 3]), BoolVariable(name="b", value=False), StringVariable(name="s", value="x")]


def gen_view(g):
    if g is None:
        return None
    cs = g.comparison_settings
    return (
        type(g).__name__,
        None if cs is None else (ref(cs.min), ref(cs.max)),
        ref(g.chunked) if g.chunked is not None else None,
        ref(g.shuffle_combinations),
        ref(g.every_nth),
        gen_view(g.generator),
    )


def view(step):
    """everything that matters, read from the objects (not from their dump)"""
    if hasattr(step, "pipeline_steps"):
        return (type(step).__name__, [view(s) for s in step.pipeline_steps], ref(step.display_name), type(getattr(step, "exit_condition", None)).__name__)
    return (
        type(step).__module__,
        type(step).__name__,
        gen_view(step.generator),
        ref(step.threshold),
        ref(step.chunk_size_parallel_processing),
        ref(step.parallel),
        ref(step.display_name),
        ref(getattr(step, "conflict_resolution_strategy", None)),
        ref(getattr(step, "needs_unapplied_actions", None)),
        ref(getattr(step, "apply_synchronous", None)),
    )


def alg_view(a):
    return {
        "name": a.name,
        "steps": [view(s) for s in a.pipeline_steps],
        "edge_types": [(type(e).__name__, e.name) for e in a.edge_types],
        "extensions": [(type(e).__name__, [json.loads(x.model_dump_json()) for x in getattr(e, "edges", None) or []]) for e in a.extensions or []],
        "variables": [(type(v).__name__, v.name, v.value, type(v.value).__name__, v.choices) for v in a.variables or []],
    }


FORMATS = ("json", "yaml", "dict")


def write(a, fmt):
    d = serialize_algorithm(type("M", (), {"algorithm": a}))
    if fmt == "json":
        return json.loads(json.dumps(d, cls=CausyJSONEncoder))
    if fmt == "yaml":
        return yaml.load(yaml.safe_dump(json.loads(json.dumps(d, cls=CausyJSONEncoder))), Loader=yaml.FullLoader)
    return d


def through_file(a, fmt):
    """the way a workspace ejects a pipeline to a file and loads it by reference"""
    d = scratch_dir()
    old = os.getcwd()
    os.chdir(d)
    try:
        with open("pipeline." + fmt, "w") as f:
            f.write(to_yaml_str(a) if fmt == "yaml" else json.dumps(serialize_algorithm(type("M", (), {"algorithm": a})), indent=4))
        return load_algorithm_by_reference(AlgorithmReferenceType.FILE, "pipeline." + fmt)
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


SEEN = {}


def roundtrip(sh, a, key):
    for fmt in FORMATS:
        before = alg_view(a)
        d = write(a, fmt)
        keep = copy.deepcopy(d)
        b = load_algorithm_from_specification(d)
        sh.add(traces_validated_against_impl=1, transitions=2)
        k = "%s %s" % (fmt, key)
        vb = alg_view(b)
        sh.check(vb == before, "read back: the same algorithm", key="view " + k, fmt=fmt, got=repr(vb)[:700], want=repr(before)[:700])
        sh.check(alg_view(a) == before, "writing does not change the algorithm", key="written " + k)
        sh.check(d == keep, "reading does not change the specification", key="input " + k)
        sh.check(b.hash() == a.hash(), "same hash", key="hash " + k)
        sh.check(SEEN.setdefault(a.hash(), before) == before, "different algorithms have different hashes", key="collision " + k, other=repr(SEEN[a.hash()])[:500], got=repr(before)[:500])
        # written once more, it is the same text
        sh.check(json.dumps(write(b, fmt), sort_keys=True, default=repr) == json.dumps(keep, sort_keys=True, default=repr), "writing it again gives the same specification", key="again " + k)
    ma, mb = graph_model_factory(a)(), graph_model_factory(b)()
    sh.check([view(s) for s in ma.pipeline_steps] == [view(s) for s in mb.pipeline_steps], "the same resolved steps", key="resolved " + key)


def make(cls, gen, th, par, wrap):
    kw = dict(threshold=th, parallel=par, chunk_size_parallel_processing=V("i"), display_name=V("s"))
    g = GENS[gen]()
    if g is not None:
        kw["generator"] = g
    if cls is pcr.ColliderTest:
        kw["conflict_resolution_strategy"] = pcr.ColliderTestConflictResolutionStrategies.KEEP_LAST
    st = cls(**kw)
    if wrap == 1:
        st = Loop(pipeline_steps=[st, cls()], exit_condition=ExitOnNoActions(), display_name="L")
    elif wrap == 2:
        st = ApplyActionsTogether(pipeline_steps=[cls(), st], display_name=V("s"))
    elif wrap == 3:
        st = Loop(pipeline_steps=[Loop(pipeline_steps=[st], exit_condition=ExitOnNoActions(), display_name=V("s")), cls()], exit_condition=ExitOnNoActions(), display_name=V("s"))
    return st


def steps(sh, item):
    cls = STEPS[item["cls"]]
    for gen, th, par, wrap in itertools.product([item["gen"]], ("default", 0.5, "ref"), (False, "ref"), range(4)):
        st = make(cls, gen, {"default": None, "ref": V("f")}.get(th, th), V("b") if par == "ref" else par, wrap)
        a = Algorithm(name="x", pipeline_steps=[st], edge_types=[DirectedEdge(), UndirectedEdge()], variables=variables(), extensions=[])
        sh.add(states=1)
        roundtrip(sh, a, "%s %s %r %r wrap=%d" % (cls.__name__, gen, th, par, wrap))
    sh.sample(cls.__name__)


def pairs(sh, item):
    for j, c2 in enumerate(STEPS):
        c1 = STEPS[item["cls"]]
        a = Algorithm(name="y", pipeline_steps=[c1(threshold=0.2), c2(threshold=V("f"))], edge_types=[UndirectedEdge()], variables=variables(), extensions=[])
        sh.add(states=1)
        roundtrip(sh, a, "pair %s %s" % (c1.__name__, c2.__name__))


def parts(sh, item):
    ets = [DirectedEdge, UndirectedEdge, BiDirectedEdge]
    for k in range(4):
        for es in itertools.permutations(ets, k):
            for exts in ([], [GraphUIExtension(edges=[DirectedEdgeUIConfig(), UndirectedEdgeUIConfig()])], [GraphUIExtension(edges=[UndirectedEdgeUIConfig()])]):
                a = Algorithm(name="a b\u00e9", pipeline_steps=[CalculatePearsonCorrelations()], edge_types=[e() for e in es], extensions=exts, variables=[])
                sh.add(states=1)
                roundtrip(sh, a, "edge types %r %d" % ([e.__name__ for e in es], len(exts)))
    own = {
        StringVariable: ["", "a", "1", "yes", "1e3", "null", "a: b"],
        IntegerVariable: [0, -7, 10**12],
        FloatVariable: [0.0, 0.1, 1e-9, 3.0, -2.5],
        BoolVariable: [True, False],
    }
    for cls, vals in own.items():
        for v in vals:
            for ch in (None, [v], vals):
                a = Algorithm(name="v", pipeline_steps=[ind.CorrelationCoefficientTest(threshold=V("n"))], edge_types=[], extensions=[], variables=[cls(name="n", value=v, choices=ch), FloatVariable(name="other", value=0.5)])
                sh.add(states=1)
                roundtrip(sh, a, "variable %s %r %r" % (cls.__name__, v, ch))


STRINGS = ["", "a", "yes", "no", "on", "off", "y", "N", "NO", "True", "true", "null", "Null", "~", "1", "1.", "1.0", "1e3", "1e-05", "+1", "-0", "07", "0o7", "0x1f", "0b1", "1_000", "12:30", "1:2:3", "2020-01-01", "2020-01-01T10:00:00", ".inf", ".nan", "=", "<<", "-", "- x", "?", "? x", "a: b", "a #b", "#", "@x", "`x", "%a", "!x", "&x", "*x", "|", ">", "{", "}", "[", "]", ",", "'", '"', "\\", " a", "a ", "\t", "a\nb", "\n", "\u00e9", "\u2603", "---", "...", "\U0001f600"]
NUMBERS = [0.0, -0.0, 0.1, 1.0, 3.0, 100.0, 1e-3, 1e-4, 1e-5, 1.5e-5, 1e-9, 5e-324, 1e15, 1e16, 1e22, 1.7976931348623157e308, 0.1 + 0.2, 1 / 3]


def in_files(sh, item):
    """strings and numbers survive the files of a workspace"""
    from causy.common_pipeline_steps.placeholder import PlaceholderTest

    if item["what"] == "strings":
        cases = [(x, 0.5) for x in STRINGS[item["part"] :: 4]]
    else:
        cases = [("s", y) for y in NUMBERS]
    for x, y in cases:
        for shape in range(3):
            # as a parameter, as the value, the choices and the name of a variable, inside of a logic step
            st = [PlaceholderTest(placeholder_str=x, placeholder_float=y, display_name=x or "d", generator=None, threshold=y)]
            vs = []
            if shape == 1:
                st = [PlaceholderTest(placeholder_str=V(x or "n"), placeholder_float=V("f"), generator=None)]
                vs = [StringVariable(name=x or "n", value=x, choices=[x, "other"]), FloatVariable(name="f", value=y, choices=[y, 7.25])]
            elif shape == 2:
                st = [Loop(pipeline_steps=st, exit_condition=ExitOnNoActions(), display_name=x or "d")]
            a = Algorithm(name=x or "n", pipeline_steps=st, edge_types=[DirectedEdge()], extensions=[], variables=vs)
            want = alg_view(a)
            sh.add(states=1)
            for fmt in ("json", "yaml"):
                b = call(through_file, copy.deepcopy(a), fmt)
                sh.add(traces_validated_against_impl=1, transitions=2)
                k = "file %s %r %r %d" % (fmt, x, y, shape)
                if not sh.check(b[0] == "ok", "an algorithm written to a file can be read", key="read " + k, got=repr(b)[:300]):
                    continue
                got = alg_view(b[1])
                sh.check(got == want and b[1].name == a.name, "an algorithm written to a file is read back", key="view " + k, got=repr(got)[:500], want=repr(want)[:500])
                sh.check(b[1].hash() == a.hash(), "same hash", key="hash " + k)


OPTIONAL = ("extensions", "variables", "pre_graph_update_hooks", "post_graph_update_hooks")


def optional(sh, item):
    """in a specification, what is empty may be left out or null"""
    a = Algorithm(name="o", pipeline_steps=[CalculatePearsonCorrelations(), ind.CorrelationCoefficientTest(threshold=0.5)], edge_types=[DirectedEdge()], extensions=[], variables=[])
    for fmt in FORMATS:
        for states in itertools.product(("kept", "null", "left out"), repeat=len(OPTIONAL)):
            d = write(copy.deepcopy(a), fmt)
            for k, st in zip(OPTIONAL, states):
                if st == "null":
                    d[k] = None
                elif st == "left out":
                    d.pop(k, None)
            keep = copy.deepcopy(d)
            b = call(load_algorithm_from_specification, d)
            sh.add(states=1, traces_validated_against_impl=1, transitions=1)
            key = "optional %s %r" % (fmt, states)
            if not sh.check(b[0] == "ok", "a specification without optional parts can be read", key=key, got=repr(b)[:300]):
                continue
            sh.check([view(x) for x in b[1].pipeline_steps] == [view(x) for x in a.pipeline_steps] and b[1].name == "o" and not b[1].extensions and not b[1].variables and len(b[1].edge_types) == 1, "a specification without optional parts is the same algorithm", key="same " + key, got=repr(b[1])[:400])
            sh.check(d == keep, "reading does not change the specification", key="input " + key)


def places(x, path=()):
    """all parts of a specification that name something to be looked up"""
    if isinstance(x, dict):
        if x.get("type") == "reference":
            return
        if path and "name" in x and x.get("name"):
            if path[0] == "variables":
                yield path + ("type",)
            else:
                yield path + ("name",)
        for k, v in x.items():
            yield from places(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from places(v, path + (i,))


def malformed(sh, item):
    """a specification that names something that does not exist is refused"""
    th = V("f")
    a = Algorithm(
        name="m",
        pipeline_steps=[
            CalculatePearsonCorrelations(),
            ind.CorrelationCoefficientTest(threshold=th),
        ]
        + [make(ind.ExtendedPartialCorrelationTestMatrix, g, 0.05, False, w) for g, w in (("neighbours", 1), ("edges", 2), ("sample", 3))],
        edge_types=[DirectedEdge(), UndirectedEdge()],
        extensions=[],
        variables=variables(),
    )
    for fmt in FORMATS:
        good = write(copy.deepcopy(a), fmt)
        sh.check(call(load_algorithm_from_specification, copy.deepcopy(good))[0] == "ok", "a specification can be read", key="malformed base")
        for path in places(good):
            if "comparison_settings" in path:
                continue
            for how in ("renamed", "in a module that does not exist", "removed"):
                d = copy.deepcopy(good)
                x = d
                for k in path[:-1]:
                    x = x[k]
                if how == "removed":
                    if path[-2:] == ("generator", "name") or "generator" in path:
                        continue
                    del x[path[-1]]
                elif how == "renamed":
                    x[path[-1]] += "Nope"
                else:
                    x[path[-1]] = "causy.nope." + x[path[-1]].split(".")[-1]
                b = call(load_algorithm_from_specification, d)
                sh.add(states=1, transitions=1, traces_validated_against_impl=1)
                sh.check(b[0] != "ok", "a specification that names something unknown is refused", key="malformed %s %r %s" % (fmt, path, how), got=repr(b)[:300])


def shipped(sh, item):
    from lib import graphs as G

    M = D.ALGS[item["alg"]]
    a = M._original_algorithm
    sh.add(states=1)
    roundtrip(sh, copy.deepcopy(a), "shipped " + item["alg"])
    for fmt in FORMATS + ("json file", "yaml file", "name"):
        if fmt == "name":
            if item["alg"] not in AVAILABLE_ALGORITHMS:
                continue
            b = load_algorithm_by_reference(AlgorithmReferenceType.NAME, item["alg"])
        elif fmt in FORMATS:
            b = load_algorithm_from_specification(write(copy.deepcopy(a), fmt))
        else:
            b = through_file(copy.deepcopy(a), fmt.split()[0])
        sh.check(alg_view(b) == alg_view(a) and b.hash() == a.hash(), "a shipped algorithm is read back", key="shipped %s %s" % (fmt, item["alg"]), got=repr(alg_view(b))[:600])
        MB = graph_model_factory(b)
        for i, d in enumerate(G.iso_classes(4)):
            for perm in ((0, 1, 2, 3), (2, 3, 0, 1)):
                dag = G.relabel(d, perm)
                cols, w = D.data(4, dag)
                got = D.arcs(D.fit(MB, cols, "ABCD"), "ABCD")
                sh.add(traces_validated_against_impl=1, transitions=1)
                sh.check(got == G.cpdag(4, dag), "a reloaded algorithm discovers the same graph", key="shipped run %s %s %r" % (item["alg"], fmt, sorted(dag)), got=sorted(got))


def run(ctx):
    ctx.explore(steps, [{"cls": i, "gen": g} for i in range(len(STEPS)) for g in GENS], name="steps")
    ctx.explore(parts, [{}], name="edge types, extensions, variables")
    ctx.explore(in_files, [{"what": "strings", "part": i} for i in range(4)] + [{"what": "numbers"}], name="strings and numbers in files")
    ctx.explore(optional, [{}], name="optional parts")
    ctx.explore(malformed, [{}], name="unknown names")
    ctx.explore(shipped, [{"alg": a} for a in sorted(D.ALGS)], name="shipped algorithms", limit=600)
    if ctx.thorough:
        ctx.explore(pairs, [{"cls": i} for i in range(len(STEPS))], name="pairs of steps")
