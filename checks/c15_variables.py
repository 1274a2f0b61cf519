"""C15: every variable reference in an algorithm takes the value given for it,
else its default; nothing leaks between models; invalid values are rejected."""
import itertools

from lib.harness import call

from causy.causal_discovery.constraint.independence_tests.common import (
    CorrelationCoefficientTest,
    ExtendedPartialCorrelationTestMatrix,
    PartialCorrelationTest,
)
from causy.causal_discovery.constraint.orientation_rules.pc import ColliderTest, NonColliderTest
from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
from causy.common_pipeline_steps.logic import ApplyActionsTogether, Loop
from causy.edge_types import DirectedEdge, UndirectedEdge
from causy.generators import AllCombinationsGenerator, PairsWithNeighboursGenerator, RandomSampleGenerator
from causy.graph_model import graph_model_factory
from causy.models import Algorithm, ComparisonSettings
from causy.variables import (
    BoolVariable,
    FloatVariable,
    IntegerVariable,
    StringVariable,
    VariableReference,
    resolve_variables,
    validate_variable_values,
)

PROPERTY = "C15"
LEVEL = "model_checking"
ASSUMPTIONS = ["algorithms built from the shipped steps, and, in one part, as many variables of one type as wanted"]
BOUNDS = {
    "quick": "14 parameter slots: every pair and triple of slots x every choice of variables x every subset of given values (two models per algorithm); every (type, value, choices) combination for validation; 12 and 40 variables in loops and groups nested up to 9 deep",
    "thorough": "as quick with every set of 4 slots",
}

# slot -> (type, literal)
SLOTS = {
    "threshold": ("f", 0.31),
    "chunk": ("i", 17),
    "parallel": ("b", False),
    "display": ("s", "literal"),
    "loop.threshold": ("f", 0.32),
    "loop.display": ("s", "loop literal"),
    "loop.loop.chunk": ("i", 18),
    "together.threshold": ("f", 0.33),
    "together.gen.min": ("i", 4),
    "together.gen.max": ("i", 6),
    "together.gen.shuffle": ("b", True),
    "sample.every": ("i", 19),
    "sample.gen.min": ("i", 3),
    "collider.strategy": ("s", "KEEP_LAST"),
}
VARS = {
    "f": [("fa", 0.01, 0.11), ("fb", 0.02, 0.22)],
    "i": [("ia", 5, 50), ("ib", 6, 60)],
    "b": [("ba", True, False), ("bb", False, True)],
    "s": [("sa", "KEEP_FIRST", "KEEP_LAST"), ("sb", "x", "y z")],
}
CLS = {"f": FloatVariable, "i": IntegerVariable, "b": BoolVariable, "s": StringVariable}


def algorithm(refs):
    """refs: {slot: variable name}"""

    def p(slot):
        return VariableReference(name=refs[slot]) if slot in refs else SLOTS[slot][1]

    used = sorted(set(refs.values()))
    variables = [CLS[t](name=n, value=d) for t, vs in VARS.items() for n, d, _ in vs if n in used]
    return Algorithm(
        name="vars",
        pipeline_steps=[
            CalculatePearsonCorrelations(),
            CorrelationCoefficientTest(threshold=p("threshold"), chunk_size_parallel_processing=p("chunk"), parallel=p("parallel"), display_name=p("display")),
            Loop(
                pipeline_steps=[
                    PartialCorrelationTest(threshold=p("loop.threshold"), display_name=p("loop.display")),
                    Loop(pipeline_steps=[NonColliderTest(chunk_size_parallel_processing=p("loop.loop.chunk"))], exit_condition=ExitOnNoActions()),
                ],
                exit_condition=ExitOnNoActions(),
            ),
            ApplyActionsTogether(
                pipeline_steps=[
                    ExtendedPartialCorrelationTestMatrix(
                        threshold=p("together.threshold"),
                        generator=PairsWithNeighboursGenerator(
                            comparison_settings=ComparisonSettings(min=p("together.gen.min"), max=p("together.gen.max")),
                            shuffle_combinations=p("together.gen.shuffle"),
                        ),
                    )
                ]
            ),
            ExtendedPartialCorrelationTestMatrix(
                threshold=0.5,
                generator=RandomSampleGenerator(
                    generator=PairsWithNeighboursGenerator(comparison_settings=ComparisonSettings(min=p("sample.gen.min"), max=9), chunked=False, shuffle_combinations=False),
                    chunked=False,
                    every_nth=p("sample.every"),
                ),
            ),
            ColliderTest(conflict_resolution_strategy=p("collider.strategy")),
        ],
        edge_types=[DirectedEdge(), UndirectedEdge()],
        extensions=[],
        variables=variables or None,
    )


def read(steps):
    _, a, b, c, d, e = steps
    bb = b.pipeline_steps
    cc = c.pipeline_steps[0]
    return {
        "threshold": a.threshold,
        "chunk": a.chunk_size_parallel_processing,
        "parallel": a.parallel,
        "display": a.display_name,
        "loop.threshold": bb[0].threshold,
        "loop.display": bb[0].display_name,
        "loop.loop.chunk": bb[1].pipeline_steps[0].chunk_size_parallel_processing,
        "together.threshold": cc.threshold,
        "together.gen.min": cc.generator.comparison_settings.min,
        "together.gen.max": cc.generator.comparison_settings.max,
        "together.gen.shuffle": cc.generator.shuffle_combinations,
        "sample.every": d.generator.every_nth,
        "sample.gen.min": d.generator.generator.comparison_settings.min,
        "collider.strategy": e.conflict_resolution_strategy,
    }


def plain(d):
    return {k: ("ref", v.name) if isinstance(v, VariableReference) else (type(v).__name__, v if not hasattr(v, "value") else v.value) for k, v in d.items()}


def expected(refs, given):
    defaults = {n: x for vs in VARS.values() for n, x, _ in vs}
    return {k: given.get(refs[k], defaults[refs[k]]) if k in refs else lit for k, (_, lit) in SLOTS.items()}


def refs_of(sh, item):
    for slots in item["slots"]:
        for names in itertools.product(*[[v[0] for v in VARS[SLOTS[s][0]]] for s in slots]):
            refs = dict(zip(slots, names))
            used = sorted(set(names))
            other = {n: o for vs in VARS.values() for n, _, o in vs}
            alg = algorithm(refs)
            dump = plain(read(alg.pipeline_steps))
            hash0 = alg.hash()
            prev = None
            sh.add(states=1)
            for k in range(len(used) + 1):
                for sub in itertools.combinations(used, k):
                    given = {n: other[n] for n in sub}
                    keep = dict(given)
                    key = "%r %r" % (refs, given)
                    M = graph_model_factory(alg, given)
                    m = M()
                    sh.add(traces_validated_against_impl=1, transitions=len(refs))
                    want = plain({k: v for k, v in expected(refs, given).items()})
                    got = plain(read(m.pipeline_steps))
                    sh.check(got == want, "resolved values", key="resolve " + key, got={k: v for k, v in got.items() if v != want[k]}, refs=refs, given=given)
                    sh.check(plain(read(alg.pipeline_steps)) == dump and alg.hash() == hash0 and given == keep, "the given algorithm is not changed", key="leak " + key, refs=refs, given=given)
                    sh.check(plain(read(M._original_algorithm.pipeline_steps)) == dump, "the original algorithm keeps its references", key="original " + key, refs=refs, given=given)
                    sh.check({v.name: v.value for v in (alg.variables or [])} == {n: x for vs in VARS.values() for n, x, _ in vs if n in used}, "defaults are not changed", key="defaults " + key)
                    if prev is not None:
                        pm, pw, pM = prev
                        sh.check(plain(read(pm.pipeline_steps)) == pw, "an earlier model keeps its values", key="earlier " + key, refs=refs, given=given)
                        sh.check(plain(read(pM().pipeline_steps)) == pw, "a new model of an earlier factory call has its values", key="again " + key, refs=refs, given=given)
                    prev = (m, want, M)
            # a reference to a variable that is not declared
            alg.variables = [v for v in alg.variables if v.name != used[0]] + [StringVariable(name="unrelated", value="q")]
            got = call(graph_model_factory, alg)
            sh.check(got[:2] == ("exc", "ValueError"), "an undeclared variable is an error", key="undeclared %r" % refs, got=repr(got))
        sh.sample(list(slots))


VALUES = ["", "a", "1", 0, 1, -3, 2, 0.0, 1.0, 0.5, True, False]


def fits(t, v):
    if t == "b":
        return isinstance(v, bool)
    if t == "i":
        return isinstance(v, int) and not isinstance(v, bool)
    if t == "f":
        return isinstance(v, float)
    return isinstance(v, str)


OWN = {"s": ["", "a", "1"], "i": [0, 1, -3, 2], "f": [0.0, 1.0, 0.5], "b": [True, False]}


def validation(sh, item):
    t = item["type"]
    for default in OWN[t]:
        for k in range(0, len(OWN[t]) + 1):
            for choices in itertools.combinations(OWN[t], k):
                ch = list(choices) or None
                c = call(CLS[t], name="v", value=default, choices=ch)
                ok = ch is None or default in ch
                sh.add(states=1)
                sh.check(c[0] == ("ok" if ok else "exc"), "a default outside the choices is rejected", key="default %s %r %r" % (t, default, ch), got=repr(c))
                if c[0] != "ok":
                    continue
                alg = Algorithm(name="x", pipeline_steps=[], edge_types=[], extensions=[], variables=[c[1], StringVariable(name="w", value="q")])
                for v in VALUES:
                    want = fits(t, v) and (ch is None or v in ch)
                    got = call(validate_variable_values, alg, {"v": v})
                    sh.add(transitions=1, traces_validated_against_impl=1)
                    sh.check(
                        got == ("ok", True) if want else got[:2] == ("exc", "ValueError"),
                        "a value is accepted iff it has the type and is a choice",
                        key="validate %s %r %r" % (t, v, ch),
                        got=repr(got),
                        value=v,
                        choices=ch,
                        type=t,
                    )
                    sh.check(c[1].is_valid_value(v) == want, "is_valid_value", key="is_valid %s %r %r" % (t, v, ch))
                got = call(validate_variable_values, alg, {"w": "z", "unknown": default})
                sh.check(got[:2] == ("exc", "ValueError"), "an unknown name is rejected", key="unknown %s" % t, got=repr(got))
                for none in (None, {}):
                    sh.check(call(validate_variable_values, alg, none) == ("ok", True), "no values are valid", key="none")
                    sh.check(resolve_variables(alg.variables, none) == {"v": default, "w": "q"}, "defaults are used", key="resolve defaults")
                for nothing in (None, []):
                    bare = Algorithm(name="x", pipeline_steps=[], edge_types=[], extensions=[], variables=nothing)
                    got = call(validate_variable_values, bare, {"v": default})
                    sh.check(got[:2] == ("exc", "ValueError"), "a value for an algorithm without variables is rejected", key="bare %r" % nothing, got=repr(got))
                    for none in (None, {}):
                        sh.check(call(validate_variable_values, bare, none) == ("ok", True), "no values are valid without variables", key="bare none %r" % nothing)
                        sh.check(call(resolve_variables, nothing, none) == ("ok", {}), "nothing to resolve without variables", key="bare resolve %r" % nothing)
                for v in OWN[t]:
                    r = resolve_variables(alg.variables, {"v": v})
                    sh.check(r == {"v": v, "w": "q"} and type(r["v"]) is type(v), "given values are used", key="resolve given", got=repr(r), value=v)


def deep(sh, item):
    """many variables, deep below loops and groups: variable i is used by a step at depth i % depth"""
    n, depth = item["n"], item["depth"]
    names = ["v%d" % i for i in range(n)]

    def build(level):
        mine = [CorrelationCoefficientTest(threshold=VariableReference(name=x)) for i, x in enumerate(names) if i % depth == level]
        if level + 1 < depth:
            kind = item["kind"] if item["kind"] != "mixed" else ["loop", "together"][level % 2]
            inner = build(level + 1)
            mine.insert(len(mine) // 2, Loop(pipeline_steps=inner, exit_condition=ExitOnNoActions()) if kind == "loop" else ApplyActionsTogether(pipeline_steps=inner))
        return mine

    def collect(steps):
        out = []
        for s in steps:
            out += collect(s.pipeline_steps) if hasattr(s, "pipeline_steps") else [s.threshold]
        return out

    def alg():
        return Algorithm(name="deep", pipeline_steps=build(0), edge_types=[DirectedEdge()], extensions=[], variables=[FloatVariable(name=x, value=(i + 1) / 1000) for i, x in enumerate(names)])

    order = [r.name for r in collect(alg().pipeline_steps)]
    for given in [[]] + [[i] for i in range(n)] + [list(range(n)), list(range(0, n, 2))]:
        a = alg()
        values = {names[i]: 0.5 + (i + 1) / 1000 for i in given}
        got = call(lambda: collect(graph_model_factory(a, dict(values))().pipeline_steps))
        want = [values.get(x, (names.index(x) + 1) / 1000) for x in order]
        sh.add(states=1, transitions=n, traces_validated_against_impl=1)
        sh.check(got == ("ok", want), "resolved values", key="deep %r" % item, given=values, got=repr(got)[:600], want=want)
        sh.check([getattr(r, "name", r) for r in collect(a.pipeline_steps)] == order, "the given algorithm is not changed", key="deep leak %r" % item)
    a = alg()
    for i in range(n):
        got = call(validate_variable_values, a, {**{x: 0.25 for x in names}, names[i]: "x"})
        sh.check(got[:2] == ("exc", "ValueError"), "a value is accepted iff it has the type and is a choice", key="deep validate %r" % item, got=repr(got), variable=names[i])
    sh.check(call(validate_variable_values, a, {x: 0.25 for x in names}) == ("ok", True), "valid values are accepted", key="deep valid %r" % item)


def run(ctx):
    ctx.explore(deep, [{"n": n, "depth": d, "kind": k} for n in ctx.pick((12, 40), (12, 40, 120)) for d in (1, 2, 3, 5, 9) for k in ("loop", "together", "mixed")], name="many and deep", limit=600)
    names = sorted(SLOTS)
    groups = [[s] for s in names] + [list(c) for c in itertools.combinations(names, 2)]
    groups += [list(c) for c in itertools.combinations(names, 3)]
    if ctx.thorough:
        groups += [list(c) for c in itertools.combinations(names, 4)]
    ctx.explore(refs_of, [{"slots": groups[i::64]} for i in range(64)], name="references", limit=1800)
    ctx.explore(validation, [{"type": t} for t in CLS], name="validation")
