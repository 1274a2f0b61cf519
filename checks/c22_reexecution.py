"""C22: executing a workspace runs exactly the experiments whose configuration or data changed, on the current configuration."""
import itertools
import json
import os
import re

from lib import ws
from lib.harness import scratch

from pydantic_yaml import to_yaml_str

from causy.causal_discovery.constraint.algorithms.pc import PC, PCClassic, PCStable
from causy.causal_discovery.constraint.independence_tests.common import (
    CorrelationCoefficientTest,
    ExtendedPartialCorrelationTestMatrix,
    PartialCorrelationTest,
)
from causy.causal_effect_estimation.multivariate_regression import ComputeDirectEffectsInDAGsMultivariateRegression
from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
from causy.common_pipeline_steps.logic import ApplyActionsTogether, Loop
from causy.edge_types import DirectedEdge, UndirectedEdge
from causy.generators import AllCombinationsGenerator, PairsWithNeighboursGenerator
from causy.graph_model import graph_model_factory
from causy.interfaces import AS_MANY_AS_FIELDS
from causy.models import Algorithm, ComparisonSettings
from causy.variables import BoolVariable, FloatVariable, IntegerVariable, StringVariable, VariableReference
from causy.serialization import deserialize_result
from causy.workspaces.models import Workspace

PROPERTY = "C22"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "time passes between two executions: results are aged by renaming them to an earlier second after each command",
    "one process at a time; pipelines in files, data in JSON and JSONL files",
]
BOUNDS = {
    "quick": "workspaces of up to 25 experiments with up to 60 earlier results each; two experiments sharing a pipeline file: breadth-first over 12 commands and edits, depth 4 from the fresh and from the executed workspace (merged on configuration, latest and number of results); all ordered pairs of 13 pipelines that differ in one detail and of 16 assignments of four typed variables: executed with one, the other, the first again; 11 data loaders x 3 kinds of pipeline reference x 2 thresholds, all pairs of 16 of them on two experiments, exchanged; 7 ways to fail x 2 experiments x 3 histories x 3 commands",
    "thorough": "depth 6",
}

DATA = [
    {"x": [1.0, 2.0, 4.0, 3.0, 5.5, 0.5, 2.5], "y": [2.0, 1.5, 5.0, 3.0, 6.5, 0.0, 2.0], "z": [1.0, -1.0, 0.5, 2.0, -2.0, 1.5, 0.0]},
    {"x": [1.0, 2.0, 4.0, 3.0, 5.5, 0.5, 2.5], "y": [2.0, 1.5, 5.0, 3.0, 6.5, 0.0, 2.0], "z": [1.0, -1.0, 0.5, 2.0, -2.0, 1.5, 1.0]},
]
PIPES = [PC, PCClassic, PCStable]
EXPS = {"e": "d", "e_1": "dl"}


def start():
    """configuration: data of each loader, pipeline, variables of each experiment; results: per experiment a list of configurations"""
    return {"data": {"d": 0, "dl": 0}, "pipe": 0, "var": {"e": 0.05, "e_1": 0.05}, "results": {"e": [], "e_1": []}}


def write_data(name, k):
    d = DATA[k]
    rows = [dict(zip(d, r)) for r in zip(*d.values())]
    if name == "d":
        text = json.dumps(d)
    else:
        text = "\n".join(json.dumps(r) for r in rows) + "\n"
    # other data with the time stamp of the old ones, the same data with a new one: only the content tells
    path = "d.json" if name == "d" else "dl.jsonl"
    old = None
    if os.path.exists(path):
        with open(path) as f:
            old = f.read()
    t = os.stat(path).st_mtime_ns if old is not None else 10**18
    with open(path, "w") as f:
        f.write(text)
    t += 5 * 10**9 if old == text else 0
    os.utime(path, ns=(t, t))


def write_pipe(k):
    with open("pipe.yml", "w") as f:
        f.write(to_yaml_str(PIPES[k]()._original_algorithm))


def setup():
    write_data("d", 0)
    write_data("dl", 0)
    write_pipe(0)
    ws.put(
        Workspace(
            name="w",
            author="a",
            pipelines={"p": {"type": "file", "reference": "pipe.yml"}},
            dataloaders={"d": {"type": "json", "reference": "d.json"}, "dl": {"type": "jsonl", "reference": "dl.jsonl"}},
            experiments={e: {"pipeline": "p", "dataloader": d, "variables": {"threshold": 0.05}} for e, d in EXPS.items()},
        )
    )


def config(m, e):
    return [m["data"][EXPS[e]], m["pipe"], m["var"][e]]


def apply(m, op):
    m = json.loads(json.dumps(m))
    k = op[0]
    if k == "data":
        m["data"][op[1]] = op[2]
    elif k == "pipe":
        m["pipe"] = op[1]
    elif k == "var":
        m["var"][op[1]] = op[2]
    elif k == "default":
        m["var"][op[1]] = 0.05
    elif k == "clear":
        m["results"][op[1]] = []
    elif k in ("all", "force"):
        for e in EXPS:
            r = m["results"][e]
            if k == "force" or not r or r[-1] != config(m, e):
                r.append(config(m, e))
    elif k == "one":
        m["results"][op[1]].append(config(m, op[1]))
    return m


def perform(op):
    k = op[0]
    if k == "data":
        write_data(op[1], op[2])
    elif k == "pipe":
        write_pipe(op[1])
    elif k == "var":
        return ws.cli(["workspace", "experiment", "update-variable", op[1], "threshold", repr(op[2])])
    elif k == "default":
        w = ws.current()
        w.experiments[op[1]].variables = {}
        ws.put(w)
    elif k == "clear":
        return ws.cli(["workspace", "experiment", "clear", op[1]])
    elif k == "all":
        return ws.cli(["workspace", "execute"])
    elif k == "force":
        return ws.cli(["workspace", "execute", "--force-reexecution"])
    elif k == "one":
        return ws.cli(["workspace", "execute", "--experiment-name", op[1]])
    return 0, "", None


OPS = [
    ("data", "d", 1),
    ("data", "d", 0),
    ("data", "dl", 1),
    ("pipe", 1),
    ("pipe", 2),
    ("var", "e", 0.3),
    ("var", "e_1", 0.001),
    ("default", "e"),
    ("clear", "e"),
    ("all",),
    ("force",),
    ("one", "e"),
]
NAME = re.compile(r"(e|e_1)_(\d{6,})\.json")


def results():
    out = {e: [] for e in EXPS}
    for f in os.listdir("."):
        k = NAME.fullmatch(f)
        if k:
            out[k.group(1)].append((int(k.group(2)), f))
    return {e: [f for _, f in sorted(v)] for e, v in out.items()}


def age():
    """ten seconds pass"""
    for e, fs in results().items():
        for f in fs:
            v = int(f[len(e) + 1 : -5])
            os.rename(f, "%s_%d.json" % (e, v - 10))


EXPECTED = {}


def expected(cfg, e):
    """nodes, edges of a run on this configuration, without the workspace"""
    k = json.dumps(cfg)
    if k not in EXPECTED:
        m = graph_model_factory(PIPES[cfg[1]]()._original_algorithm, {"threshold": cfg[2]})()
        m.create_graph_from_data({n: list(v) for n, v in DATA[cfg[0]].items()})
        m.create_all_possible_edges()
        m.execute_pipeline_steps()
        EXPECTED[k] = sorted(describe(x) for x in m.graph.retrieve_edges())
    return EXPECTED[k]


def describe(x):
    return (x.u.name, x.v.name, str(x.edge_type), {a: round(float(b), 9) for a, b in sorted((x.metadata or {}).items()) if isinstance(b, (int, float))}.__repr__())


def content(f):
    with open(f) as fh:
        r = deserialize_result(json.load(fh))
    return r.variables, sorted(describe(x) for x in r.edges), sorted(n.name for n in r.nodes.values()), (r.algorithm.type.value, r.algorithm.reference)


def step(sh, files, model, op, key):
    ws.restore(files)
    want = apply(model, op)
    before = results()
    old = {f: files[f] for fs in before.values() for f in fs}
    code, out, exc = perform(op)
    sh.add(traces_validated_against_impl=1)
    if not sh.check(exc is None and code == 0, "the command succeeds", key="fails " + key, op=op, model=model, error=repr(exc)[:300], out=out[-300:]):
        return None
    after = results()
    for e in EXPS:
        new = [f for f in after[e] if f not in before[e]]
        n = len(want["results"][e]) - len(model["results"][e])
        if op[0] == "clear" and op[1] == e:
            if not sh.check(after[e] == [], "clear removes the results", key="clear " + key, op=op):
                return None
            continue
        ran = len(new)
        if not sh.check(
            ran == max(n, 0) and set(before[e]) <= set(after[e]),
            "an experiment is executed exactly if its data, pipeline or variables changed since its latest result",
            key="executed " + key,
            op=op,
            experiment=e,
            model=model,
            executed=ran,
            want=n,
        ):
            return None
        for f in before[e]:
            if not sh.check(open(f, "rb").read() == old[f], "earlier results are kept", key="kept " + key, op=op, file=f):
                return None
        if new:
            v, edges, nodes, alg = content(new[0])
            cfg = want["results"][e][-1]
            sh.check(
                v == {"threshold": cfg[2]} and edges == expected(cfg, e) and nodes == ["x", "y", "z"] and alg == ("file", "pipe.yml"),
                "the result is that of the current data, pipeline and variables",
                key="content " + key,
                op=op,
                experiment=e,
                model=model,
                got=(v, edges, nodes, alg),
                want=expected(cfg, e),
            )
    age()
    return ws.files(), want


def abstract(m):
    return json.dumps([m["data"], m["pipe"], m["var"], {e: (r[-1:], min(len(r), 3)) for e, r in m["results"].items()}], sort_keys=True)


def histories(sh, item):
    with scratch() as d, ws.inside(d):
        setup()
        state = (ws.files(), start())
        for op in item["prefix"]:
            state = step(sh, state[0], state[1], tuple(op), "prefix %r" % (op,))
            if state is None:
                return
        seen = {abstract(state[1])}
        level = [(state, [])]
        for n in range(item["depth"]):
            nxt = []
            for (files, model), trace in level:
                for op in OPS:
                    if n < len(item["first"]) and list(op) != item["first"][n]:
                        continue
                    r = step(sh, files, model, op, "%r after %d" % (op, n))
                    sh.add(transitions=1)
                    if r is None:
                        return
                    k = abstract(r[1])
                    if n < len(item["first"]) or k not in seen:
                        seen.add(k)
                        nxt.append((r, trace + [op]))
            level = nxt
        sh.add(states=len(seen))
        if level:
            sh.sample({"trace": level[-1][1]})


def small(**k):
    """a small pipeline; each keyword changes one detail of it"""
    pairs = AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=2, max=k.get("max", 2)))
    first = [CalculatePearsonCorrelations(), CorrelationCoefficientTest(threshold=k.get("threshold", VariableReference(name="threshold")), generator=pairs)]
    inner = [PartialCorrelationTest(threshold=k.get("inner", 0.05))]
    nested = ApplyActionsTogether(pipeline_steps=inner) if k.get("together") else Loop(pipeline_steps=inner, exit_condition=ExitOnNoActions())
    last = [
        ExtendedPartialCorrelationTestMatrix(
            threshold=0.05,
            generator=PairsWithNeighboursGenerator(comparison_settings=ComparisonSettings(min=k.get("min", 4), max=AS_MANY_AS_FIELDS), shuffle_combinations=k.get("shuffle", False)),
        )
    ]
    steps = first + ([nested] + last if not k.get("swap") else last + [nested])
    if k.get("effects"):
        steps.append(ComputeDirectEffectsInDAGsMultivariateRegression())
    variables = [
        FloatVariable(name="threshold", value=k.get("default", 0.05)),
        IntegerVariable(name="n", value=1),
        BoolVariable(name="b", value=False),
        StringVariable(name="s", value="a", choices=["a", "b"] + k.get("choices", [])),
    ]
    return Algorithm(name=k.get("name", "small"), pipeline_steps=steps, edge_types=[DirectedEdge(), UndirectedEdge()][k.get("types", 0) :], extensions=[], variables=variables)


VARIANTS = [
    {},
    {"threshold": 0.1},
    {"max": 3},
    {"inner": 0.3},
    {"together": True},
    {"min": 3},
    {"shuffle": True},
    {"swap": True},
    {"effects": True},
    {"default": 0.3},
    {"choices": ["c"]},
    {"name": "other"},
    {"types": 1},
]
VALUES = [dict(zip(("threshold", "n", "b", "s"), v)) for v in itertools.product((0.05, 0.3), (1, 2), (False, True), ("a", "b"))]


def configure(variant, values, order):
    with open("pipe.yml", "w") as f:
        f.write(to_yaml_str(small(**variant)))
    ws.put(
        Workspace(
            name="w",
            author="a",
            pipelines={"p": {"type": "file", "reference": "pipe.yml"}},
            dataloaders={"d": {"type": "json", "reference": "d.json"}},
            experiments={"e": {"pipeline": "p", "dataloader": "d", "variables": dict(sorted(values.items(), reverse=order))}},
        )
    )


def pairs(sh, item):
    """executed with one configuration, then with another, then with the first again"""
    with scratch() as d, ws.inside(d):
        for a, b in item["pairs"]:
            ws.restore({})
            write_data("d", 0)
            sh.add(states=1)
            count = 0
            for n, cfg in enumerate((a, b, a)):
                configure(VARIANTS[cfg[0]], VALUES[cfg[1]], n == 1)
                code, out, exc = ws.cli(["workspace", "execute"])
                key = "pair %r %r step %d" % (a, b, n)
                sh.add(traces_validated_against_impl=1, transitions=1)
                if not sh.check(exc is None and code == 0, "the command succeeds", key="fails " + key, error=repr(exc)[:300], out=out[-300:]):
                    break
                fs = results()["e"]
                want = 1 if n == 0 else int(a != b)
                if not sh.check(
                    len(fs) - count == want,
                    "an experiment is executed exactly if its data, pipeline or variables changed since its latest result",
                    key="executed " + key,
                    first=[VARIANTS[a[0]], VALUES[a[1]]],
                    second=[VARIANTS[b[0]], VALUES[b[1]]],
                    executed=len(fs) - count,
                    want=want,
                ):
                    break
                count = len(fs)
                if want:
                    with open(fs[-1]) as f:
                        v = json.load(f)["variables"]
                    sh.check(
                        v == VALUES[cfg[1]] and {k: type(x) for k, x in v.items()} == {k: type(x) for k, x in VALUES[cfg[1]].items()},
                        "the result names the variables it used",
                        key="variables " + key,
                        got=repr(v),
                        want=repr(VALUES[cfg[1]]),
                    )
                age()


LOADER_MODULE = """
import json
DATA = json.loads(%r)

class One:
    def __init__(self, **options):
        self.options = options
        self.reference = "x"
    def load(self):
        d = DATA[self.options["k"]]
        for row in zip(*d.values()):
            yield dict(zip(d, row))
    def hash(self):
        return "data %%d" %% self.options["k"]

class Two(One):
    def load(self):
        d = DATA[1 - self.options["k"]]
        for row in zip(*d.values()):
            yield dict(zip(d, row))
    def hash(self):
        return "data %%d" %% (1 - self.options["k"])
"""
PIPE_MODULE = """
from causy.causal_discovery.constraint.algorithms.pc import PCClassic, PCStable
ONE = PCClassic
TWO = PCStable
"""
# data loader, data it gives
LOADERS = [
    ({"type": "json", "reference": "d.json"}, 0),
    ({"type": "json", "reference": "d1.json"}, 1),
    ({"type": "jsonl", "reference": "dl.jsonl"}, 0),
    ({"type": "json", "reference": "d.json", "options": {"a": 1}}, 0),
    ({"type": "json", "reference": "d.json", "options": {"a": 2}}, 0),
    ({"type": "json", "reference": "d.json", "options": {"a": 1, "deep": {"b": [1, 2]}}}, 0),
    ({"type": "json", "reference": "d.json", "options": {"a": 1, "deep": {"b": [2, 1]}}}, 0),
    ({"type": "dynamic", "reference": "verif_loader.One", "options": {"k": 0}}, 0),
    ({"type": "dynamic", "reference": "verif_loader.One", "options": {"k": 1}}, 1),
    ({"type": "dynamic", "reference": "verif_loader.One", "options": {"k": 0, "note": "x"}}, 0),
    ({"type": "dynamic", "reference": "verif_loader.Two", "options": {"k": 0}}, 1),
]
# algorithm, number of the one it is
REFERENCES = [
    ({"type": "name", "reference": "PC"}, 0),
    ({"type": "python_module", "reference": "verif_pipe.ONE"}, 1),
    ({"type": "file", "reference": "pipe.yml"}, 2),
]
THRESHOLDS = [0.05, 0.3]


def references(sh, item):
    """two experiments on one or two data loaders and pipelines, given in every way; then one is moved to the other's"""
    with scratch() as d, ws.inside(d):
        for a, b in item["pairs"]:
            ws.restore({})
            write_data("d", 0)
            write_data("dl", 0)
            with open("d1.json", "w") as f:
                json.dump(DATA[1], f)
            with open("verif_loader.py", "w") as f:
                f.write(LOADER_MODULE % json.dumps(DATA))
            with open("verif_pipe.py", "w") as f:
                f.write(PIPE_MODULE)
            write_pipe(2)
            sh.add(states=1)
            count = {e: 0 for e in EXPS}
            last = {e: None for e in EXPS}
            for n, use in enumerate(({"e": a, "e_1": b}, {"e": a, "e_1": b}, {"e": b, "e_1": b}, {"e": b, "e_1": a}, {"e": a, "e_1": a})):
                ws.put(
                    Workspace(
                        name="w",
                        author="a",
                        pipelines={"p%d" % i: REFERENCES[i][0] for i in {c[1] for c in use.values()}},
                        dataloaders={"d%d" % i: LOADERS[i][0] for i in {c[0] for c in use.values()}},
                        experiments={e: {"pipeline": "p%d" % c[1], "dataloader": "d%d" % c[0], "variables": {"threshold": THRESHOLDS[c[2]]}} for e, c in use.items()},
                    )
                )
                code, out, exc = ws.cli(["workspace", "execute"])
                key = "references step %d %r %r" % (n, a, b)
                sh.add(traces_validated_against_impl=1, transitions=1)
                if not sh.check(exc is None and code == 0, "the command succeeds", key="fails " + key, error=repr(exc)[:300], out=out[-300:]):
                    break
                now = results()
                for e in EXPS:
                    want = int(last[e] != use[e] and not (last[e] and same_run(last[e], use[e])))
                    if last[e] and last[e] != use[e] and same_data(last[e], use[e]):
                        want = None  # the same data from another place: either is right
                    ran = len(now[e]) - count[e]
                    if not sh.check(
                        ran in ((0, 1) if want is None else (want,)),
                        "an experiment is executed exactly if its data, pipeline or variables changed since its latest result",
                        key="executed " + key,
                        experiment=e,
                        before=last[e],
                        now=use[e],
                        executed=ran,
                        want=want,
                    ):
                        return
                    count[e] = len(now[e])
                    last[e] = use[e]
                    if ran:
                        v, edges, nodes, alg = content(now[e][-1])
                        ref = REFERENCES[use[e][1]]
                        cfg = [LOADERS[use[e][0]][1], ref[1], THRESHOLDS[use[e][2]]]
                        sh.check(
                            v == {"threshold": cfg[2]} and edges == expected(cfg, e) and nodes == ["x", "y", "z"] and alg == (ref[0]["type"], ref[0]["reference"]),
                            "the result is that of the current data, pipeline and variables",
                            key="content " + key,
                            experiment=e,
                            got=(v, edges, nodes, alg),
                            want=(cfg, expected(cfg, e)),
                        )
                age()


def same_run(a, b):
    return a == b


def same_data(a, b):
    """same pipeline and variables, and data with the same options from another place"""
    x, y = LOADERS[a[0]], LOADERS[b[0]]
    return a[1:] == b[1:] and x[1] == y[1] and x[0].get("options") == y[0].get("options")


BAD = ["missing", "empty", "text", "ragged", "variable", "pipeline", "loader"]


def failing(sh, item):
    """an experiment that fails stores no result, changes no other and runs once it is repaired"""
    with scratch() as d, ws.inside(d):
        setup()
        for op in item["before"]:
            perform(tuple(op))
            age()
        good = ws.files()
        before = results()
        kind, e = item["kind"], item["experiment"]
        other = next(x for x in EXPS if x != e)
        path = "d.json" if e == "e" else "dl.jsonl"
        w = ws.current()
        if kind == "missing":
            os.unlink(path)
        elif kind in ("empty", "text", "ragged"):
            with open(path, "w") as f:
                f.write({"empty": "", "text": "{x", "ragged": '{"x": [1, 2], "y": [1, 2, 3]}' if e == "e" else '{"x": 1, "y": 2}\n{"x": 1}\n'}[kind])
        elif kind == "variable":
            w.experiments[e].variables = {"threshold": "much"}
            ws.put(w)
        else:
            setattr(w.experiments[e], "pipeline" if kind == "pipeline" else "dataloader", "nowhere")
            ws.put(w)
        code, out, exc = ws.cli(item["command"])
        sh.add(states=1, transitions=1, traces_validated_against_impl=1)
        key = "failing %s %s %r %s" % (kind, e, item["before"], item["command"])
        sh.check(exc is not None or code != 0 or "error" in out.lower() or "not found" in out.lower(), "an experiment that cannot be executed is reported", key=key, out=out[-300:])
        after = results()
        sh.check(after[e] == before[e], "an experiment that fails stores no result", key=key + " stored", got=after, want=before)
        sh.check(set(before[other]) <= set(after[other]), "the results of the others are kept", key=key + " kept", got=after, want=before)
        for x, fs in before.items():
            for f in fs:
                sh.check(open(f, "rb").read() == good[f], "earlier results are kept", key=key + " content", file=f)
        age()
        held = ws.files()
        held.update({n: b for n, b in good.items() if not NAME.fullmatch(n)})
        ws.restore(held)
        ran = results()
        code, out, exc = ws.cli(["workspace", "execute"])
        sh.add(transitions=1, traces_validated_against_impl=1)
        sh.check(exc is None and code == 0, "the repaired workspace can be executed", key=key + " repaired", error=repr(exc)[:300], out=out[-300:])
        now = results()
        for x in EXPS:
            due = not before[x] or (x == "e" and ["var", "e", 0.3] in item["before"])
            due = due and len(ran[x]) == len(before[x])
            sh.check(len(now[x]) - len(ran[x]) == int(due), "an experiment is executed exactly if its data, pipeline or variables changed since its latest result", key=key + " rerun " + x, got=now, want=ran)


def many(sh, item):
    """many experiments, pipelines and loaders, each with many results"""
    n, kept = item["n"], item["kept"]
    with scratch() as d, ws.inside(d):
        names = ["e%d" % i for i in range(n)]

        def data(i, k):
            with open("d%d.json" % i, "w") as f:
                json.dump({c: [x + k for x in v] if c == "z" else v for c, v in DATA[i % 2].items()}, f)

        for i in range(n):
            data(i, 0)
        write_pipe(0)
        ws.put(
            Workspace(
                name="w",
                author="a",
                pipelines={"p%d" % i: {"type": "name", "reference": "PC"} if i % 2 else {"type": "file", "reference": "pipe.yml"} for i in range(n)},
                dataloaders={"d%d" % i: {"type": "json", "reference": "d%d.json" % i} for i in range(n)},
                experiments={e: {"pipeline": "p%d" % i, "dataloader": "d%d" % i, "variables": {"threshold": 0.05}} for i, e in enumerate(names)},
            )
        )

        def versions(e):
            return sorted(int(f[len(e) + 1 : -5]) for f in os.listdir() if f.startswith(e + "_") and f.endswith(".json"))

        def go(args, who, what):
            before = {f: open(f, "rb").read() for f in os.listdir() if f.startswith("e")}
            code, out, exc = ws.cli(["workspace", "execute"] + args)
            after = {f: open(f, "rb").read() for f in os.listdir() if f.startswith("e")}
            new = sorted(set(after) - set(before))
            sh.add(transitions=1, traces_validated_against_impl=1)
            sh.check(
                exc is None and code == 0 and sorted(f.rsplit("_", 1)[0] for f in new) == sorted(who) and all(after.get(f) == x for f, x in before.items()),
                "exactly what changed is executed in a large workspace",
                key="many %s n=%d kept=%d" % (what, n, kept),
                got=new,
                want=sorted(who),
                error=repr(exc),
            )
            # earlier results, the newest last: age everything
            for e in names:
                mine = versions(e)
                if mine and mine[-1] > 10**8:
                    os.rename("%s_%d.json" % (e, mine[-1]), "%s_%d.json" % (e, mine[-2] + 1 if len(mine) > 1 else 1000))

        go([], names, "first")
        for e in names:
            last = versions(e)[-1]
            text = open("%s_%d.json" % (e, last)).read()
            old = json.loads(text)
            old["data_loader_hash"] = "other"
            os.unlink("%s_%d.json" % (e, last))
            for j in range(kept):
                with open("%s_%d.json" % (e, j), "w") as f:
                    json.dump(old, f)
            with open("%s_%d.json" % (e, 1000), "w") as f:
                f.write(text)
        sh.add(states=1)
        go([], [], "again")
        for who in sorted({0, 1, n // 2, n - 2, n - 1}):
            data(who, who + 1)
            go([], [names[who]], "data %d" % who)
            sh.add(states=1)
        go(["--force-reexecution"], names, "force")
        go(["--experiment-name", names[-1]], [names[-1]], "one")
        go([], [], "end")
    sh.sample(item)


def run(ctx):
    ctx.explore(many, [{"n": n, "kept": k} for n, k in ((3, 60), (6, 0), (12, 12), (25, 2))], name="large workspaces", limit=300)
    every = [(i, j, k) for i in range(len(LOADERS)) for j in range(len(REFERENCES)) for k in range(2)]
    few = [c for c in every if (c[0] == 0) + (c[1] == 0) + (c[2] == 0) >= 2 or c[0] in (1, 8) and c[1] == 0]
    rs = [(a, b) for a in (every if ctx.thorough else few) for b in few if a != b]
    ctx.explore(references, [{"pairs": rs[i::32]} for i in range(32)], name="ways to give data and pipelines")
    ctx.explore(
        failing,
        [
            {"kind": k, "experiment": e, "before": b, "command": c}
            for k in BAD
            for e in EXPS
            for b in ([], [["all"]], [["all"], ["var", "e", 0.3]])
            for c in (["workspace", "execute"], ["workspace", "execute", "--force-reexecution"], ["workspace", "execute", "--experiment-name", e])
            if (k, e) != ("empty", "e_1")  # a JSONL file without rows is a table without rows
        ],
        name="failing experiments",
    )
    ps = [((i, 0), (j, 0)) for i in range(len(VARIANTS)) for j in range(len(VARIANTS))]
    ps += [((0, i), (0, j)) for i in range(len(VALUES)) for j in range(len(VALUES)) if i != j]
    ctx.explore(pairs, [{"pairs": ps[i::32]} for i in range(32)], name="pairs of configurations")
    items = []
    for prefix in ([], [["all"]]):
        for a in OPS:
            for b in OPS:
                items.append({"prefix": prefix, "first": [list(a), list(b)], "depth": ctx.pick(4, 6)})
    ctx.explore(histories, items, name="histories", limit=ctx.pick(600, 3000))
