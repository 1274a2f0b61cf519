"""C17: a stored result says what the run did: graph, history, variables and
hashes survive writing and reading."""
import datetime
import itertools
import json
import math
import time
from time import time as real_time

from lib import discovery as D
from lib import graphs as G
from lib import scripted as S
from lib.harness import call
from checks.c06_actions import STARTS2, STARTS3, alphabet

from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
from causy.common_pipeline_steps.logic import ApplyActionsTogether, Loop
from causy.models import AlgorithmReference, AlgorithmReferenceType, Result
from causy.serialization import CausyJSONEncoder, deserialize_result

PROPERTY = "C17"
LEVEL = "model_checking"
ASSUMPTIONS = ["the values of the variables (the data) are not part of a stored result"]
BOUNDS = {
    "quick": "results on 5 to 12 variables, with up to 480 actions in a step; results of the 4 algorithms on all 185 4-node Markov equivalence classes; results of all scripted action sequences of length <= 2 over 2 nodes (plain, looped, grouped) and length 1 over 3 nodes; 11 kinds of metadata; 3 reference types",
    "thorough": "as quick with action sequences of length 3",
}


def data_view(x):
    """data of an action: nodes by id, everything else as is"""
    if hasattr(x, "id") and hasattr(x, "name"):
        return ("node", x.id, x.name)
    if isinstance(x, dict):
        if set(x) >= {"id", "name"} and set(x) <= {"id", "name", "values", "metadata"}:
            return ("node", x["id"], x["name"])
        return {k: data_view(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [data_view(v) for v in x]
    if isinstance(x, float) and math.isnan(x):
        return "nan"
    return x


def action_view(a):
    return (
        a.u.id,
        a.u.name,
        a.v.id,
        a.v.name,
        getattr(a.action, "value", a.action),
        data_view(a.data),
        None if a.edge_type is None else a.edge_type.name,
    )


def step_view(s):
    return (s.name, s.duration, [action_view(a) for a in s.actions or []], [action_view(a) for a in s.all_proposed_actions or []], [step_view(x) for x in s.steps or []])


def view(r):
    return {
        "algorithm": (getattr(r.algorithm.type, "value", r.algorithm.type), r.algorithm.reference),
        "created_at": r.created_at,
        "nodes": {k: (n.id, n.name) for k, n in r.nodes.items()},
        "edges": sorted(((e.u.id, e.u.name, e.v.id, e.v.name, type(e.edge_type).__name__, e.edge_type.name, e.metadata) for e in r.edges), key=repr),
        "history": [step_view(s) for s in r.action_history],
        "variables": r.variables,
        "hashes": (r.data_loader_hash, r.algorithm_hash, r.variables_hash),
    }


WHEN = [datetime.datetime(2024, 2, 29, 23, 59, 59, 999999), datetime.datetime(2021, 1, 1), datetime.datetime(2030, 6, 1, 12, 0, 0, 1)]
REFS = [("name", "PC"), ("file", "my pipeline.yaml"), ("python_module", "a.b.C")]


def roundtrip(sh, m, key, k=0, **kw):
    t, ref = REFS[k % 3]
    r = Result(
        algorithm=AlgorithmReference(type=AlgorithmReferenceType(t), reference=ref),
        created_at=WHEN[k % 3],
        action_history=m.graph.graph.action_history,
        edges=m.graph.retrieve_edges(),
        nodes=m.graph.nodes,
        variables=kw.get("variables", {"threshold": 0.05, "n": 3, "s": "x", "b": True}),
        data_loader_hash="d" * 8,
        algorithm_hash="a" * 8,
        variables_hash=None,
    )
    want = view(r)
    text = json.dumps(r.model_dump(), cls=CausyJSONEncoder, indent=4)
    # one trace for writing and reading, one for writing what was read
    sh.add(traces_validated_against_impl=2, transitions=1 + len(r.edges) + sum(len(x.actions or []) for x in r.action_history))
    got = call(deserialize_result, json.loads(text))
    if not sh.check(got[0] == "ok", "a stored result can be read", key="read " + key, got=repr(got)[:400]):
        return
    q = got[1]
    have = view(q)
    for part in want:
        sh.check(have[part] == want[part], "stored " + part, key="%s %s" % (part, key), got=repr(have[part])[:400], want=repr(want[part])[:400])
    # what is stored is what the graph says
    g = m.graph
    live = {(u, v): (g.edge_type(u, v).name, g.edge_value(u, v)) for u, v in itertools.permutations(g.nodes, 2) if g.directed_edge_exists(u, v)}
    stored = {}
    for e in q.edges:
        stored.setdefault((e.u.id, e.v.id), (e.edge_type.name, e.metadata))
    sh.check(all(stored.get(d) == x for d, x in live.items() if x[0] == "DIRECTED") and set(stored) <= set(live), "stored edges are the edges of the graph", key="edges of graph " + key, got=repr(stored)[:400], want=repr(live)[:400])
    sh.check({frozenset(d) for d in stored} == {frozenset(d) for d in live}, "every edge of the graph is stored", key="all edges " + key, got=repr(stored)[:400], want=repr(live)[:400])
    text2 = json.dumps(q.model_dump(), cls=CausyJSONEncoder, indent=4)
    sh.check(text2 == text, "writing it again gives the same file", key="again " + key)


def discovered(sh, item):
    for i, d in enumerate(item["dags"]):
        dag = G.from_item(d)
        cols, w = D.data(4, dag)
        m = D.fit(item["alg"], cols, ["x1", "b b", "\u00fc", "Z"])
        sh.add(states=1)
        roundtrip(sh, m, "%s %r" % (item["alg"], d), i)
    sh.sample([item["alg"], item["dags"][0]])


class Clock:
    """a clock that advances by one second per reading"""

    NAMES = ("time", "monotonic", "perf_counter")

    def __enter__(self):
        self.t, self.t0 = 1000.0, real_time()
        self.old = {n: getattr(time, n) for n in self.NAMES}
        for n in self.NAMES:
            setattr(time, n, self.read)
        return self

    def read(self):
        self.t += 1
        return self.t

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(time, n, f)
        self.elapsed = max(self.t - 1000.0, real_time() - self.t0)
        return False


def durations(sh, m, clock, key):
    """durations are times that passed during the run, and that of a step covers those of the steps in it"""

    def inner(steps, limit):
        for s in steps or []:
            if not sh.check(isinstance(s.duration, (int, float)) and 0 <= s.duration, "duration of a step", key="duration " + key, step=s.name, got=repr(s.duration)):
                return
        total = sum(s.duration for s in steps or [])
        sh.check(total <= limit, "steps do not take longer than what contains them", key="durations " + key, got=total, want=limit)
        for s in steps or []:
            inner(s.steps, s.duration)

    inner(m.graph.graph.action_history, clock.elapsed)


def scripted(sh, item):
    ids = item["ids"]
    ops = alphabet(ids)
    starts = STARTS2 if len(ids) == 2 else STARTS3
    count = 0
    for seq in itertools.product(ops, repeat=item["len"]):
        if seq[0] != ops[item["first"]]:
            continue
        for si, start in enumerate(starts):
            wrap = item["wrap"]
            S.Script.items, S.Script.observe = {}, None
            step = S.ScriptStep(script="s")
            if wrap == "loop":
                steps = [Loop(pipeline_steps=[step], exit_condition=ExitOnNoActions())]
            elif wrap == "together":
                steps = [ApplyActionsTogether(pipeline_steps=[step])]
            else:
                steps = [step]
            m = S.model(ids, start, steps=steps)
            nd = m.graph.nodes
            S.Script.items["s"] = [S.action(nd, o) for o in seq]
            if wrap == "loop":
                turns = []

                def items(g, seq=seq, nd=nd, turns=turns):
                    turns.append(1)
                    return S.action(nd, seq[0]) if len(turns) == 1 else None

                S.Script.items["s"] = [items]
            with Clock() as clock:
                r = call(m.execute_pipeline_steps)
            if r[0] != "ok":
                continue  # e.g. restoring an edge which was never there
            durations(sh, m, clock, "%s %r start %d" % (wrap, seq, si))
            count += 1
            sh.add(states=1)
            roundtrip(sh, m, "%s %r start %d" % (wrap, seq, si), count)


META = [{}, {"a": 1}, {"a": 0.1}, {"a": "x"}, {"a": True}, {"a": [1, 2.5, "z", False]}, {"a": {"b": 1}}, {"a": 1e300, "b": -0.0}, {"a": ""}, {"\u00e9": "\u00fc"}, {"a": 10**15}]


def metadata(sh, item):
    for i, md in enumerate(META):
        for t in "UDB":
            m = S.model("ab", {("a", "b"): [0, t]} if t == "D" else {("a", "b"): [0, t], ("b", "a"): [0, t]})
            for u, v in (("a", "b"), ("b", "a")):
                if m.graph.directed_edge_exists(u, v):
                    m.graph.update_directed_edge(m.graph.nodes[u], m.graph.nodes[v], metadata=dict(md))
            sh.add(states=1)
            roundtrip(sh, m, "metadata %r %s" % (md, t), i, variables=None if i == 0 else dict(list(md.items())[:1]))


def large(sh, item):
    """many variables, edges and actions"""
    n = item["n"]
    x, cols = 4711, []
    for i in range(n):
        col = []
        for j in range(60):
            x = (x * 1103515245 + 12345) % 2**31
            col.append((x >> 8) % 2000 / 100 + (cols[i // 2][j] * 0.9 if i % 3 else 0))
        cols.append(col)
    m = D.fit(item["alg"], cols, ["v%d" % i for i in range(n)])
    sh.add(states=1)
    roundtrip(sh, m, "large %s %d" % (item["alg"], n), n)
    ops = alphabet("abc")
    for step in (1, 5, 7):
        seq = [ops[(i * step) % len(ops)] for i in range(40 * n)]
        seq = [o for o in seq if not o[0].startswith("RE")]
        S.Script.items, S.Script.observe = {}, None
        m = S.model("abc", STARTS3[0], steps=[S.ScriptStep(script="s"), ApplyActionsTogether(pipeline_steps=[S.ScriptStep(script="s")])])
        S.Script.items["s"] = [S.action(m.graph.nodes, o) for o in seq]
        m.execute_pipeline_steps()
        sh.add(states=1)
        roundtrip(sh, m, "large script %d %d" % (step, n), step)


def run(ctx):
    ctx.explore(large, [{"alg": a, "n": n} for a in sorted(D.ALGS) for n in ((5, 6) if a == "PCStable" else (6, 9, 12))], name="large results", limit=300)
    dags = [G.to_item(d) for d in sorted((m for _, m in G.cpdag_classes(4)), key=sorted)]
    ctx.explore(discovered, [{"alg": a, "dags": dags[i::8]} for a in sorted(D.ALGS) for i in range(8)], name="discovered", limit=300)
    parts = []
    for wrap in ("plain", "loop", "together"):
        for length in (1,) if wrap == "loop" else ctx.pick((1, 2), (1, 2, 3)):
            parts += [{"ids": "ab", "len": length, "first": f, "wrap": wrap} for f in range(len(alphabet("ab")))]
        parts += [{"ids": "abc", "len": ctx.pick(1, 2) if wrap != "loop" else 1, "first": f, "wrap": wrap} for f in range(len(alphabet("abc")))]
    ctx.explore(scripted, parts, name="scripted", limit=900)
    ctx.explore(metadata, [{}], name="metadata")
