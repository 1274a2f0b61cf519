"""Pipeline steps that play back a script, to drive the execution engine."""
from typing import Any, List, Optional

from causy.edge_types import BiDirectedEdge, DirectedEdge, UndirectedEdge
from causy.graph_model import graph_model_factory
from causy.interfaces import GeneratorInterface, GraphUpdateHook, PipelineStepInterface
from causy.models import Algorithm, TestResult, TestResultAction

TYPES = {"U": UndirectedEdge, "D": DirectedEdge, "B": BiDirectedEdge}
NAME = {"UNDIRECTED": "U", "DIRECTED": "D", "BIDIRECTED": "B"}
A = TestResultAction


class Script:
    """script[name] = list of items; each item is what process() returns for it"""

    items = {}
    log = []
    group = 2  # items per chunk
    observe = None  # called as observe(step_name, index, graph, unapplied)


class ScriptGenerator(GeneratorInterface):
    script: Optional[str] = None

    def __init__(self, script=None, chunked=False, **k):
        super().__init__(chunked=chunked)
        self.script = script

    def generate(self, graph, graph_model_instance_):
        n = Script.items[self.script]
        n = n() if callable(n) else len(n)
        # items are addressed by index; chunked scripts are grouped in pairs, or as asked
        if self.chunked:
            for i in range(0, n, Script.group):
                yield [(j,) for j in range(i, min(n, i + Script.group))]
        else:
            for i in range(n):
                yield (i,)


class ScriptStep(PipelineStepInterface):
    script: Optional[str] = None
    parallel: bool = False

    def __init__(self, script=None, chunked=False, **k):
        super().__init__(generator=ScriptGenerator(script=script, chunked=chunked), **k)
        self.script = script

    def process(self, nodes, graph, unapplied_actions=None):
        i = nodes[0]
        if Script.observe is not None:
            Script.observe(self.script, i, graph, unapplied_actions)
        item = Script.items[self.script]
        r = item[i] if not callable(item) else None
        return r(graph) if callable(r) else r


def action(nodes, spec):
    """["RU","a","b"] ... -> TestResult"""
    k, u, v = spec[:3]
    u, v = nodes[u], nodes[v]
    arg = spec[3] if len(spec) > 3 else None
    if k == "RU":
        return TestResult(u=u, v=v, action=A.REMOVE_EDGE_UNDIRECTED, data={})
    if k == "RD":
        return TestResult(u=u, v=v, action=A.REMOVE_EDGE_DIRECTED, data={})
    if k == "UE":
        return TestResult(u=u, v=v, action=A.UPDATE_EDGE, data={"m": arg})
    if k == "UD":
        return TestResult(u=u, v=v, action=A.UPDATE_EDGE_DIRECTED, data={"m": arg})
    if k == "UT":
        return TestResult(u=u, v=v, action=A.UPDATE_EDGE_TYPE, edge_type=TYPES[arg]())
    if k == "UTD":
        return TestResult(u=u, v=v, action=A.UPDATE_EDGE_TYPE_DIRECTED, edge_type=TYPES[arg]())
    if k == "RE":
        return TestResult(u=u, v=v, action=A.RESTORE_EDGE, data={})
    if k == "RED":
        return TestResult(u=u, v=v, action=A.RESTORE_EDGE_DIRECTED, data={})
    if k == "NO":
        return TestResult(u=u, v=v, action=A.DO_NOTHING, data={})
    raise KeyError(k)


class ActionModel:
    """reference semantics of actions: direction -> [meta, type, soft]"""

    def __init__(self, dirs):
        self.e = {d: list(x) for d, x in dirs.items()}
        self.rec = {}
        self.hist = {}

    def live(self, d):
        return d in self.e and not self.e[d][2]

    def lives(self):
        return {d: (x[0], x[1]) for d, x in self.e.items() if not x[2]}

    def purge(self):
        for d in [d for d, x in self.e.items() if x[2]]:
            self.rec[d] = self.e.pop(d)

    def _restore(self, d):
        if d in self.e:
            self.e[d][2] = False
            return True
        if d in self.rec:
            m, t, _ = self.rec.pop(d)
            self.e[d] = [m, t, False]
            return True
        return False

    def apply(self, spec):
        """True: taken, False: skipped, None: not defined (nothing to restore)"""
        k, u, v = spec[:3]
        f, r = (u, v), (v, u)
        h = [f, r]
        if k == "NO":
            return False
        if k == "RU":
            if not (self.live(f) and self.live(r)):
                return False
            self.e[f][2] = self.e[r][2] = True
        elif k == "RD":
            if not self.live(f):
                return False
            self.e[f][2] = True
            if self.live(r):
                self.e[r][1] = "D"
            h = [f]
        elif k in ("UE", "UT"):
            ds = [d for d in h if self.live(d)]
            if not ds:
                return False
            for d in ds:
                self.e[d][0 if k == "UE" else 1] = spec[3]
        elif k in ("UD", "UTD"):
            if not self.live(f):
                return False
            self.e[f][0 if k == "UD" else 1] = spec[3]
            h = [f]
        elif k == "RE":
            if self.live(f) or self.live(r):
                return False
            a, b = self._restore(f), self._restore(r)
            if not a and not b:
                return None
        elif k == "RED":
            if self.live(f):
                return False
            if not self._restore(f):
                return None
            h = [f]
        for d in h:
            self.hist.setdefault(d, []).append(spec)
        return True


def model(ids, dirs, pre=None, post=None, steps=()):
    """a graph model whose graph holds exactly `dirs`: {(u,v): [meta, type]}"""
    m = graph_model_factory(
        Algorithm(
            name="scripted",
            pipeline_steps=list(steps),
            edge_types=[DirectedEdge(), UndirectedEdge(), BiDirectedEdge()],
            pre_graph_update_hooks=pre,
            post_graph_update_hooks=post,
        )
    )()
    m.create_graph_from_data({i: [1.0, 2.0, 4.0] for i in ids})
    nd = m.graph.nodes
    for (u, v), x in dirs.items():
        m.graph.add_directed_edge(nd[u], nd[v], {"m": x[0]}, edge_type=TYPES[x[1]]())
    return m


def snapshot(g, ids):
    out = {}
    for u in ids:
        for v in ids:
            if u != v and g.directed_edge_exists(u, v):
                out[(u, v)] = ((g.edge_value(u, v) or {}).get("m"), NAME[g.edge_type(u, v).name])
    return out


def describe(r):
    """TestResult -> comparable tuple"""
    return (
        r.u.id,
        r.v.id,
        str(getattr(r.action, "value", r.action)),
        (r.data or {}).get("m"),
        NAME[r.edge_type.name] if getattr(r, "edge_type", None) is not None else None,
    )
