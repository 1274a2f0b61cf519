"""C25: `workspace diff` tells equal edges from different ones, for the named experiments and versions."""
import itertools
import json
import os
import re

from lib import ws
from lib.harness import scratch

from causy.edge_types import BiDirectedEdge
from causy.graph import GraphManager
from causy.models import AlgorithmReference, Result
from causy.serialization import CausyJSONEncoder
from causy.workspaces.models import Workspace

PROPERTY = "C25"
LEVEL = "model_checking"
ASSUMPTIONS = ["between two variables there is no edge, an undirected one, an arrow in one direction, or a bidirected one", "variable names without spaces"]
BOUNDS = {
    "quick": "up to 12 variables and up to 7 results which differ in one edge of one of them; all ordered pairs of the 64 graphs on 3 variables (no edge, undirected, two directions), with and without --only-differences; all triples of the 5 states of one edge; all pairs of graphs on different sets of 2 and 3 variables; all ways to name two of 7 and three of 4 experiments and versions with overlapping names",
    "thorough": "all ordered pairs of the 125 graphs with bidirected edges; all triples of the 16 graphs on one fixed and one free edge",
}
NAMES = ["b", "A", "c"]
PAIRS = [(0, 1), (0, 2), (1, 2)]
STATES = ["none", "undirected", "to", "from", "bi"]
SYMBOL = {"none": "", "undirected": "---", "to": "-->", "from": "-->", "bi": "<->"}


def stored(graph, order=(0, 1, 2)):
    """the text of a result with this graph: graph[i] is the state of PAIRS[i]"""
    g = GraphManager()
    nodes = {}
    for i in order:
        nodes[i] = g.add_node(NAMES[i], [1.0, 2.0], id_=NAMES[i])
    for (u, v), s in zip(PAIRS, graph):
        if s == "undirected":
            g.add_edge(nodes[u], nodes[v], {"p": 0.5})
        elif s == "to":
            g.add_directed_edge(nodes[u], nodes[v], {})
        elif s == "from":
            g.add_directed_edge(nodes[v], nodes[u], {})
        elif s == "bi":
            g.add_edge(nodes[u], nodes[v], {})
            for e in g.retrieve_edges():
                if {e.u.id, e.v.id} == {NAMES[u], NAMES[v]}:
                    e.edge_type = BiDirectedEdge()
    r = Result(algorithm=AlgorithmReference(type="name", reference="PC"), action_history=[], edges=g.retrieve_edges(), nodes=g.nodes)
    return json.dumps(r.model_dump(), cls=CausyJSONEncoder, indent=4)


def text(graph, order=(0, 1, 2)):
    k = tuple(graph), order
    if k not in TEXT:
        TEXT[k] = stored(graph, order)
    return TEXT[k]


TEXT = {}
SGR = re.compile(r"\x1b\[([0-9;]*)m")


def show(args):
    """-> exit code, exception, header, rows {edge: (cells, colours)}"""
    old = {k: os.environ.get(k) for k in ("NO_COLOR", "FORCE_COLOR", "TERM", "COLUMNS")}
    os.environ.pop("NO_COLOR", None)
    os.environ.update(FORCE_COLOR="1", TERM="xterm-256color", COLUMNS="200")
    try:
        code, out, exc = ws.cli(["workspace", "diff"] + args)
    finally:
        for k, v in old.items():
            os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)
    rows, header, other = [], None, []
    for line in out.splitlines():
        plain = SGR.sub("", line)
        cells = [c.strip() for c in re.split("[│┃|]", plain)]
        if len(cells) < 3:
            continue
        cells = cells[1:-1]
        if cells[0] == "Edge":
            header = cells[1:]
            continue
        if not re.fullmatch(r"\S+ - \S+", cells[0]):
            other.append(plain)
            continue
        cols = set()
        for c in SGR.findall(line):
            for x in c.split(";"):
                if x in ("31", "32", "91", "92"):
                    cols.add({"1": "red", "2": "green"}[x[-1]])
        rows.append((frozenset(cells[0].split(" - ")), cells[1:], sorted(cols)))
    return code, exc, header, rows


def folder(experiments):
    ws.put(
        Workspace(
            name="w",
            author="a",
            pipelines={"p": {"type": "name", "reference": "PC"}},
            dataloaders={"d": {"type": "json", "reference": "d.json"}},
            experiments={e: {"pipeline": "p", "dataloader": "d", "variables": {}} for e in experiments},
        )
    )


def expected(graphs, only):
    out = []
    for i, (u, v) in enumerate(PAIRS):
        col = [g[i] for g in graphs]
        if all(s == "none" for s in col):
            continue
        same = len(set(col)) == 1
        if only and same:
            continue
        out.append((frozenset((NAMES[u], NAMES[v])), [SYMBOL[s] for s in col], ["green"] if same else ["red"]))
    return sorted(out, key=lambda r: sorted(r[0]))


def compare(sh, names, graphs, key):
    for only in (False, True):
        code, exc, head, rows = show(list(names) + (["--only-differences"] if only else []))
        want = expected(graphs, only)
        got = sorted(rows, key=lambda r: sorted(r[0]))
        sh.add(transitions=1, traces_validated_against_impl=1)
        ok = exc is None and code == 0 and got == want and (head is not None and len(head) == len(graphs))
        sh.check(
            ok,
            "a row for every edge of any result, marked as equal exactly if all results have that edge",
            key="%s only=%s" % (key, only),
            graphs=graphs,
            got=[(sorted(r[0]), r[1], r[2]) for r in got],
            want=[(sorted(r[0]), r[1], r[2]) for r in want],
            header=head,
            error=repr(exc),
        )
    sh.add(states=1)


def pairs(sh, item):
    states = STATES[: item["states"]]
    first = item["first"]
    with scratch() as d, ws.inside(d):
        folder(["e", "f"])
        with open("e_100.json", "w") as f:
            f.write(text(first))
        for second in itertools.product(states, repeat=3):
            with open("f_100.json", "w") as f:
                f.write(text(second, (2, 0, 1)))
            compare(sh, ["e", "f"], [first, list(second)], "pair")
    sh.sample({"first": first, "second": list(second)})


def triples(sh, item):
    with scratch() as d, ws.inside(d):
        folder(["e", "f", "g"])
        rest = item["rest"]
        for s in itertools.product(STATES, repeat=2):
            for t in item["thirds"]:
                graphs = [[item["first"], *rest], [s[0], *rest], [s[1], t, rest[1]]]
                for e, g in zip("efg", graphs):
                    with open("%s_7.json" % e, "w") as f:
                        f.write(text(g))
                compare(sh, ["e", "f", "g"], graphs, "triple")


def naming(sh, item):
    """names of experiments and of versions"""
    content = {
        "e_5.json": ["to", "none", "none"],
        "e_12.json": ["undirected", "none", "none"],
        "e_1_5.json": ["from", "none", "none"],
        "e_1_3.json": ["none", "to", "none"],
        "f_9.json": ["none", "none", "to"],
    }
    meaning = {
        "e": "e_12.json",
        "e_5": "e_5.json",
        "e_12": "e_12.json",
        "e_1": "e_1_5.json",
        "e_1_5": "e_1_5.json",
        "e_1_3": "e_1_3.json",
        "f": "f_9.json",
    }
    with scratch() as d, ws.inside(d):
        folder(["e", "e_1", "f", "empty"])
        for n, g in content.items():
            with open(n, "w") as f:
                f.write(text(g))
        for a, b in itertools.product(meaning, repeat=2):
            compare(sh, [a, b], [content[meaning[a]], content[meaning[b]]], "naming %s %s" % (a, b))
        for three in itertools.product(["e", "e_12", "e_1", "e_1_3"], repeat=3):
            compare(sh, three, [content[meaning[x]] for x in three], "naming %r" % (three,))
        for bad in ("nope", "e_7", "nope_5", "e_x", "empty", "empty_5"):
            for args in (["e", bad], [bad, "e"]):
                code, exc, head, rows = show(args)
                sh.add(transitions=1, traces_validated_against_impl=1)
                sh.check(not rows, "no comparison with something that does not exist", key="bad name " + bad, rows=str(rows)[:200])
        code, exc, head, rows = show(["e"])
        sh.check(not rows and exc is None, "one experiment is not compared", key="single", rows=str(rows))
        before = ws.files()
        show(["e", "f"])
        sh.check(ws.files() == before, "comparing changes nothing", key="changes")


ORDERS = [(0, 1), (1, 0), (2, 0), (1, 2), (2, 1, 0)]


def on(order, states):
    free = [set(p) <= set(order) for p in PAIRS]
    for st in itertools.product(states, repeat=sum(free)):
        it = iter(st)
        yield [next(it) if f else "none" for f in free]


def variables(sh, item):
    """results on different sets of variables, listed in different orders"""
    a, b = (tuple(x) for x in item["orders"])
    with scratch() as d, ws.inside(d):
        folder(["e", "f"])
        for first in on(a, STATES[:4] if len(a) == 2 else STATES[:3]):
            with open("e_3.json", "w") as f:
                f.write(text(first, a))
            for second in on(b, STATES[:4] if len(b) == 2 else STATES[:3]):
                with open("f_3.json", "w") as f:
                    f.write(text(second, b))
                compare(sh, ["e", "f"], [first, second], "variables %r %r" % (a, b))


def many(sh, item):
    """many variables and many results"""
    global NAMES, PAIRS
    old = NAMES, PAIRS, dict(TEXT)
    n, k = item["n"], item["results"]
    NAMES = ["x%d" % i for i in range(n)]
    PAIRS = list(itertools.combinations(range(n), 2))
    TEXT.clear()
    try:
        with scratch() as d, ws.inside(d):
            names = ["e%d" % i for i in range(k)]
            folder(names)
            # one edge differs in one of the results
            for where in [None] + sorted({0, 1, len(PAIRS) // 2, len(PAIRS) - 1}):
                for who in sorted({0, 1, k - 1}) if where is not None else [0]:
                    base = [STATES[(i * i + i) % 3 + 1] if i % 4 else "none" for i in range(len(PAIRS))]
                    gs = []
                    for j in range(k):
                        g = list(base)
                        if j == who and where is not None:
                            g[where] = {"none": "to", "to": "from", "from": "undirected", "undirected": "none"}[g[where]]
                        gs.append(g)
                        with open("e%d_3.json" % j, "w") as f:
                            f.write(text(g, tuple(range(n))))
                    sh.add(states=1)
                    compare(sh, names, gs, "many %d %d %r %d" % (n, k, where, who))
    finally:
        NAMES, PAIRS = old[:2]
        TEXT.clear()
        TEXT.update(old[2])


def run(ctx):
    ctx.explore(many, [{"n": n, "results": k} for n, k in ((3, 4), (3, 7), (6, 2), (12, 2), (12, 3))], name="many variables and results", limit=300)
    ctx.explore(variables, [{"orders": [a, b]} for a in ORDERS for b in ORDERS if len(a) + len(b) < 6], name="sets of variables", limit=300)
    k = ctx.pick(4, 5)
    ctx.explore(pairs, [{"states": k, "first": list(g)} for g in itertools.product(STATES[:k], repeat=3)], name="pairs of graphs", limit=900)
    thirds = ctx.pick(["none"], STATES)
    rests = [["none", "to"], ["undirected", "none"]]
    ctx.explore(triples, [{"first": s, "rest": r, "thirds": [r[0]] if not ctx.thorough else thirds} for s in STATES for r in rests], name="triples", limit=900)
    ctx.explore(naming, [{}], name="names")
