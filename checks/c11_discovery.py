"""C11: the discovery algorithms return the CPDAG of the data-generating DAG."""
import itertools

from lib import discovery as D
from lib import graphs as G
from lib import orient as O
from lib.harness import HarnessError

from causy.models import TestResultAction

PROPERTY = "C11"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "the sample (partial) correlations vanish exactly for d-separated and are highly significant for d-connected variables",
    "ParallelPC runs with the stand-in pool in task order (C13 explores other orders)",
]
BOUNDS = {
    "quick": "all DAGs with 2, 3 and 4 nodes x 4 algorithms; the 302 isomorphism classes of 5-node DAGs under 3 relabelings (PC, and one of the others); 14 families with 6 and 7 nodes in which only all 4 or 5 other variables together separate two, in 2 orders, x 4 algorithms; chains, zigzags, stars and fans with 7 and 9 nodes in 3 orders",
    "thorough": "as quick, plus all 29281 DAGs with 5 nodes x 4 algorithms; chains, zigzags, stars and fans with 7 and 9 nodes in 3 orders",
}


def cpdag(n, dag):
    if n <= 5:
        return G.cpdag(n, dag)
    return O.pattern_closure(n, dag)


def deep(k, forks, dense):
    """two variables which only all k others together separate"""
    a, b = 0, k + 1
    arcs = {(i, a) if i <= forks else (a, i) for i in range(1, k + 1)} | {(i, b) for i in range(1, k + 1)}
    if dense:
        arcs |= set(itertools.combinations(range(1, k + 1), 2))
    return k + 2, frozenset(arcs)


def deep_part(sh, item):
    n, dag = deep(item["k"], item["forks"], item["dense"])
    perm = item["perm"][:n]
    perm = [sorted(perm).index(x) for x in perm]
    dag = G.relabel(dag, perm)
    if any(O.pattern_closure(4, d) != G.cpdag(4, d) for d in G.iso_classes(4)):
        raise HarnessError("the oracle for large graphs is wrong")
    sh.add(states=1)
    for alg in sorted(D.ALGS):
        one(sh, n, dag, alg)
    sh.sample(item)


def long_part(sh, item):
    n, dag = list(G.long_dags(item["sizes"]))[item["g"]]
    dag = G.long_relabel(n, dag, item["label"])
    sh.add(states=1)
    for alg in item["algs"]:
        one(sh, n, dag, alg, D.long_data)
    sh.sample(item)


def one(sh, n, dag, alg, data=D.data):
    names = D.NAMES[:n]
    cols, w = data(n, dag)
    m = D.fit(alg, cols, names)
    got = D.arcs(m, names)
    want = cpdag(n, dag)
    key = "%s n=%d dag=%r" % (alg, n, sorted(dag))
    sh.add(traces_validated_against_impl=1, transitions=len(list(m.graph.action_history)))
    sh.check(got == want, "discovered graph is the CPDAG", key=key, dag=sorted(dag), got=sorted(got), want=sorted(want), alg=alg)
    g = m.graph
    ix = {nd.id: names.index(nd.name) for nd in g.nodes.values()}
    for u, v in itertools.combinations(g.nodes, 2):
        if g.edge_exists(u, v):
            both = g.directed_edge_exists(u, v) and g.directed_edge_exists(v, u)
            for a, b in ((u, v), (v, u)):
                if g.directed_edge_exists(a, b):
                    t = g.edge_type(a, b).name
                    sh.check(t == ("UNDIRECTED" if both else "DIRECTED"), "edge type of a discovered edge", key="type " + key, got=t)
            continue
        seps = [
            frozenset(ix[z.id] for z in r.data["separatedBy"])
            for r in g.retrieve_edge_history(g.nodes[u], g.nodes[v], TestResultAction.REMOVE_EDGE_UNDIRECTED)
            if "separatedBy" in (r.data or {})
        ]
        sh.check(
            bool(seps) and all(G.dsep(n, dag, ix[u], ix[v], s) for s in seps),
            "a removed edge comes with a separating set",
            key="sepset " + key,
            dag=sorted(dag),
            pair=[ix[u], ix[v]],
            got=[sorted(s) for s in seps],
        )


PERMS = [(0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (2, 4, 0, 3, 1)]


def part(sh, item):
    n = item["n"]
    dags = G.iso_classes(n) if item.get("iso") else G.all_dags(n)
    for i, d in enumerate(dags):
        if i % item["of"] != item["k"]:
            continue
        for p in PERMS if item.get("iso") else [tuple(range(n))]:
            dag = G.relabel(d, p)
            sh.add(states=1)
            algs = item["algs"]
            if item.get("iso"):
                algs = ["PC", ["PCStable", "PCClassic", "ParallelPC"][(i + p[0]) % 3]]
            for alg in algs:
                one(sh, n, dag, alg)
        sh.sample([n, sorted(d)])


def run(ctx):
    allalg = sorted(D.ALGS)
    sizes = ctx.pick([7, 9], [7, 9, 11])
    # the copies PCStable makes of the data take long: only where there are few rows
    fast = [x for x in allalg if x != "PCStable"]
    long = [(g, [allalg, fast][g >= 6 or g % 6 == 2]) for g in range(6 * len(sizes)) if g < 6 or g % 6 != 2]
    ctx.explore(long_part, [{"sizes": sizes, "g": g, "label": l, "algs": a} for g, a in long for l in range(3)], name="long graphs", limit=900)
    ctx.explore(part, [{"n": n, "k": 0, "of": 1, "algs": allalg} for n in (1, 2, 3)], name="n<=3")
    ctx.explore(part, [{"n": 4, "k": k, "of": 64, "algs": allalg} for k in range(64)], name="n=4", limit=300)
    G.iso_classes(5)
    G.cpdag(5, frozenset())
    ctx.explore(part, [{"n": 5, "iso": 1, "k": k, "of": 64, "algs": []} for k in range(64)], name="n=5 iso", limit=900)
    ks = [(4, f, 0) for f in range(5)] + [(5, f, 0) for f in range(6)] + [(4, f, 1) for f in (1, 2, 4)]
    if ctx.thorough:
        ks += [(6, f, 0) for f in range(7)]
    ctx.explore(deep_part, [{"k": k, "forks": f, "dense": d, "perm": p} for k, f, d in ks for p in ([0, 1, 2, 3, 4, 5, 6, 7], [5, 2, 7, 0, 3, 6, 1, 4]) if not d or p[0] == 0], name="deep separating sets", limit=900)
    if ctx.thorough:
        ctx.explore(part, [{"n": 5, "k": k, "of": 512, "algs": allalg} for k in range(512)], name="n=5", limit=7200)
