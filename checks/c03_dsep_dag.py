"""C03: d-separation in a DAG, for every DAG, pair and conditioning set."""
import itertools

from lib import cg
from lib import graphs as G
from lib.harness import HarnessError, call

PROPERTY = "C03"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "oracle: moralised ancestral graph, cross-checked against Bayes-ball on every query",
]
BOUNDS = {
    "quick": "all DAGs with <= 4 nodes in 4 constructions, one DAG per isomorphism class with 5 nodes, all orientations of a path and a tree with 7 and a cycle and a ladder with 6 nodes; every pair, every conditioning set; 12 chains, stars and zigzags with 9 and 12 nodes in 3 orders, conditioning sets of at most 2 and 1 nodes",
    "thorough": "as quick, plus all 29281 DAGs with 5 nodes",
}


def one(sh, n, dag, mode, forms, most=None):
    m = cg.build(n, dag, mode)
    I = cg.ident
    for x in range(n):
        for y in range(n):
            if x == y:
                continue
            rest = [i for i in range(n) if i not in (x, y)]
            for z in G.subsets(rest) if most is None else [t for k in range(most + 1) for t in itertools.combinations(rest, k)]:
                want = G.dsep(n, dag, x, y, z)
                if want != G.dsep_bayes_ball(n, dag, x, y, z):
                    raise HarnessError("oracles disagree")
                for form in forms:
                    if form == "id":
                        a, b, c = I(x), I(y), [I(i) for i in z]
                    elif form == "node":
                        a, b, c = m.nodes[I(x)], m.nodes[I(y)], [m.nodes[I(i)] for i in z]
                    else:
                        a, b = m.nodes[I(x)], I(y)
                        c = [m.nodes[I(i)] if k % 2 else I(i) for k, i in enumerate(reversed(z))]
                    got = call(m.are_nodes_d_separated_dag, a, b, c)
                    sh.add(transitions=1)
                    sh.check(
                        got == ("ok", want),
                        "d-separation in a DAG",
                        key="dag=%r %d _|_ %d | %r" % (sorted(dag), x, y, z),
                        dag=sorted(dag),
                        x=x,
                        y=y,
                        z=list(z),
                        mode=mode,
                        got=repr(got),
                        want=want,
                    )
                if z == () and mode == "direct":
                    for bad in ([I(x)], [m.nodes[I(y)]]):
                        got = call(m.are_nodes_d_separated_dag, I(x), I(y), bad)
                        sh.check(got[:2] == ("exc", "ValueError"), "conditioning on an end point is rejected", dag=sorted(dag), got=repr(got))


def part(sh, item):
    n = item["n"]
    dags = G.iso_classes(n) if item.get("iso") else G.all_dags(n)
    for i, dag in enumerate(dags):
        if i % item["of"] != item["k"]:
            continue
        for mode in item["modes"]:
            one(sh, n, dag, mode, item["forms"])
            sh.add(traces_validated_against_impl=1)
        sh.add(states=1)
        sh.sample([n, sorted(dag)])


def family(sh, item):
    for i, (n, dag) in enumerate(G.family_dags(item["family"], item["label"])):
        if i % item["of"] == item["k"]:
            sh.add(states=1, traces_validated_against_impl=1)
            one(sh, n, dag, cg.MODES[i // item["of"] % 4], ["mixed"])


def long_part(sh, item):
    n, dag = list(G.long_dags())[item["g"]]
    sh.add(states=1, traces_validated_against_impl=1)
    one(sh, n, G.long_relabel(n, dag, item["label"]), cg.MODES[(item["g"] + item["label"]) % 4], ["mixed"], most=2 if n < 10 else 1)
    sh.sample([n, sorted(dag)])


def run(ctx):
    ctx.explore(long_part, [{"g": g, "label": l} for g in range(len(list(G.long_dags()))) for l in range(3)], name="long graphs", limit=600)
    ctx.explore(family, [{"family": f, "label": l, "k": k, "of": 8} for f in sorted(G.FAMILIES) for l in ((0, 1) if ctx.thorough else (1,)) for k in range(8)], name="larger graphs", limit=600)
    ctx.explore(part, [{"n": n, "k": 0, "of": 1, "modes": cg.MODES, "forms": ["id", "node", "mixed"]} for n in (2, 3)], name="n<=3")
    ctx.explore(part, [{"n": 4, "k": k, "of": 64, "modes": cg.MODES, "forms": ["id", "mixed"]} for k in range(64)], name="n=4", limit=300)
    G.iso_classes(5)
    ctx.explore(part, [{"n": 5, "iso": 1, "k": k, "of": 64, "modes": ["direct", "soft"], "forms": ["id"]} for k in range(64)], name="n=5 iso", limit=600)
    if ctx.thorough:
        ctx.explore(part, [{"n": 5, "k": k, "of": 256, "modes": ["direct"], "forms": ["node"]} for k in range(256)], name="n=5", limit=3000)
