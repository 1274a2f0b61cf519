"""C04: d-separation in a CPDAG agrees with every DAG of the equivalence class."""
import itertools

from lib import cg
from lib import graphs as G
from lib import orient as O
from lib.harness import HarnessError, call

PROPERTY = "C04"
LEVEL = "model_checking"
ASSUMPTIONS = ["oracle: d-separation in the member DAGs of the Markov equivalence class (they all agree, which is checked)"]
BOUNDS = {
    "quick": "all CPDAGs with <= 4 nodes (4 constructions, all pairs, all conditioning sets); CPDAGs of the 302 isomorphism classes of 5-node DAGs; all CPDAGs on a path and a tree with 7 and a cycle and a ladder with 6 nodes; 12 chains, stars and zigzags with 9 and 12 nodes in 3 orders, conditioning sets of at most 2 and 1 nodes",
    "thorough": "as quick, plus all 8782 CPDAGs with 5 nodes",
}


def one(sh, n, pdag, member, mode, form, check_class, most=None):
    m = cg.build(n, pdag, mode)
    I = cg.ident
    cls = G.equivalence_class(n, member) if check_class else [member]
    for x in range(n):
        for y in range(n):
            if x == y:
                continue
            rest = [i for i in range(n) if i not in (x, y)]
            for z in G.subsets(rest) if most is None else [t for k in range(most + 1) for t in itertools.combinations(rest, k)]:
                want = G.dsep(n, member, x, y, z)
                if any(G.dsep(n, d, x, y, z) != want for d in cls):
                    raise HarnessError("class members disagree")
                if form == "id":
                    a, b, c = I(x), I(y), [I(i) for i in z]
                else:
                    a, b, c = m.nodes[I(x)], m.nodes[I(y)], [m.nodes[I(i)] for i in reversed(z)]
                got = call(m.are_nodes_d_separated_cpdag, a, b, c)
                sh.add(transitions=1)
                sh.check(
                    got == ("ok", want),
                    "d-separation in a CPDAG",
                    key="cpdag=%r %d _|_ %d | %r" % (sorted(pdag), x, y, z),
                    cpdag=sorted(pdag),
                    x=x,
                    y=y,
                    z=list(z),
                    mode=mode,
                    got=repr(got),
                    want=want,
                )
                if z == () and mode == "direct":
                    got = call(m.are_nodes_d_separated_cpdag, I(x), I(y), [I(y)])
                    sh.check(got[:2] == ("exc", "ValueError"), "conditioning on an end point is rejected", got=repr(got))


def part(sh, item):
    n = item["n"]
    if item.get("iso"):
        ps = sorted({(tuple(sorted(G.cpdag(n, d))), d) for d in G.iso_classes(n)}, key=lambda t: t[0])
        ps = [(frozenset(p), d) for p, d in ps]
    else:
        ps = G.cpdag_classes(n)
    for i, (p, d) in enumerate(ps):
        if i % item["of"] != item["k"]:
            continue
        for j, mode in enumerate(item["modes"]):
            one(sh, n, p, d, mode, "id" if j % 2 else "node", n < 5)
            sh.add(traces_validated_against_impl=1)
        sh.add(states=1)
        sh.sample([n, sorted(p)])


def family(sh, item):
    n, classes = G.family_classes(item["family"], item["label"])
    for i, (p, ms) in enumerate(classes):
        if i % item["of"] == item["k"]:
            sh.add(states=1, traces_validated_against_impl=1)
            one(sh, n, p, ms[0], cg.MODES[i // item["of"] % 4], "id" if i % 2 else "node", False)


def long_part(sh, item):
    n, dag = list(G.long_dags())[item["g"]]
    dag = G.long_relabel(n, dag, item["label"])
    sh.add(states=1, traces_validated_against_impl=1)
    one(sh, n, O.pattern_closure(n, dag), dag, cg.MODES[(item["g"] + item["label"]) % 4], "node", False, most=2 if n < 10 else 1)
    sh.sample([n, sorted(dag)])


def run(ctx):
    ctx.explore(long_part, [{"g": g, "label": l} for g in range(len(list(G.long_dags()))) for l in range(3)], name="long graphs", limit=600)
    ctx.explore(family, [{"family": f, "label": l, "k": k, "of": 8} for f in sorted(G.FAMILIES) for l in ((0, 1) if ctx.thorough else (1,)) for k in range(8)], name="larger graphs", limit=600)
    ctx.explore(part, [{"n": n, "k": 0, "of": 1, "modes": cg.MODES} for n in (2, 3)], name="n<=3")
    ctx.explore(part, [{"n": 4, "k": k, "of": 32, "modes": cg.MODES} for k in range(32)], name="n=4", limit=300)
    G.iso_classes(5)
    G._classes(5)
    ctx.explore(part, [{"n": 5, "iso": 1, "k": k, "of": 64, "modes": ["direct", "soft"]} for k in range(64)], name="n=5 iso", limit=600)
    if ctx.thorough:
        ctx.explore(part, [{"n": 5, "k": k, "of": 256, "modes": ["direct"]} for k in range(256)], name="n=5", limit=3000)
