"""C10: the orientation rules orient exactly what every consistent DAG agrees on,
and never lose an adjacency."""
import itertools

from lib import cg
from lib import graphs as G
from lib import orient as O
from checks.c09_colliders import outcomes4

PROPERTY = "C10"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "exactness is claimed for graphs which have a consistent extension to a DAG; adjacencies are claimed for every graph",
    "oracle: the set of all DAGs with the same skeleton, the same unshielded colliders and the given arrows",
]
BOUNDS = {
    "quick": "chains, stars and zigzags with 8 to 24 nodes in 3 orders; all 4096 mixed graphs with 4 nodes x 2 constructions, and each of the 4 rules alone on each; all 15625 test outcomes with 4 nodes x 2 strategies; patterns of all 302 isomorphism classes of 5-node DAGs under 5 relabelings; all ways to add one known arrow to them; the same for all classes on a path and a tree with 7 and a cycle and a ladder with 6 nodes",
    "thorough": "as quick; patterns of all 8782 5-node CPDAGs; all extendable one-arrow extensions; 5-node test outcomes with up to 6 triples (adjacencies)",
}


def consistent(by, n, arcs):
    d = [a for a in arcs if (a[1], a[0]) not in arcs]
    v = O.pdag_v_structures(n, arcs)
    return [x for x, vs in by.get(G.skeleton(arcs), []) if vs == v and all(a in x for a in d)]


def types_ok(sh, m, key):
    for (a, b), t in cg.types_of(m.graph).items():
        want = "UNDIRECTED" if m.graph.directed_edge_exists(cg.ident(b), cg.ident(a)) else "DIRECTED"
        sh.check(t == want, "the edge type says whether the edge is oriented", key="type " + key, arc=[a, b], got=t, want=want)


def closure(sh, by, n, arcs, mode):
    m = O.from_pdag(n, arcs, lambda n, a, g: cg.build(n, a, mode, manager=g))
    got = cg.arcs_of(m.graph)
    sh.add(traces_validated_against_impl=1, transitions=1 + len(arcs) - len(got))
    key = "n=%d %r %s" % (n, sorted(arcs), mode)
    if not sh.check(G.skeleton(got) == G.skeleton(arcs), "rules keep the skeleton", key="skeleton " + key, got=sorted(got), arcs=sorted(arcs)):
        return
    sh.check(got <= arcs, "rules only remove directions", key="subset " + key, got=sorted(got), arcs=sorted(arcs))
    types_ok(sh, m, key)
    ext = consistent(by, n, arcs)
    if ext:
        want = frozenset().union(*ext)
        sh.check(got == want, "rules orient exactly the compelled edges", key=key, got=sorted(got), want=sorted(want), arcs=sorted(arcs))
        sh.add(extendable=1)


def rule_alone(sh, by, n, arcs):
    builder = lambda n, a, g: cg.build(n, a, "direct", manager=g)
    ext = consistent(by, n, arcs)
    for rule in O.RULES:
        may = O.meek(rule, n, arcs)
        key = "rule %d %r" % (rule, sorted(arcs))
        got = cg.arcs_of(O.from_pdag(n, arcs, builder, O.single(rule, False)).graph)
        sh.add(traces_validated_against_impl=1, transitions=1 + len(arcs) - len(got))
        done = {(b, a) for a, b in arcs - got}
        sh.check(got <= arcs and done <= may, "a rule orients only what its premise names", key=key, rule=rule, oriented=sorted(done), premise=sorted(may), arcs=sorted(arcs))
        if not ext:
            continue
        sh.check(bool(done) == bool(may), "a rule whose premise holds orients something", key="progress " + key, rule=rule, premise=sorted(may), arcs=sorted(arcs))
        want = set(arcs)
        while True:
            more = {(b, a) for a, b in O.meek(rule, n, want)}
            if not more:
                break
            want -= more
        if may:
            got = cg.arcs_of(O.from_pdag(n, arcs, builder, O.single(rule, True)).graph)
            sh.add(traces_validated_against_impl=1, transitions=1 + len(arcs) - len(got))
        sh.check(got == want, "a rule repeated on its own orients all that its premise names", key="closure " + key, rule=rule, got=sorted(got), want=sorted(want), arcs=sorted(arcs))


_BY = {}


def by(n):
    if n not in _BY:
        _BY[n] = O.extensions(n)
    return _BY[n]


def mixed(sh, item):
    n = item["n"]
    for i, arcs in enumerate(G.all_mixed(n)):
        if i % item["of"] != item["k"]:
            continue
        sh.add(states=1)
        for mode in item["modes"]:
            closure(sh, by(n), n, arcs, mode)
        rule_alone(sh, by(n), n, arcs)
        sh.sample([n, sorted(arcs)])


def outcomes(sh, item):
    for i, (sk, sep) in enumerate(outcomes4()):
        if i % item["of"] != item["k"]:
            continue
        sh.add(states=1)
        for strat in ("KEEP_FIRST", "KEEP_LAST"):
            m = O.from_tests(4, sk, sep, strat, True, i % 2 == 1)
            got = cg.arcs_of(m.graph)
            sh.add(traces_validated_against_impl=1, transitions=1)
            key = "sk=%r sep=%r %s" % (sorted(sk), {k: v for k, v in sep.items() if k not in sk}, strat)
            sh.check(G.skeleton(got) == sk, "orientation keeps the skeleton", key="skeleton " + key, got=sorted(got), skeleton=sorted(sk))
            col, conflict = O.orient_reference(4, sk, sep, strat)
            sh.check(got <= col, "rules keep the colliders", key="colliders " + key, got=sorted(got), want=sorted(col))
            types_ok(sh, m, key)
            ext = consistent(by(4), 4, col)
            if not conflict and ext:
                want = frozenset().union(*ext)
                sh.check(got == want, "colliders and rules give the compelled edges", key=key, got=sorted(got), want=sorted(want))


def outcomes5(sh, item):
    n = 5
    ps = G.pairs(n)
    for k in item["ks"]:
        sk = frozenset(p for i, p in enumerate(ps) if k >> i & 1)
        tri = O.colliders(n, sk, {})
        if not tri or len(tri) > item["max"]:
            continue
        for bits in itertools.product((0, 1), repeat=len(tri)):
            sep = {}
            for (x, y, z), b in zip(tri, bits):
                if b:
                    sep.setdefault((x, y), []).append(z)
            sh.add(states=1)
            for strat in ("KEEP_FIRST", "KEEP_LAST"):
                m = O.from_tests(n, sk, sep, strat, True)
                got = cg.arcs_of(m.graph)
                sh.add(traces_validated_against_impl=1, transitions=1)
                sh.check(G.skeleton(got) == sk, "orientation keeps the skeleton", key="skeleton5 %d %r %s" % (k, bits, strat), got=sorted(got), skeleton=sorted(sk), sep=repr(sep))


def pattern(n, dag):
    sk = G.skeleton(dag)
    arcs = {a for p in sk for a in (p, p[::-1])}
    for x, c, y in G.v_structures(n, dag):
        arcs -= {(c, x), (c, y)}
    return frozenset(arcs)


PERMS5 = [(0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (2, 0, 4, 1, 3), (1, 4, 0, 3, 2), (3, 2, 1, 4, 0)]


def patterns(sh, item):
    n = 5
    reps = G.iso_classes(n) if item["iso"] else [min(map(sorted, ds)) for ds in item_classes(n)]
    for i, d in enumerate(reps):
        if i % item["of"] != item["k"]:
            continue
        for perm in PERMS5 if item["iso"] else PERMS5[:1]:
            dag = G.relabel(frozenset(map(tuple, d)), perm)
            p = pattern(n, dag)
            sh.add(states=1)
            closure(sh, by(n), n, p, "direct")
            rule_alone(sh, by(n), n, p)
            if perm == PERMS5[0]:
                # one more arrow is known
                cp = frozenset().union(*consistent(by(n), n, p))
                for a, b in sorted(cp):
                    if (b, a) in cp:
                        q = p - {(b, a)}
                        if consistent(by(n), n, q):
                            sh.add(states=1)
                            closure(sh, by(n), n, q, "soft")
                            rule_alone(sh, by(n), n, q)


def item_classes(n):
    by_ = {}
    for d in G.all_dags(n):
        by_.setdefault((G.skeleton(d), G.v_structures(n, d)), []).append(sorted(d))
    return [by_[k] for k in sorted(by_, key=lambda k: (sorted(k[0]), sorted(k[1])))]


def family(sh, item):
    n, classes = G.family_classes(item["family"], item["label"])
    for i, (cp, ms) in enumerate(classes):
        if i % item["of"] != item["k"]:
            continue
        p = pattern(n, ms[0])
        cases = [(p, ms)]
        for a, b in sorted(p):
            if (b, a) in p:
                cases.append((p - {(b, a)}, [d for d in ms if (a, b) in d]))
        for q, ext in cases:
            if not ext:
                continue
            sh.add(states=1)
            table = {G.skeleton(q): [(d, G.v_structures(n, d)) for _, c in classes for d in c]}
            closure(sh, table, n, q, "direct" if i % 2 else "soft")
            rule_alone(sh, table, n, q)


def long_part(sh, item):
    """orientations that take many repetitions"""
    n, dag = list(G.long_dags((8, 12, 16, 24)))[item["g"]]
    dag = G.long_relabel(n, dag, item["label"])
    p = pattern(n, dag)
    cases = [p] + [p - {(b, a)} for a, b in sorted(p) if (b, a) in p][:2]
    for q in cases:
        want = closed(n, q)
        m = O.from_pdag(n, q, lambda n, a, g: cg.build(n, a, "direct", manager=g))
        got = cg.arcs_of(m.graph)
        sh.add(states=1, traces_validated_against_impl=1, transitions=1 + len(q) - len(got))
        sh.check(got == want, "rules orient exactly the compelled edges", key="long n=%d %r" % (n, sorted(q)), got=sorted(got), want=sorted(want), arcs=sorted(q))
        types_ok(sh, m, "long n=%d %r" % (n, sorted(q)))
    sh.sample([n, sorted(dag)])


def closed(n, arcs):
    """Meek's rules until nothing changes"""
    arcs = set(arcs)
    while True:
        more = {(b, a) for r in O.RULES for a, b in O.meek(r, n, arcs)}
        if not more:
            return frozenset(arcs)
        arcs -= more


def run(ctx):
    ctx.explore(long_part, [{"g": g, "label": l} for g in range(24) for l in range(3)], name="long graphs", limit=600)
    ctx.explore(family, [{"family": f, "label": l, "k": k, "of": 6} for f in sorted(G.FAMILIES) for l in (0, 1) for k in range(6)], name="larger graphs", limit=600)
    for n in (3, 4):
        by(n)
    ctx.explore(mixed, [{"n": 3, "k": 0, "of": 1, "modes": ["direct", "soft"]}] + [{"n": 4, "k": k, "of": 64, "modes": ["direct", "soft"]} for k in range(64)], name="mixed graphs", limit=600)
    ctx.explore(outcomes, [{"k": k, "of": 128} for k in range(128)], name="test outcomes n=4", limit=600)
    by(5)
    G.iso_classes(5)
    ctx.explore(patterns, [{"iso": 1, "k": k, "of": 64} for k in range(64)], name="patterns n=5", limit=900)
    if ctx.thorough:
        ctx.explore(patterns, [{"iso": 0, "k": k, "of": 256} for k in range(256)], name="all patterns n=5", limit=3000)
        ctx.explore(outcomes5, [{"ks": [k], "max": 6} for k in range(1024)], name="test outcomes n=5", limit=3000)
