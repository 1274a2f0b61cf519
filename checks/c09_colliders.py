"""C09: collider orientation follows the separating sets, for every outcome of
the independence tests, and conflicts are resolved as configured."""
import itertools

from lib import cg
from lib import graphs as G
from lib import orient as O

PROPERTY = "C09"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "the outcome of the independence tests is a skeleton and one separating set per removed pair",
    "for 5 nodes separating sets only contain common neighbours (no other node is ever looked at)",
]
BOUNDS = {
    "quick": "12 skeletons (chains, stars) with 7 and 9 nodes in 3 orders x 9 choices of separating sets; repeated separation: all pairs of sets for one pair of all skeletons with 3 and 4 nodes; all partially directed graphs with 3 and 4 nodes and an undirected edge, all sets of common neighbours; all 15625 outcomes with 4 nodes x 2 strategies x 2 recording orders; 5 nodes: all skeletons with at most 6 unshielded triples, all assignments, both strategies for up to 4 triples",
    "thorough": "5 nodes: all skeletons, all assignments of all unshielded triples, both strategies",
}


def outcomes4():
    ps = G.pairs(4)
    for st in itertools.product(range(5), repeat=6):
        sk = frozenset(p for p, s in zip(ps, st) if s == 4)
        sep = {}
        for p, s in zip(ps, st):
            rest = [i for i in range(4) if i not in p]
            if s < 4:
                sep[p] = [rest[k] for k in range(2) if s >> k & 1]
        yield sk, sep


def judge(sh, n, sk, sep, strat, flip):
    m = O.from_tests(n, sk, sep, strat, False, flip)
    got = cg.arcs_of(m.graph)
    want, conflict = O.orient_reference(n, sk, sep, strat)
    d = dict(skeleton=sorted(sk), sep=repr({k: v for k, v in sep.items() if k not in sk}), strategy=strat, got=sorted(got))
    key = "n=%d sk=%r sep=%s %s" % (n, sorted(sk), d["sep"], strat)
    sh.add(traces_validated_against_impl=1, transitions=len(O.colliders(n, sk, sep)) + 1)
    if not sh.check(G.skeleton(got) == sk, "orientation keeps the skeleton", key="skeleton " + key, **d):
        return
    sh.check(got == want, "collider orientation" + (" with a conflict" if conflict else ""), key=key, want=sorted(want), **d)


def four(sh, item):
    for i, (sk, sep) in enumerate(outcomes4()):
        if i % item["of"] != item["k"]:
            continue
        sh.add(states=1)
        for strat in ("KEEP_FIRST", "KEEP_LAST"):
            for flip in (False, True):
                judge(sh, 4, sk, sep, strat, flip)
        sh.sample([sorted(sk), sorted(map(repr, sep.items()))])


def five(sh, item):
    n = 5
    ps = G.pairs(n)
    for k in item["ks"]:
        sk = frozenset(p for i, p in enumerate(ps) if k >> i & 1)
        tri = O.colliders(n, sk, {})
        if not tri or len(tri) > item["max"]:
            continue
        strats = ("KEEP_FIRST", "KEEP_LAST") if len(tri) <= item["both"] else ("KEEP_FIRST",)
        for bits in itertools.product((0, 1), repeat=len(tri)):
            sep = {}
            for (x, y, z), b in zip(tri, bits):
                if b:
                    sep.setdefault((x, y), []).append(z)
            sh.add(states=1)
            for strat in strats:
                judge(sh, n, sk, sep, strat, bits[0] == 1)


def again(sh, item):
    """pairs that were separated, joined again and separated by another set: a node in none of the sets is a collider"""
    n, ps = item["n"], G.pairs(item["n"])
    for k in item["ks"]:
        sk = frozenset(p for i, p in enumerate(ps) if k >> i & 1)
        gone = [p for p in ps if p not in sk]
        subsets = {p: [None] + [list(z) for r in range(n - 1) for z in itertools.combinations([i for i in range(n) if i not in p], r)] for p in gone}
        for p in gone:
            for sets in itertools.product(subsets[p], repeat=item["times"]):
                todo = [q + ([],) for q in gone if q != p]
                for i, z in enumerate(sets):
                    if i:
                        todo.append((p[i % 2], p[1 - i % 2], "restore"))
                    todo.append((p[i % 2], p[1 - i % 2], z))
                sep = {p: sorted({x for z in sets for x in z or []})}
                sh.add(states=1)
                for strat in ("KEEP_FIRST", "KEEP_LAST"):
                    got = cg.arcs_of(O.from_script(n, todo, strat).graph)
                    want, _ = O.orient_reference(n, sk, sep, strat)
                    sh.add(transitions=len(todo), traces_validated_against_impl=1)
                    sh.check(got == want, "collider orientation after repeated separation", key="again sk=%r %r %r %s" % (sorted(sk), p, sets, strat), got=sorted(got), want=sorted(want))


def mixed(sh, item):
    """some edges have a direction already: no arrow is turned and none is taken for an edge into the collider"""
    n, ps = item["n"], G.pairs(item["n"])
    for st in itertools.product(range(4), repeat=len(ps) - 1):
        st = (item["first"],) + st
        start = frozenset(a for p, k in zip(ps, st) for i, a in enumerate((p, p[::-1])) if k >> i & 1)
        if 3 not in st and n > 3 or 0 not in st:
            continue
        if not any(k in (1, 2) for k in st):
            continue
        gone = [p for p, k in zip(ps, st) if not k]
        adj = lambda a, b: (a, b) in start or (b, a) in start
        cand = {p: [z for z in range(n) if z not in p and adj(p[0], z) and adj(p[1], z)] for p in gone}
        if not any(cand.values()):
            continue
        for seps in itertools.product(*[[list(z) for r in range(len(cand[p]) + 1) for z in itertools.combinations(cand[p], r)] for p in gone]):
            sep = dict(zip(gone, seps))
            todo = [(a, b, sep[a, b]) for a, b in gone]
            todo += [(a, b, "direct") for p in ps for a, b in (p, p[::-1]) if (a, b) not in start and (b, a) in start]
            sh.add(states=1)
            for strat in ("KEEP_FIRST", "KEEP_LAST"):
                got = cg.arcs_of(O.from_script(n, todo, strat).graph)
                want = O.mixed_reference(n, start, sep, strat)
                sh.add(transitions=1, traces_validated_against_impl=1)
                sh.check(
                    got == want and G.skeleton(got) == G.skeleton(start),
                    "collider orientation of a partially directed graph",
                    key="mixed %r %r %s" % (sorted(start), sorted(sep.items()), strat),
                    start=sorted(start),
                    got=sorted(got),
                    want=sorted(want),
                )


def long_part(sh, item):
    """larger skeletons, with few and with many contradicting colliders"""
    n, dag = list(G.long_dags((7, 9)))[item["g"]]
    sk = G.skeleton(G.long_relabel(n, dag, item["label"]))
    tri = O.colliders(n, sk, {})
    for every in (1, 2, 3, 5, 10**6):
        for shift in range(min(every, 3)):
            sep = {}
            for i, (x, y, z) in enumerate(tri):
                if (i + shift) % every:
                    sep.setdefault((x, y), []).append(z)
            sh.add(states=1)
            for strat in ("KEEP_FIRST", "KEEP_LAST"):
                judge(sh, n, sk, sep, strat, shift == 1)
    sh.sample(sorted(sk))


def run(ctx):
    ctx.explore(long_part, [{"g": g, "label": l} for g in range(12) for l in range(3)], name="larger skeletons", limit=300)
    ctx.explore(again, [{"n": 3, "ks": list(range(8)), "times": t} for t in (2, 3)], name="repeated separation, n=3")
    ctx.explore(again, [{"n": 4, "ks": [k], "times": 2} for k in range(64)], name="repeated separation, n=4", limit=300)
    ctx.explore(mixed, [{"n": 3, "first": f} for f in range(4)] + [{"n": 4, "first": f} for f in range(4)], name="partially directed", limit=900)
    ctx.explore(four, [{"k": k, "of": 128} for k in range(128)], name="n=4", limit=300)
    ctx.explore(
        five,
        [{"ks": [k], "max": ctx.pick(6, 99), "both": ctx.pick(4, 99)} for k in range(1024)],
        name="n=5",
        limit=3000,
    )
