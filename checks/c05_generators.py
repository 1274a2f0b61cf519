"""C05: generators enumerate exactly the combinations they promise."""
import itertools
import random
from collections import Counter

from lib import cg
from lib import graphs as G

from causy.generators import (
    AllCombinationsGenerator,
    PairsWithEdgesInBetweenGenerator,
    PairsWithNeighboursGenerator,
    RandomSampleGenerator,
)
from causy.interfaces import AS_MANY_AS_FIELDS
from causy.models import ComparisonSettings

PROPERTY = "C05"
LEVEL = "model_checking"
ASSUMPTIONS = ["shuffling is driven with several seeds; what is compared is the multiset of combinations, which no order changes"]
BOUNDS = {
    "quick": "all undirected graphs with <= 4 nodes x 4 constructions x all (min,max) x chunked x shuffled; all mixed graphs with <= 4 nodes for edge pairs with chunk sizes 1..5; every single edge removal between any two chunks on all graphs with <= 4 nodes; complete graphs, stars, tournaments and paths with up to 13 nodes; one generator on all pairs of graphs with 3 nodes alternately",
    "thorough": "as quick, plus all undirected graphs with 5 nodes",
}


def sizes(n, lo, hi):
    top = n if hi == AS_MANY_AS_FIELDS else min(hi, n)
    return range(lo, top + 1)


def undirected(n):
    ps = G.pairs(n)
    for k in range(1 << len(ps)):
        e = [p for i, p in enumerate(ps) if k >> i & 1]
        yield frozenset(e) | frozenset((b, a) for a, b in e)


def neighbour_reference(n, arcs, lo, hi):
    I = cg.ident
    c = Counter()
    for s in sizes(n, lo, hi):
        for x, y in arcs:
            nb = [b for a, b in arcs if a == x and b != y]
            for z in itertools.combinations(sorted(nb), s - 2):
                c[(I(x), I(y), frozenset(I(i) for i in z))] += 1
    return c


def tally(combos):
    return Counter((c[0], c[1], frozenset(c[2:])) for c in map(tuple, combos))


_REUSED = {}


def reused(cls, lo, hi, **kw):
    """one generator is used for many graphs"""
    key = (cls, lo, hi, tuple(sorted(kw.items())))
    if key not in _REUSED:
        _REUSED[key] = cls(comparison_settings=ComparisonSettings(min=lo, max=hi), **kw)
    return _REUSED[key]


def alternate(sh, item):
    """one generator generates for two graphs at the same time, in every order of taking the next combination"""
    n = item["n"]
    gs = list(undirected(n))
    for j, second in enumerate(gs):
        first = gs[item["k"]]
        for make in (
            lambda: AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=2, max=3)),
            lambda: AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=2, max=AS_MANY_AS_FIELDS)),
            lambda: PairsWithNeighboursGenerator(comparison_settings=ComparisonSettings(min=2, max=AS_MANY_AS_FIELDS), chunked=False, shuffle_combinations=False),
            lambda: PairsWithNeighboursGenerator(comparison_settings=ComparisonSettings(min=2, max=AS_MANY_AS_FIELDS), chunked=True, shuffle_combinations=False),
            lambda: PairsWithNeighboursGenerator(comparison_settings=ComparisonSettings(min=2, max=3), chunked=False, shuffle_combinations=False),
            lambda: PairsWithNeighboursGenerator(comparison_settings=ComparisonSettings(min=2, max=3), chunked=True, shuffle_combinations=False),
            lambda: PairsWithEdgesInBetweenGenerator(chunked=False),
            lambda: PairsWithEdgesInBetweenGenerator(chunked=True, chunk_size=1),
        ):
            ms = [cg.build(n, first), cg.build(n + 1, second)]
            want = [[repr(x) for x in make().generate(m.graph, None)] for m in ms]
            for pattern in ((0, 1), (0, 0, 1), (1, 1, 0), (0, 1, 1), (0,) * 99 + (1,) * 99, (1,) * 99 + (0,) * 99):
                g = make()
                its = [g.generate(m.graph, None) for m in ms]
                got, open_ = [[], []], {0, 1}
                for who in itertools.cycle(pattern):
                    if not open_:
                        break
                    x = next(its[who], None)
                    if x is None:
                        open_.discard(who)
                    else:
                        got[who].append(repr(x))
                sh.add(transitions=1, traces_validated_against_impl=1)
                sh.check(got == want, "one generator on two graphs", key="alternate %s %d %d %r" % (type(g).__name__, item["k"], j, pattern), got=got, want=want)
        sh.add(states=1)


def nb_part(sh, item):
    n = item["n"]
    for i, arcs in enumerate(undirected(n)):
        if i % item["of"] != item["k"]:
            continue
        sh.add(states=1)
        sh.sample([n, sorted(arcs)])
        for mode in item["modes"]:
            m = cg.build(n, arcs, mode)
            for lo in range(2, n + 2):
                for hi in [AS_MANY_AS_FIELDS] + list(range(2, n + 2)):
                    want = neighbour_reference(n, arcs, lo, hi)
                    want_sizes = [s for s in sizes(n, lo, hi)]
                    for chunked in (False, True):
                        for shuffle in (False, True):
                            g = reused(PairsWithNeighboursGenerator, lo, hi, chunked=chunked, shuffle_combinations=shuffle)
                            random.seed(i)
                            out = list(g.generate(m.graph, None))
                            flat = [c for ch in out for c in ch] if chunked else out
                            got = tally(flat)
                            sh.add(transitions=1)
                            dup = all(len(set(c)) == len(c) for c in flat)
                            key = "neighbours arcs=%r mode=%s min=%d max=%d chunked=%s" % (sorted(arcs), mode, lo, hi, chunked)
                            sh.check(
                                got == want and dup,
                                "pairs with neighbours",
                                key=key,
                                arcs=sorted(arcs),
                                got=sorted(map(repr, got.elements()))[:20],
                                want=sorted(map(repr, want.elements()))[:20],
                            )
                            sh.check(
                                [len(c) for c in flat] == sorted(len(c) for c in flat),
                                "smaller conditioning sets first",
                                key=key,
                            )
                    ac = reused(AllCombinationsGenerator, lo, hi)
                    got = Counter(frozenset(c) for c in ac.generate(m.graph, None))
                    ref = Counter(
                        frozenset(cg.ident(x) for x in c)
                        for s in want_sizes
                        for c in itertools.combinations(range(n), s)
                    )
                    sh.add(transitions=1)
                    sh.check(got == ref, "all combinations", key="all n=%d %d %d" % (n, lo, hi), got=repr(got), want=repr(ref))
                    for every in (0, 1, 2):
                        rs = RandomSampleGenerator(
                            every_nth=every,
                            generator=PairsWithNeighboursGenerator(
                                comparison_settings=ComparisonSettings(min=lo, max=hi), chunked=False, shuffle_combinations=False
                            ),
                        )
                        random.seed(every + i)
                        got = tally(rs.generate(m.graph, None))
                        sh.add(transitions=1)
                        sh.check(
                            not (got - want) and (every != 0 or got == want),
                            "random sample is a sub-multiset (everything for every_nth=0)",
                            got=repr(got),
                            want=repr(want),
                            arcs=sorted(arcs),
                        )
            sh.add(traces_validated_against_impl=1)


def live_part(sh, item):
    """an edge is removed between two chunks: later chunks follow the current graph"""
    n = item["n"]
    for i, arcs in enumerate(undirected(n)):
        if i % item["of"] != item["k"]:
            continue
        sk = sorted(G.skeleton(arcs))
        for lo in range(3, n + 1):
            nchunks = len(list(PairsWithNeighboursGenerator(
                comparison_settings=ComparisonSettings(min=lo, max=AS_MANY_AS_FIELDS), chunked=True, shuffle_combinations=False
            ).generate(cg.build(n, arcs).graph, None)))
            for pos in range(nchunks):
                for e in sk:
                    m = cg.build(n, arcs)
                    g = PairsWithNeighboursGenerator(
                        comparison_settings=ComparisonSettings(min=lo, max=AS_MANY_AS_FIELDS), chunked=True, shuffle_combinations=False
                    )
                    a, b = cg.ident(e[0]), cg.ident(e[1])
                    before, after = [], []
                    for k, ch in enumerate(g.generate(m.graph, None)):
                        (before if k <= pos else after).extend(ch)
                        if k == pos:
                            m.remove_edge(m.nodes[a], m.nodes[b], soft_delete=True)
                    sh.add(transitions=1)
                    rest = frozenset(x for x in arcs if set(x) != set(e))
                    full, cur = neighbour_reference(n, arcs, lo, AS_MANY_AS_FIELDS), neighbour_reference(n, rest, lo, AS_MANY_AS_FIELDS)
                    tb, ta = tally(before), tally(after)
                    sh.check(
                        not (tb - full) and not (ta - cur) and not (cur - (tb + ta)),
                        "combinations while edges are removed",
                        key="live arcs=%r pos=%d e=%r" % (sorted(arcs), pos, e),
                        arcs=sorted(arcs),
                        removed=e,
                        after_chunk=pos,
                        min=lo,
                    )
        sh.add(states=1, traces_validated_against_impl=1)


def edges_part(sh, item):
    n = item["n"]
    I = cg.ident
    for i, arcs in enumerate(G.all_mixed(n)):
        if i % item["of"] != item["k"]:
            continue
        sh.add(states=1, traces_validated_against_impl=1)
        m = cg.build(n, arcs, cg.MODES[i % 4])
        want = Counter((I(a), I(b)) for a, b in arcs)
        for cs in (None, 1, 2, 3, 5):
            g = PairsWithEdgesInBetweenGenerator(chunked=cs is not None, chunk_size=cs)
            out = list(g.generate(m.graph, None))
            flat = [tuple(x) for ch in out for x in ch] if cs else [tuple(x) for x in out]
            sh.add(transitions=1)
            key = "edge pairs arcs=%r chunk=%r" % (sorted(arcs), cs)
            sh.check(Counter(flat) == want, "edge pairs", key=key, got=flat, want=sorted(want))
            if cs:
                sh.check(
                    all(0 < len(c) <= cs for c in out),
                    "chunk size is respected",
                    key=key,
                    sizes=[len(c) for c in out],
                )


def big(n, kind):
    if kind == "complete":
        return frozenset((a, b) for a in range(n) for b in range(n) if a != b)
    if kind == "star":
        return frozenset(x for b in range(1, n) for x in ((0, b), (b, 0)))
    if kind == "tournament":
        return frozenset(G.pairs(n))
    return frozenset(x for a in range(n - 1) for x in ((a, a + 1), (a + 1, a)))


def big_part(sh, item):
    """more nodes and edges than fit in one chunk of the default size"""
    n, kind = item["n"], item["kind"]
    arcs = big(n, kind)
    I = cg.ident
    m = cg.build(n, arcs, item["mode"])
    sh.add(states=1, traces_validated_against_impl=1)
    want = Counter((I(a), I(b)) for a, b in arcs)
    for kw in [{}, {"chunked": False}] + [{"chunked": True, **({} if c is None else {"chunk_size": c})} for c in (None, 1, 7, 99, 100, 101, len(arcs) - 1, len(arcs), len(arcs) + 1) if c != 0]:
        out = list(PairsWithEdgesInBetweenGenerator(**kw).generate(m.graph, None))
        flat = [tuple(x) for ch in out for x in ch] if kw.get("chunked") else [tuple(x) for x in out]
        sh.add(transitions=1)
        sh.check(Counter(flat) == want, "edge pairs", key="big edge pairs %d %s %r" % (n, kind, kw), got=len(flat), want=len(arcs))
    if kind == "tournament":
        return
    for lo in (0, 1):
        # there is no pair in a single node: refused, and nothing is generated
        got = []
        try:
            got.extend(PairsWithNeighboursGenerator(comparison_settings=ComparisonSettings(min=lo, max=3)).generate(m.graph, None))
            refused = False
        except ValueError:
            refused = True
        sh.check(refused and got == [], "fewer than two nodes are refused", key="min %d" % lo, got=got[:3])
    for lo, hi in ((2, 2), (2, 3), (3, 3), (3, 4), (4, 4)) + (((2, AS_MANY_AS_FIELDS), (n - 1, AS_MANY_AS_FIELDS), (n, n)) if n < 9 else ()):
        want = neighbour_reference(n, arcs, lo, hi)
        for chunked in (False, True):
            g = PairsWithNeighboursGenerator(comparison_settings=ComparisonSettings(min=lo, max=hi), chunked=chunked, shuffle_combinations=False)
            out = list(g.generate(m.graph, None))
            sh.add(transitions=1)
            sh.check(tally([c for ch in out for c in ch] if chunked else out) == want, "pairs with neighbours", key="big neighbours %d %s %r %r %s" % (n, kind, lo, hi, chunked))
        ac = AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=lo, max=hi))
        got = Counter(frozenset(c) for c in ac.generate(m.graph, None))
        ref = Counter(frozenset(I(x) for x in c) for s in sizes(n, lo, hi) for c in itertools.combinations(range(n), s))
        sh.add(transitions=1)
        sh.check(got == ref, "all combinations", key="big all %d %r %r" % (n, lo, hi), got=len(got), want=len(ref))


def run(ctx):
    ctx.explore(big_part, [{"n": n, "kind": k, "mode": md} for n in (6, 8, 11, 13) for k in ("complete", "star", "tournament", "path") for md in ("direct", "purged")], name="larger graphs", limit=300)
    ctx.explore(alternate, [{"n": 3, "k": k} for k in range(8)], name="one generator, two graphs")
    ctx.explore(nb_part, [{"n": n, "k": 0, "of": 1, "modes": cg.MODES} for n in (2, 3)], name="n<=3")
    ctx.explore(nb_part, [{"n": 4, "k": k, "of": 64, "modes": cg.MODES} for k in range(64)], name="n=4", limit=300)
    ctx.explore(edges_part, [{"n": n, "k": 0, "of": 1} for n in (2, 3)], name="edge pairs n<=3")
    ctx.explore(edges_part, [{"n": 4, "k": k, "of": 16} for k in range(16)], name="edge pairs n=4", limit=300)
    ctx.explore(live_part, [{"n": 3, "k": 0, "of": 1}], name="live n=3")
    ctx.explore(live_part, [{"n": 4, "k": k, "of": 64} for k in range(64)], name="live n=4", limit=300)
    if ctx.thorough:
        ctx.explore(nb_part, [{"n": 5, "k": k, "of": 512, "modes": ["direct", "soft"]} for k in range(512)], name="n=5", limit=900)
        ctx.explore(live_part, [{"n": 5, "k": k, "of": 1024} for k in range(1024)], name="live n=5", limit=900)
