"""C01: the graph answers every query from one consistent set of edges, after
any history of edge operations.  Explicit-state search over operation histories
on the real GraphManager, compared after every operation with a reference
store (a plain dict per direction)."""
import itertools

from lib.bfs import canon, search
from lib.harness import call

import causy.graph as cg
from causy.edge_types import BiDirectedEdge, DirectedEdge, UndirectedEdge

PROPERTY = "C01"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "2 nodes: every history over the full alphabet up to the depth bound; 3 and 4 nodes: reduced alphabet",
    "histories are merged only when the complete concrete state (object graph with aliasing) is equal",
]
BOUNDS = {
    "quick": "2 nodes, 27 operations, depth 6; 66 operations (empty values, explicit types, new and unknown nodes), depth 3; 3 nodes, 30 operations, depth 3; 4 nodes cross-talk depth 3; 4 shapes of 7, 26 and 60 nodes through 12 phases; every cycle of two of the 27 operations 25 times",
    "thorough": "2 nodes, 27 operations, depth 9; 66 operations, depth 4; 3 nodes, 42 operations, depth 4; 4 nodes cross-talk depth 4; shapes of up to 130 nodes; cycles 150 times",
}

TYPES = {"U": UndirectedEdge, "D": DirectedEdge, "B": BiDirectedEdge}
NAME = {"UNDIRECTED": "U", "DIRECTED": "D", "BIDIRECTED": "B"}


def alphabet(n, full):
    ops = []
    ids = "abcd"[:n]
    for u, v in itertools.combinations(ids, 2):
        ops += [["add", u, v, 1], ["rm", u, v, "soft"], ["rm", u, v, "hard"], ["restore", u, v]]
        if full:
            ops += [["add", v, u, 2], ["upd", u, v, 3], ["updt", v, u, "B"]]
    for u, v in itertools.permutations(ids, 2):
        ops += [["addd", u, v, 4], ["rmd", u, v, "soft"], ["rmd", u, v, "hard"]]
        if full or n == 3:
            ops += [["restored", u, v], ["updd", u, v, 5]]
        if full:
            ops += [["upddt", u, v, "U"]]
    ops.append(["purge"])
    if full:
        ops += [["add", "a", "a", 1], ["addd", "b", "b", 1], ["add", "a", "X", 1], ["rm", "X", "a", "hard"]]
    if full == "wide":
        # empty values, explicit types, value and type at once, new nodes, unknown nodes in every operation
        ops += [["add", "a", "b", 0], ["addd", "b", "a", 0], ["upd", "b", "a", 0], ["updd", "a", "b", 0]]
        ops += [["add", "a", "b", 6, "B"], ["add", "b", "a", 6, "D"], ["addd", "a", "b", 7, "B"], ["addd", "b", "a", 7, "U"]]
        ops += [["updb", "a", "b", 8, "D"], ["updb", "b", "a", 0, "U"], ["updbd", "a", "b", 9, "B"], ["updbd", "b", "a", 0, "U"]]
        ops += [["node", "a"], ["node", "c"], ["add", "c", "a", 1], ["addd", "c", "b", 4], ["rmd", "c", "b", "hard"], ["restore", "b", "c"]]
        for k in ("rm", "rmd"):
            ops += [[k, "a", "X", "soft"], [k, "X", "b", "soft"], [k, "a", "X", "hard"]]
        for k in ("restore", "restored", "upd", "updd"):
            ops += [[k, "a", "X", 1], [k, "X", "a", 1]]
        ops += [["add", "X", "a", 1], ["addd", "X", "a", 1], ["addd", "a", "X", 1], ["rm", "a", "a", "hard"], ["restore", "a", "a"]]
    return ops


def meta(x):
    return {"m": x} if x else {}


class Model:
    """reference: direction -> [meta, type, soft-deleted]; plus last deleted value"""

    def __init__(self, ids):
        self.ids = list(ids)
        self.e = {}
        self.rec = {}

    def apply(self, op):
        k = op[0]
        if k == "purge":
            for d in [d for d, x in self.e.items() if x[2]]:
                self.rec[d] = self.e.pop(d)
            return "ok"
        if k == "node":
            if op[1] in self.ids:
                return "ValueError"
            self.ids.append(op[1])
            return "ok"
        u, v = op[1], op[2]
        if u not in self.ids or v not in self.ids:
            return "GraphError"
        both = [(u, v), (v, u)]
        if k in ("add", "addd"):
            if u == v:
                return "GraphError"
            for d in both if k == "add" else both[:1]:
                self.e[d] = [op[3], op[4] if len(op) > 4 else "U" if k == "add" else "D", False]
            return "ok"
        if k in ("rm", "rmd"):
            for d in both if k == "rm" else both[:1]:
                if d in self.e:
                    if op[3] == "soft":
                        self.e[d][2] = True
                    else:
                        self.rec[d] = self.e.pop(d)
            return "ok"
        if k in ("restore", "restored"):
            done = False
            for d in both if k == "restore" else both[:1]:
                if d in self.e:
                    self.e[d][2] = False
                    done = True
                elif d in self.rec:
                    m, t, _ = self.rec.pop(d)
                    self.e[d] = [m, t, False]
                    done = True
            return "ok" if done else "GraphError"
        ds = both if k in ("upd", "updt", "updb") else both[:1]
        if any(d not in self.e for d in ds):
            return "GraphError"
        for d in ds:
            if k in ("upd", "updd"):
                self.e[d][0] = op[3]
            elif k in ("updb", "updbd"):
                self.e[d][:2] = op[3:]
            else:
                self.e[d][1] = op[3]
        return "ok"


class Impl:
    def __init__(self, ids):
        self.g = cg.GraphManager()
        self.n = {i: self.g.add_node(i.upper(), [1.0, 2.0], id_=i) for i in ids}
        for i in "cdX":
            # nodes the graph does not know (yet)
            self.n.setdefault(i, cg.Node(name=i.upper(), id=i, values=None))

    def apply(self, op):
        g, k = self.g, op[0]
        if k == "purge":
            r = call(g.purge_soft_deleted_edges)
        elif k == "node":
            r = call(g.add_node, "again", [3.0, 4.0], id_=op[1])
            if r[0] == "ok":
                self.n[op[1]] = r[1]
        else:
            u, v = self.n[op[1]], self.n[op[2]]
            if k == "add":
                r = call(g.add_edge, u, v, meta(op[3]), *(TYPES[t]() for t in op[4:]))
            elif k == "addd":
                r = call(g.add_directed_edge, u, v, meta(op[3]), *(TYPES[t]() for t in op[4:]))
            elif k == "rm":
                r = call(g.remove_edge, u, v, soft_delete=op[3] == "soft")
            elif k == "rmd":
                r = call(g.remove_directed_edge, u, v, soft_delete=op[3] == "soft")
            elif k == "restore":
                r = call(g.restore_edge, u, v)
            elif k == "restored":
                r = call(g.restore_directed_edge, u, v)
            elif k == "upd":
                r = call(g.update_edge, u, v, metadata=meta(op[3]))
            elif k == "updd":
                r = call(g.update_directed_edge, u, v, metadata=meta(op[3]))
            elif k == "updb":
                r = call(g.update_edge, u, v, metadata=meta(op[3]), edge_type=TYPES[op[4]]())
            elif k == "updbd":
                r = call(g.update_directed_edge, u, v, metadata=meta(op[3]), edge_type=TYPES[op[4]]())
            elif k == "updt":
                r = call(g.update_edge, u, v, edge_type=TYPES[op[3]]())
            elif k == "upddt":
                r = call(g.update_directed_edge, u, v, edge_type=TYPES[op[3]]())
        return "ok" if r[0] == "ok" else r[1]


def compare(sh, impl, mod, seq):
    g = impl.g
    live = {d: x for d, x in mod.e.items() if not x[2]}

    def chk(cond, what, *d):
        sh.check(cond, what, key="%s after %r" % (what, seq), seq=seq, detail=repr(d))

    ids = mod.ids
    chk(list(g.nodes) == ids and all(g.node_by_id(i) is impl.n[i] for i in ids), "nodes", list(g.nodes))
    for i in ids:
        want = [1.0, 2.0] if i in "ab" else None
        chk(want is None or (g.nodes[i].name == i.upper() and g.nodes[i].values.tolist() == want), "node is unchanged", i)
        for a in (i, impl.n[i]):
            for b in (i, impl.n[i], "X", impl.n["X"]):
                for x, y in ((a, b), (b, a)):
                    chk(not g.edge_exists(x, y) and not g.directed_edge_exists(x, y) and not g.undirected_edge_exists(x, y), "edge to itself or to an unknown node", i)
    for u, v in itertools.permutations(ids, 2):
        e = call(g.get_edge, impl.n[u], impl.n[v])
        if (u, v) in live:
            chk(
                e[0] == "ok" and (e[1].u.id, e[1].v.id) == (u, v) and e[1].metadata == meta(live[(u, v)][0]) and NAME[e[1].edge_type.name] == live[(u, v)][1],
                "get_edge", u, v, repr(e),
            )
        elif (u, v) not in mod.e:
            chk(e[0] != "ok" and e[1] == "GraphError", "get_edge of no edge", u, v, repr(e))
        for a, b in ((u, v), (impl.n[u], impl.n[v])):
            chk(bool(g.directed_edge_exists(a, b)) == ((u, v) in live), "directed_edge_exists", u, v)
            chk(
                bool(g.edge_exists(a, b)) == ((u, v) in live or (v, u) in live),
                "edge_exists",
                u,
                v,
            )
            chk(
                bool(g.undirected_edge_exists(a, b)) == ((u, v) in live and (v, u) in live),
                "undirected_edge_exists",
                u,
                v,
            )
            val = g.edge_value(a, b)
            chk(
                (val == meta(live[(u, v)][0])) if (u, v) in live else val is None,
                "edge_value",
                u,
                v,
                val,
            )
            t = g.edge_type(a, b)
            chk(
                (t is not None and NAME[t.name] == live[(u, v)][1]) if (u, v) in live else t is None,
                "edge_type",
                u,
                v,
                repr(t),
            )
            for tn, T in TYPES.items():
                chk(
                    bool(g.edge_of_type_exists(a, b, T()))
                    == ((u, v) in live and live[(u, v)][1] == tn),
                    "edge_of_type_exists",
                    u,
                    v,
                    tn,
                )
    for u in ids:
        for x in (u, impl.n[u]):
            pa = sorted(x.id for x in g.parents_of_node(x))
            chk(pa == sorted(a for a, b in live if b == u), "parents_of_node", u, pa)
        si = sorted(getattr(x, "id", x) for x in g.get_siblings(u))
        chk(si == sorted(a for a, b in live if b == u and (b, a) in live), "get_siblings", u, si)
    es = [(e.u.id, e.v.id, (e.metadata or {}).get("m", 0), NAME[e.edge_type.name]) for e in g.retrieve_edges()]
    chk(
        sorted(es) == sorted((d[0], d[1], x[0], x[1]) for d, x in live.items()),
        "retrieve_edges",
        es,
    )


def expand(sh, item):
    for seq in item["seqs"]:
        n, full = seq[0]
        ids = "abcd"[:n]
        for op in alphabet(n, full):
            impl, mod = Impl(ids), Model(ids)
            for o in seq[1:]:
                impl.apply(o)
                mod.apply(o)
            want = mod.apply(op)
            got = impl.apply(op)
            s2 = seq + [op]
            sh.check(got == want, "outcome of operation", key="outcome %r" % (s2,), seq=s2, got=got, want=want)
            compare(sh, impl, mod, s2)
            sh.add(transitions=1)
            sh.emit((s2, canon(impl.g)))
        sh.add(traces_validated_against_impl=1)
        sh.sample(seq)


def large(sh, item):
    """many nodes: every edge of a shape is added, changed, deleted and restored, one kind of operation after the other"""
    n = item["n"]
    ids = ["n%d" % i for i in range(n)]
    pairs = {
        "chain": [(ids[i], ids[i + 1]) for i in range(n - 1)],
        "into one": [(i, ids[n // 2]) for i in ids if i != ids[n // 2]],
        "out of one": [(ids[0], i) for i in ids[1:]],
        "complete": list(itertools.combinations(ids, 2)),
    }[item["shape"]]
    phases = [[k, 1] for k in ("add", "addd")] + [["updd", 3], ["rmd", "soft"], ["restored"], ["rmd", "hard"], ["restored"], ["rm", "soft"], ["purge"], ["restore"], ["rm", "hard"], ["add", 2]]
    impl, mod = Impl(ids), Model(ids)
    done = []
    for ph in phases[item["first"]:]:
        ops = [["purge"]] if ph[0] == "purge" else [[ph[0], u, v] + ph[1:] for u, v in pairs]
        for op in ops:
            want, got = mod.apply(op), impl.apply(op)
            sh.add(transitions=1)
            sh.check(got == want, "outcome of operation", key="large outcome %s %r" % (item["shape"], ph), op=op, got=got, want=want, n=n)
        done.append(ph)
        compare(sh, impl, mod, [n, item["shape"], done])
        sh.add(states=1)
    sh.add(traces_validated_against_impl=1)


def repeated(sh, item):
    """every cycle of two operations, again and again"""
    ids = "ab"
    ops = alphabet(2, True)
    for second in ops:
        cyc = [["add", "a", "b", 1], ops[item["first"]], second]
        impl, mod = Impl(ids), Model(ids)
        for k in range(item["times"]):
            for op in cyc if k == 0 else cyc[1:]:
                want, got = mod.apply(op), impl.apply(op)
                sh.add(transitions=1)
                sh.check(got == want, "outcome of operation", key="repeated outcome %r" % (cyc,), op=op, got=got, want=want, times=k)
            compare(sh, impl, mod, [cyc, k])
            sh.add(states=1)
        sh.add(traces_validated_against_impl=1)


def run(ctx):
    ctx.explore(large, [{"n": n, "shape": s, "first": f} for n in ctx.pick((7, 26, 60), (7, 26, 60, 130)) for s in ("chain", "into one", "out of one", "complete") for f in (0, 1) if not (s == "complete" and n > ctx.pick(26, 60))], name="many nodes", limit=600)
    ctx.explore(repeated, [{"first": i, "times": ctx.pick(25, 150)} for i in range(len(alphabet(2, True)))], name="repeated operations", limit=600)
    search(ctx, expand, ctx.pick(6, 9), "2 nodes", root=[[2, True]], batch=16)
    search(ctx, expand, ctx.pick(3, 4), "2 nodes, wide alphabet", root=[[2, "wide"]], batch=16)
    search(ctx, expand, ctx.pick(3, 4), "3 nodes", root=[[3, ctx.thorough]], batch=16)
    search(ctx, expand, ctx.pick(3, 4), "4 nodes", root=[[4, False]], batch=16)
