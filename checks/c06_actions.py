"""C06: applying actions: the graph, the report of taken actions, the edge
history and the hooks all tell the same story, for every sequence of actions."""
import itertools

from lib import discovery as D
from lib import graphs as G
from lib import scripted as S
from lib.harness import call

from causy.common_pipeline_steps.logic import ApplyActionsTogether
from causy.interfaces import EdgeTypeInterface, GraphUpdateHook
from causy.models import TestResultAction

PROPERTY = "C06"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "restoring an edge that was never there is outside the property",
    "edge-type hooks are observed where the direction u->v of the action exists",
]
BOUNDS = {
    "quick": "2 nodes: all action sequences of length <= 3 from 6 start graphs, in one batch, one result each, or one step each; 3 nodes: all sequences of length 2 from 3 start graphs; every pattern of 2 actions repeated 15 and 80 times; all graph-update hooks x sequences of length 2; all chains of 2 hooks before and after an update x 7 ways to execute; every edge type hook failing; replay of the reported actions of the 4 algorithms on all 185 4-node classes",
    "thorough": "2 nodes: length <= 4 from 6 start graphs; 3 nodes: length <= 3; chains of up to 3 hooks from all start graphs",
}

STARTS2 = [
    {},
    {("a", "b"): [0, "U"], ("b", "a"): [0, "U"]},
    {("a", "b"): [0, "D"]},
    {("b", "a"): [0, "D"]},
    {("a", "b"): [0, "B"], ("b", "a"): [0, "B"]},
    {("a", "b"): [0, "D"], ("b", "a"): [1, "D"]},
]
STARTS3 = [
    {(u, v): [0, "U"] for u, v in itertools.permutations("abc", 2)},
    {("a", "b"): [0, "D"], ("c", "b"): [0, "D"]},
    {("a", "b"): [0, "D"], ("b", "c"): [0, "U"], ("c", "b"): [0, "U"]},
]


def alphabet(ids):
    ops = []
    for n, (u, v) in enumerate(itertools.permutations(ids, 2)):
        ops += [["RU", u, v], ["RD", u, v], ["UD", u, v, 10 + n], ["RED", u, v], ["UTD", u, v, "B"], ["UE", u, v, 20 + n]]
        if u < v:
            ops += [["RE", u, v], ["UT", u, v, "D"], ["NO", u, v]]
        else:
            ops += [["RE", u, v]]
    return ops


HOOKS = {
    "RU": "edge_remove",
    "RD": "edge_remove",
    "UE": "edge_update",
    "UD": "edge_update",
    "UT": "edge_type_change",
    "UTD": "edge_type_change",
}
LOG = []


def _install():
    for kind in ("edge_remove", "edge_update", "edge_type_change"):
        for when in ("pre", "post"):
            name = "%s_%s_hook" % (when, kind)

            def rec(self, graph, edge, _n=name):
                LOG.append((_n, S.NAME[self.name], edge.u.id, edge.v.id))

            setattr(EdgeTypeInterface, name, rec)


class Pre(GraphUpdateHook):
    mode: str = "id"

    def execute(self, graph, updates):
        LOG.append(("pre", [S.describe(x) for x in updates]))
        if self.mode == "id":
            return updates
        if self.mode == "reverse":
            return list(reversed(updates))
        if self.mode == "drop":
            return []
        if self.mode == "first":
            return updates[:1]


class Post(GraphUpdateHook):
    def execute(self, graph, updates):
        LOG.append(("post", [S.describe(x) for x in updates]))


def spec_describe(s):
    names = {
        "RU": "REMOVE_EDGE_UNDIRECTED",
        "RD": "REMOVE_EDGE_DIRECTED",
        "UE": "UPDATE_EDGE",
        "UD": "UPDATE_EDGE_DIRECTED",
        "UT": "UPDATE_EDGE_TYPE",
        "UTD": "UPDATE_EDGE_TYPE_DIRECTED",
        "RE": "RESTORE_EDGE",
        "RED": "RESTORE_EDGE_DIRECTED",
        "NO": "DO_NOTHING",
    }
    return (
        s[1],
        s[2],
        names[s[0]],
        s[3] if s[0] in ("UE", "UD") else None,
        s[3] if s[0] in ("UT", "UTD") else None,
    )


def one(sh, ids, start, seq, mode, hook=None):
    """mode: batch (one result with all actions), each (one result per action),
    steps (one pipeline step per action, purged in between)"""
    ref = S.ActionModel({d: x + [False] for d, x in start.items()})
    eff = list(seq)
    if hook == "reverse":
        eff = eff[::-1]
    elif hook == "drop":
        eff = []
    elif hook == "first":
        eff = eff[:1]
    taken, hooks = [], []
    for s in eff:
        f = (s[1], s[2])
        present = ref.live(f) or s[0] in ("RE", "RED")
        before = ref.e[f][1] if f in ref.e else None
        t = ref.apply(s)
        if t is None:
            return
        if t:
            taken.append(s)
            if s[0] in HOOKS:
                if not present:
                    hooks = None
                elif hooks is not None:
                    hooks += [
                        ("pre_%s_hook" % HOOKS[s[0]], before, s[1], s[2]),
                        ("post_%s_hook" % HOOKS[s[0]], ref.e[f][1], s[1], s[2]),
                    ]
        if mode == "steps":
            ref.purge()
    pre = [Pre(mode=hook)] if hook else None
    post = [Post()] if hook else None
    S.Script.observe = None
    key = "start=%r seq=%r mode=%s hook=%s" % (sorted(start.items()), seq, mode, hook)
    if mode == "steps":
        steps = [S.ScriptStep(script="s%d" % i) for i in range(len(seq))]
    else:
        steps = [S.ScriptStep(script="s")]
    m = S.model(ids, start, pre, post, steps)
    nd = m.graph.nodes
    acts = [S.action(nd, s) for s in seq]
    if mode == "batch":
        S.Script.items = {"s": [acts]}
    elif mode == "each":
        S.Script.items = {"s": [a if i % 2 else [a] for i, a in enumerate(acts)]}
    else:
        S.Script.items = {"s%d" % i: [a] for i, a in enumerate(acts)}
    del LOG[:]
    hist = m.execute_pipeline_steps()
    sh.add(transitions=len(seq), traces_validated_against_impl=1)
    if mode != "steps":
        ref.purge()
    want = ref.lives()
    got = S.snapshot(m.graph, ids)
    sh.check(got == want, "graph after the actions", key=key, seq=seq, mode=mode, hook=hook, got=repr(got), want=repr(want))
    rep = [S.describe(a) for st in hist for a in st.actions]
    wantrep = [spec_describe(s) for s in taken]
    sh.check(rep == wantrep, "reported actions are the actions taken", key=key, got=repr(rep), want=repr(wantrep))
    allp = [S.describe(a) for st in hist for a in st.all_proposed_actions]
    sh.check(
        allp == [spec_describe(s) for s in eff], "reported proposals", key=key, got=repr(allp), want=repr([spec_describe(s) for s in eff])
    )
    sh.check(len(hist) == len(steps), "one history entry per step", key=key)
    for u, v in itertools.permutations(ids, 2):
        h = [S.describe(a) for a in m.graph.retrieve_edge_history(u, v)]
        wh = [spec_describe(s) for s in ref.hist.get((u, v), [])]
        sh.check(h == wh, "edge history", key=key, edge=[u, v], got=repr(h), want=repr(wh))
        for act in (TestResultAction.REMOVE_EDGE_UNDIRECTED, TestResultAction.UPDATE_EDGE):
            h = [S.describe(a) for a in m.graph.retrieve_edge_history(nd[u], nd[v], act)]
            sh.check(h == [x for x in wh if x[2] == act.value], "edge history of one action", key=key, edge=[u, v])
    if hook is None and hooks is not None:
        hl = [x for x in LOG if x[0].endswith("_hook")]
        sh.check(hl == hooks, "edge type hooks", key=key, seq=seq, got=repr(hl), want=repr(hooks))
    if hook:
        gl = [x for x in LOG if x[0] in ("pre", "post")]
        if mode == "batch":
            wl = [("pre", [spec_describe(s) for s in seq]), ("post", [spec_describe(s) for s in taken])]
            sh.check(gl == wl, "graph update hooks", key=key, got=repr(gl), want=repr(wl))


_install()

EXTRA = ["UE", "a", "b", 77]
CHAIN = {
    "id": lambda x: list(x),
    "reverse": lambda x: x[::-1],
    "drop": lambda x: [],
    "first": lambda x: x[:1],
    "add": lambda x: x + [EXTRA],
}


class Chained(GraphUpdateHook):
    mode: str = "id"
    when: str = "pre"
    number: int = 0

    def execute(self, graph, updates):
        LOG.append((self.when, self.number, [S.describe(x) for x in updates], S.snapshot(graph, "ab")))
        if self.when == "post":
            return
        if self.mode == "add":
            return list(updates) + [S.action(graph.nodes, EXTRA)]
        return CHAIN[self.mode](list(updates))


def chain_case(sh, start, seq, mode, chain):
    """several hooks before and after each update; each sees the result of the one before it"""
    results = {"batch": [list(seq)], "pairs": [list(seq), list(seq[::-1])]}.get(mode, [[s] for s in seq])
    ref = S.ActionModel({d: x + [False] for d, x in start.items()})
    log, taken, proposed = [], [], []
    for res in results:
        cur = list(res)
        for n, c in enumerate(chain):
            log.append(("pre", n, [spec_describe(s) for s in cur], ref.lives()))
            cur = CHAIN[c](cur)
        proposed += cur
        now = []
        for s in cur:
            t = ref.apply(s)
            if t is None:
                return False
            if t:
                now.append(s)
        taken += now
        for n in range(2):
            log.append(("post", n, [spec_describe(s) for s in now], ref.lives()))
        if mode == "steps":
            ref.purge()
    if mode in ("steps", "group"):
        steps = [S.ScriptStep(script="s%d" % i) for i in range(len(results))]
        run = [ApplyActionsTogether(pipeline_steps=steps)] if mode == "group" else steps
    else:
        run = [S.ScriptStep(script="s", apply_synchronous=mode == "sync", chunked=mode == "chunked")]
    m = S.model("ab", start, [Chained(mode=c, number=n) for n, c in enumerate(chain)], [Chained(when="post", number=n) for n in range(2)], run)
    acts = [[S.action(m.graph.nodes, s) for s in res] for res in results]
    S.Script.items = {"s%d" % i: [a] for i, a in enumerate(acts)} if mode in ("steps", "group") else {"s": acts}
    S.Script.observe = None
    del LOG[:]
    hist = m.execute_pipeline_steps()
    got = [x for x in LOG if x[0] in ("pre", "post")]
    key = "chain start=%r seq=%r mode=%s chain=%r" % (sorted(start.items()), seq, mode, chain)
    sh.add(transitions=len(seq), traces_validated_against_impl=1)
    sh.check(got == log, "every hook sees the update as the hooks before it left it", key=key, got=repr(got)[:600], want=repr(log)[:600])
    sh.check(S.snapshot(m.graph, "ab") == ref.lives(), "graph after the actions", key=key, got=repr(S.snapshot(m.graph, "ab")), want=repr(ref.lives()))
    flat = [st for h in hist for st in (h.steps or [h])]
    rep = [S.describe(a) for st in flat for a in st.actions]
    sh.check(rep == [spec_describe(s) for s in taken], "reported actions are the actions taken", key=key, got=repr(rep), want=repr(taken))
    if mode != "group":
        rep = [S.describe(a) for st in flat for a in st.all_proposed_actions]
        sh.check(rep == [spec_describe(s) for s in proposed], "reported proposals", key=key, got=repr(rep), want=repr(proposed))
    return True


def chain_part(sh, item):
    ops = alphabet("ab")
    for o in ops:
        for mode in ("batch", "pairs", "each", "steps", "sync", "chunked", "group"):
            for chain in itertools.product(CHAIN, repeat=item["hooks"]):
                if chain_case(sh, STARTS2[item["start"]], [ops[item["first"]], o], mode, chain):
                    sh.add(states=1)
    sh.sample([item["start"], item["first"]])


class Broken(Exception):
    pass


def broken_part(sh, item):
    """hooks of edge types that fail do not change what happens to the graph"""
    ops = alphabet("ab")
    names = [n for n in dir(EdgeTypeInterface) if n.endswith("_hook")]
    old = {n: getattr(EdgeTypeInterface, n) for n in names}

    def fail(self, graph, edge):
        raise Broken("hook")

    for bad in [[n] for n in names] + [names]:
        for n in bad:
            setattr(EdgeTypeInterface, n, fail)
        try:
            for o in ops:
                seq = [ops[item["first"]], o]
                ref = S.ActionModel({d: x + [False] for d, x in STARTS2[item["start"]].items()})
                ts = [ref.apply(s) for s in seq]
                if None in ts:
                    continue
                m = S.model("ab", STARTS2[item["start"]], None, None, [S.ScriptStep(script="s")])
                S.Script.items = {"s": [[S.action(m.graph.nodes, s) for s in seq]]}
                S.Script.observe = None
                ok = call(m.execute_pipeline_steps)
                key = "broken %r start=%d %r" % (bad, item["start"], seq)
                sh.add(states=1, transitions=2, traces_validated_against_impl=1)
                if not sh.check(ok[0] == "ok", "a failing hook of an edge type does not stop the run", key=key, got=repr(ok)[:300]):
                    return
                rep = [S.describe(a) for st in ok[1] for a in st.actions]
                sh.check(
                    S.snapshot(m.graph, "ab") == ref.lives() and rep == [spec_describe(s) for s, t in zip(seq, ts) if t],
                    "a failing hook of an edge type does not change what is applied",
                    key=key,
                    got=repr((rep, S.snapshot(m.graph, "ab"))),
                    want=repr(ref.lives()),
                )
        finally:
            for n, f in old.items():
                setattr(EdgeTypeInterface, n, f)


def part(sh, item):
    ids = item["ids"]
    start = (STARTS2 if len(ids) == 2 else STARTS3)[item["start"]]
    ops = alphabet(ids)
    for rest in itertools.product(ops, repeat=item["len"] - 1):
        seq = [ops[item["first"]]] + list(rest)
        for mode in ("batch", "each", "steps") if item["len"] > 1 else ("batch", "steps"):
            if mode == "each" and item["len"] > 2:
                continue
            one(sh, ids, start, seq, mode)
        sh.add(states=1)
    sh.sample([item["ids"], item["start"], seq])


def long_part(sh, item):
    """every pattern of two actions, repeated many times"""
    ops = alphabet("ab")
    for b in ops:
        for n in item["ns"]:
            seq = [ops[item["first"]], b] * n
            for mode in ("batch", "each", "steps"):
                if mode != "steps" or n < 40:
                    one(sh, "ab", STARTS2[item["start"]], seq, mode)
            sh.add(states=1)


def hook_part(sh, item):
    ids = "ab"
    ops = alphabet(ids)
    for o in ops:
        for hook in ("id", "reverse", "drop", "first"):
            one(sh, ids, STARTS2[item["start"]], [ops[item["first"]], o], "batch", hook)
        sh.add(states=1)


CODE = {
    "REMOVE_EDGE_UNDIRECTED": "RU",
    "REMOVE_EDGE_DIRECTED": "RD",
    "UPDATE_EDGE": "UE",
    "UPDATE_EDGE_DIRECTED": "UD",
    "UPDATE_EDGE_TYPE": "UT",
    "UPDATE_EDGE_TYPE_DIRECTED": "UTD",
    "RESTORE_EDGE": "RE",
    "RESTORE_EDGE_DIRECTED": "RED",
    "DO_NOTHING": "NO",
}


def leaves(step):
    if step.steps:
        out = []
        for s in step.steps:
            out += leaves(s)
        return out + list(step.actions or [])
    return list(step.actions or [])


def audit(sh, item):
    """replaying the reported actions of a run of a shipped algorithm gives its graph, values and edge histories"""
    names = D.NAMES[: item["n"]]
    for d in item["dags"]:
        cols, _ = D.data(item["n"], G.from_item(d))
        m = D.fit(item["alg"], cols, names)
        g = m.graph
        ref = S.ActionModel({p: [{}, "U", False] for p in itertools.permutations(names, 2)})
        key = "audit %s %r" % (item["alg"], d)
        ok = True
        for step in g.action_history:
            for a in leaves(step):
                k = CODE[getattr(a.action, "value", a.action)]
                arg = [dict(a.data or {})] if k in ("UE", "UD") else [S.NAME[a.edge_type.name]] if k in ("UT", "UTD") else []
                ok = sh.check(ref.apply([k, a.u.id, a.v.id] + arg) is True, "a reported action can be taken", key=key, action=repr(S.describe(a)), step=step.name) and ok
            ref.purge()
        sh.add(states=1, traces_validated_against_impl=1, transitions=sum(map(len, ref.hist.values())))
        if not ok:
            continue
        got = {}
        for u, v in itertools.permutations(names, 2):
            if g.directed_edge_exists(u, v):
                got[u, v] = (g.edge_value(u, v), S.NAME[g.edge_type(u, v).name])
            h = [(CODE[getattr(a.action, "value", a.action)], a.u.id, a.v.id) for a in g.retrieve_edge_history(u, v)]
            wh = [tuple(x[:3]) for x in ref.hist.get((u, v), [])]
            sh.check(h == wh, "edge history of a run", key=key, edge=[u, v], got=repr(h), want=repr(wh))
        want = {e: x for e, x in ref.lives().items()}
        sh.check({e: x[1] for e, x in got.items()} == {e: x[1] for e, x in want.items()}, "replaying the reported actions gives the graph", key=key, got=repr(got)[:400], want=repr(want)[:400])
        for e in got:
            if e in want:
                sh.check(got[e][0] == want[e][0], "replaying the reported actions gives the values", key=key, edge=e, got=repr(got[e]), want=repr(want[e]))
    sh.sample([item["alg"], item["dags"][0]])


def run(ctx):
    dags = [G.to_item(d) for d in sorted((m for _, m in G.cpdag_classes(4)), key=sorted)]
    ctx.explore(audit, [{"alg": a, "n": 4, "dags": dags[i::8]} for a in sorted(D.ALGS) for i in range(8)], name="runs of the shipped algorithms", limit=600)
    n2, n3 = len(alphabet("ab")), len(alphabet("abc"))
    for ln in range(1, ctx.pick(3, 4) + 1):
        ctx.explore(part, [{"ids": "ab", "start": s, "len": ln, "first": f} for s in range(len(STARTS2)) for f in range(n2)], name="2 nodes, %d actions" % ln, limit=900)
    for ln in range(1, ctx.pick(2, 3) + 1):
        ctx.explore(part, [{"ids": "abc", "start": s, "len": ln, "first": f} for s in range(len(STARTS3)) for f in range(n3)], name="3 nodes, %d actions" % ln, limit=900)
    ctx.explore(long_part, [{"start": s, "first": f, "ns": ctx.pick([15, 80], [15, 80, 600])} for s in (1, 2) for f in range(n2)], name="long sequences", limit=900)
    ctx.explore(chain_part, [{"start": s, "first": f, "hooks": h} for s in ctx.pick((1, 2), range(len(STARTS2))) for f in range(n2) for h in ctx.pick((2,), (1, 2, 3))], name="chains of hooks", limit=900)
    ctx.explore(broken_part, [{"start": s, "first": f} for s in range(len(STARTS2)) for f in range(n2)], name="failing hooks")
    ctx.explore(hook_part, [{"start": s, "first": f} for s in range(len(STARTS2)) for f in range(n2)], name="graph update hooks")
