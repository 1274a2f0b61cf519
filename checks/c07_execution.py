"""C07: when steps see which graph: plain, synchronous, chunked steps, loops and
grouped application, for every script of proposed actions."""
import itertools

from lib import scripted as S
from lib.harness import call

from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
from causy.common_pipeline_steps.logic import ApplyActionsTogether, Loop
from causy.interfaces import ExitConditionInterface
from checks.c06_actions import spec_describe

PROPERTY = "C07"
LEVEL = "model_checking"
ASSUMPTIONS = ["scripts of actions over 3 nodes; loops of up to 3 productive iterations and 2 steps, or up to 39 equal ones"]
BOUNDS = {
    "quick": "loops of 1..39 equal iterations; steps of 60 to 1100 items x 25 patterns; loops: all 5^4 scripts (2 iterations x 2 steps) and 4^6 scripts (3 iterations x 2 steps); custom exit at 0..3; grouped: all 9^3 scripts of 3 steps; plain/synchronous/chunked: all 9^3 scripts of 3 items; loops and groups of two steps of all 25 pairs of modes x 576 scripts",
    "thorough": "loops: all 6^6 scripts; grouped and item modes: 9^4",
}

IDS = "abc"
START = {(u, v): [0, "U"] for u, v in itertools.permutations(IDS, 2)}
OPS = [
    None,
    ["NO", "a", "b"],
    ["RU", "a", "b"],
    ["RD", "a", "b"],
    ["RD", "b", "a"],
    ["UD", "a", "b", 7],
    ["RU", "b", "c"],
    ["UE", "b", "c", 9],
    ["RE", "a", "b"],
]


class ExitAt(ExitConditionInterface):
    n: int = 0

    def check(self, graph, graph_model_instance_, actions_taken, iteration):
        SEEN.append((iteration, None if actions_taken is None else [S.describe(x) for x in actions_taken]))
        return iteration >= self.n


SEEN = []


def ref():
    return S.ActionModel({d: x + [False] for d, x in START.items()})


def D(specs):
    return [spec_describe(s) for s in specs]


class Watch:
    """records the graph each call of a step sees"""

    def __init__(self):
        self.seen = []
        S.Script.observe = self

    def __call__(self, script, i, graph, unapplied):
        # directions in the lists of edges, removed ones included
        self.listed = {(u, v) for u in graph.edges for v in graph.edges[u]}
        self.seen.append(
            (
                script,
                i,
                S.snapshot(graph, IDS),
                None
                if unapplied is None
                else [S.describe(x) for r in unapplied if r for x in (r if isinstance(r, list) else [r])],
            )
        )


def loop_case(sh, script, exit_at=None):
    """script[iteration][step] = index into OPS"""
    r = ref()
    want_seen, want_hist = [], []
    it = 0
    prev = None
    exits = []
    nsteps = len(script[0])
    while True:
        if exit_at is None:
            if it > 0 and not prev:
                break
        else:
            exits.append((it, None if prev is None else D(prev)))
            if it >= exit_at:
                break
        prev = []
        for s in range(nsteps):
            want_seen.append(("s%d" % s, r.lives()))
            op = OPS[script[it][s]] if it < len(script) else None
            t = []
            if op is not None:
                x = r.apply(op)
                if x is None:
                    return False
                if x:
                    t.append(op)
            want_hist.append((D(t), D([op] if op is not None else [])))
            prev += t
        it += 1
        if it > 80:
            return False
    m = S.model(
        IDS,
        START,
        steps=[
            Loop(
                pipeline_steps=[S.ScriptStep(script="s%d" % s) for s in range(nsteps)],
                exit_condition=ExitOnNoActions() if exit_at is None else ExitAt(n=exit_at),
            ),
            S.ScriptStep(script="last"),
        ],
    )
    nd = m.graph.nodes
    count = {}

    def player(s):
        def f(graph):
            k = count.get(s, 0)
            count[s] = k + 1
            op = OPS[script[k][s]] if k < len(script) else None
            return None if op is None else S.action(nd, op)

        return f

    S.Script.items = {"s%d" % s: [player(s)] for s in range(nsteps)}
    S.Script.items["last"] = [None]
    w = Watch()
    del SEEN[:]
    hist = m.execute_pipeline_steps()
    key = "loop script=%r exit=%r" % (script, exit_at)
    sh.add(transitions=len(want_seen), traces_validated_against_impl=1)
    got = [(a, c) for a, b, c, d in w.seen]
    sh.check(got[:-1] == want_seen, "graph seen by each step of the loop", key=key, script=script, got=repr(got)[:400], want=repr(want_seen)[:400])
    sh.check(got[-1:] == [("last", r.lives())], "graph after the loop", key=key, got=repr(got[-1:]), want=repr(r.lives()))
    sh.check(w.listed == set(r.lives()), "removed edges are gone when the next step begins", key=key, got=sorted(w.listed), want=sorted(r.lives()))
    gh = [([S.describe(a) for a in st.actions], [S.describe(a) for a in st.all_proposed_actions]) for st in hist[0].steps]
    sh.check(gh == want_hist and len(hist) == 2, "history of the loop", key=key, got=repr(gh)[:400], want=repr(want_hist)[:400])
    sh.check(S.snapshot(m.graph, IDS) == r.lives(), "graph after the loop", key=key)
    if exit_at is not None:
        sh.check(SEEN == exits, "what the exit condition is asked", key=key, got=repr(SEEN), want=repr(exits))
    return True


def loop_part(sh, item):
    choices = item["choices"]
    for rest in itertools.product(choices, repeat=item["iters"] * 2 - 2):
        flat = list(item["first"]) + list(rest)
        script = [flat[i : i + 2] for i in range(0, len(flat), 2)]
        if loop_case(sh, script):
            sh.add(states=1)
        if item["iters"] == 2 and len(set(flat)) < 4:
            for k in range(4):
                loop_case(sh, script, exit_at=k)
    sh.sample(script)


def long_loops(sh, item):
    """loops of many iterations"""
    for k in item["ks"]:
        for a, b in ((5, 0), (7, 5), (0, 7)):
            sh.add(states=1)
            loop_case(sh, [[a, b]] * k)
            loop_case(sh, [[a, b]] * k, exit_at=k)
    for k in item["ks"]:
        # an exit condition that only counts
        loop_case(sh, [[0, 0]], exit_at=k)


def together_case(sh, ops):
    r = ref()
    taken = []
    for o in ops:
        op = OPS[o]
        if op is None:
            taken.append([])
            continue
        x = r.apply(op)
        if x is None:
            return False
        taken.append([op] if x else [])
    m = S.model(
        IDS,
        START,
        steps=[
            ApplyActionsTogether(pipeline_steps=[S.ScriptStep(script="s%d" % i) for i in range(len(ops))]),
            S.ScriptStep(script="last"),
        ],
    )
    nd = m.graph.nodes
    S.Script.items = {"s%d" % i: [S.action(nd, OPS[o]) if OPS[o] else None] for i, o in enumerate(ops)}
    S.Script.items["last"] = [None]
    w = Watch()
    hist = m.execute_pipeline_steps()
    key = "together %r" % (ops,)
    init = ref().lives()
    got = [(a, c) for a, b, c, d in w.seen]
    sh.add(transitions=len(ops), traces_validated_against_impl=1)
    sh.check(
        got == [("s%d" % i, init) for i in range(len(ops))] + [("last", r.lives())],
        "steps of a group see the graph before the group",
        key=key,
        ops=ops,
        got=repr(got)[:500],
        want=repr(r.lives()),
    )
    sh.check(w.listed == set(r.lives()), "removed edges are gone when the next step begins", key=key, got=sorted(w.listed), want=sorted(r.lives()))
    gh = [[S.describe(a) for a in st.actions] for st in hist[0].steps]
    sh.check(gh == [D(t) for t in taken], "history of the group", key=key, got=repr(gh), want=repr(taken))
    gp = [[S.describe(a) for a in st.all_proposed_actions] for st in hist[0].steps]
    sh.check(gp == [D([OPS[o]] if OPS[o] else []) for o in ops], "proposals of the group", key=key, got=repr(gp))
    sh.check(S.snapshot(m.graph, IDS) == r.lives(), "graph after the group", key=key)
    return True


def items_case(sh, ops, mode):
    """one step with several items"""
    r = ref()
    want, taken, results = [], [], []
    init = r.lives()
    group = {"plain": len(ops), "unapplied": len(ops), "sync": 1, "syncunapplied": 1, "chunked": S.Script.group}[mode]
    i = 0
    while i < len(ops):
        g = ops[i : i + group]
        now = r.lives()
        for j in range(len(g)):
            ua = None
            if "unapplied" in mode:
                ua = D([OPS[o] for o in g[:j] if OPS[o]])
            want.append((i + j, now, ua))
        for o in g:
            if OPS[o] is None:
                continue
            x = r.apply(OPS[o])
            if x is None:
                return False
            if x:
                taken.append(OPS[o])
        i += group
    st = S.ScriptStep(
        script="s",
        chunked=mode == "chunked",
        apply_synchronous=mode.startswith("sync"),
        needs_unapplied_actions="unapplied" in mode,
    )
    m = S.model(IDS, START, steps=[st])
    nd = m.graph.nodes
    S.Script.items = {"s": [S.action(nd, OPS[o]) if OPS[o] else None for o in ops]}
    w = Watch()
    hist = m.execute_pipeline_steps()
    key = "items %r %s" % (ops, mode)
    got = [(b, c, d) for a, b, c, d in w.seen]
    sh.add(transitions=len(ops), traces_validated_against_impl=1)
    sh.check(got == want, "graph seen by each item", key=key, ops=ops, mode=mode, got=repr(got)[:500], want=repr(want)[:500])
    gh = [S.describe(a) for a in hist[0].actions]
    sh.check(gh == D(taken), "history of the step", key=key, got=repr(gh), want=repr(D(taken)))
    ga = [S.describe(a) for a in hist[0].all_proposed_actions]
    sh.check(ga == D([OPS[o] for o in ops if OPS[o]]), "proposals of the step", key=key, got=repr(ga))
    sh.check(S.snapshot(m.graph, IDS) == r.lives(), "graph after the step", key=key)
    return True


MODES = ("plain", "unapplied", "sync", "syncunapplied", "chunked")


def many_items(sh, item):
    """steps with many items"""
    for pat in itertools.product((0, 3, 5, 7, 8), repeat=2):
        for n in item["ns"]:
            ops = [pat[i % 2] for i in range(n)]
            for mode in MODES:
                if "unapplied" in mode and n > 150:
                    continue
                S.Script.group = n // 2 + 1 if mode == "chunked" else 2
                try:
                    if items_case(sh, ops, mode):
                        sh.add(states=1)
                finally:
                    S.Script.group = 2


def play(r, ops, mode, dry):
    """reference of one step with several items: what each item sees, what is taken; None: outside of the property"""
    seen, taken = [], []
    group = {"sync": 1, "syncunapplied": 1, "chunked": 2}.get(mode, len(ops))
    for i in range(0, len(ops), group):
        g = ops[i : i + group]
        now = r.lives()
        for j in range(len(g)):
            seen.append((i + j, now, D([OPS[o] for o in g[:j] if OPS[o]]) if "unapplied" in mode else None))
        for o in g:
            if OPS[o] is None or dry:
                continue
            x = r.apply(OPS[o])
            if x is None:
                return None
            if x:
                taken.append(OPS[o])
    return seen, taken


def mixed_case(sh, logic, scripts, modes):
    """steps of every kind in a loop of two iterations or in a group"""
    r = ref()
    want_seen, want_hist = [], []
    for it in range(2 if logic == "loop" else 1):
        for n, (ops, mode) in enumerate(zip(scripts, modes)):
            x = play(r, ops, mode, logic == "group")
            if x is None:
                return False
            want_seen += [("s%d" % n,) + y for y in x[0]]
            want_hist.append((D(x[1]), D([OPS[o] for o in ops if OPS[o]])))
    if logic == "group":
        for n, ops in enumerate(scripts):
            t = []
            for o in ops:
                if OPS[o] is None:
                    continue
                x = r.apply(OPS[o])
                if x is None:
                    return False
                if x:
                    t.append(OPS[o])
            want_hist[n] = (D(t), want_hist[n][1])
    steps = [
        S.ScriptStep(script="s%d" % n, chunked=mode == "chunked", apply_synchronous=mode.startswith("sync"), needs_unapplied_actions="unapplied" in mode)
        for n, mode in enumerate(modes)
    ]
    outer = Loop(pipeline_steps=steps, exit_condition=ExitAt(n=2)) if logic == "loop" else ApplyActionsTogether(pipeline_steps=steps)
    m = S.model(IDS, START, steps=[outer])
    nd = m.graph.nodes
    S.Script.items = {"s%d" % n: [S.action(nd, OPS[o]) if OPS[o] else None for o in ops] for n, ops in enumerate(scripts)}
    w = Watch()
    del SEEN[:]
    hist = m.execute_pipeline_steps()
    key = "mixed %s %r %r" % (logic, scripts, modes)
    sh.add(transitions=len(want_seen), traces_validated_against_impl=1)
    sh.check(w.seen == want_seen, "graph seen by each item of the steps of a %s" % logic, key=key, got=repr(w.seen)[:600], want=repr(want_seen)[:600])
    gh = [([S.describe(a) for a in st.actions], [S.describe(a) for a in st.all_proposed_actions]) for st in hist[0].steps]
    sh.check(gh == want_hist, "history of a %s" % logic, key=key, got=repr(gh)[:400], want=repr(want_hist)[:400])
    sh.check(S.snapshot(m.graph, IDS) == r.lives(), "graph after a %s" % logic, key=key)
    return True


def mixed_part(sh, item):
    for rest in itertools.product(item["choices"], repeat=3):
        ops = [item["first"]] + list(rest)
        for modes in itertools.product(MODES, repeat=2):
            for logic in ("loop", "group"):
                if mixed_case(sh, logic, [ops[:2], ops[2:]], modes):
                    sh.add(states=1)


def seq_part(sh, item):
    n = item["n"]
    for rest in itertools.product(range(len(OPS)), repeat=n - 1):
        ops = [item["first"]] + list(rest)
        ok = [together_case(sh, ops)]
        for mode in ("plain", "sync", "chunked", "unapplied", "syncunapplied"):
            ok.append(items_case(sh, ops, mode))
        # a state is a script that could be executed; every execution mode is a trace
        sh.add(states=1 if any(ok) else 0)
    sh.sample(ops)


def run(ctx):
    c5, c4, c6 = [0, 1, 2, 3, 5], [0, 2, 4, 5], [0, 1, 2, 3, 5, 8]
    ctx.explore(loop_part, [{"choices": c5, "iters": 2, "first": [a, b]} for a in c5 for b in c5], name="loops, 2 iterations", limit=300)
    ctx.explore(long_loops, [{"ks": list(range(k, 40, 8))} for k in range(1, 9)], name="loops of up to 40 iterations")
    ctx.explore(many_items, [{"ns": [n]} for n in (60, 120, 300, 1100)] + ([{"ns": [5000]}] if ctx.thorough else []), name="steps of many items", limit=600)
    cm = ctx.pick([2, 3, 5, 8], [0, 2, 3, 4, 5, 8])
    ctx.explore(mixed_part, [{"choices": cm, "first": f} for f in range(len(OPS))], name="steps of every kind in loops and groups", limit=900)
    c = ctx.pick(c4, c6)
    ctx.explore(loop_part, [{"choices": c, "iters": 3, "first": [a, b]} for a in c for b in c], name="loops, 3 iterations", limit=900)
    n = ctx.pick(3, 4)
    ctx.explore(seq_part, [{"n": n, "first": f} for f in range(len(OPS))], name="groups and items", limit=900)
