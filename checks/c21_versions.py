"""C21: the versions of an experiment are exactly its own results, in the commands and in the UI, also while results come and go."""
import contextlib
import itertools
import json
import os
import sys
from datetime import datetime
from urllib.parse import quote

from fastapi.testclient import TestClient

from lib import ws
from lib.harness import scratch

import causy.ui.server as server
from causy.workspaces.models import Workspace

PROPERTY = "C21"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "a result of experiment E with version N is the file E_N.json in the workspace folder (N without leading zeros)",
    "other processes act between two file accesses of a request (preemption at open and directory listing)",
]
BOUNDS = {
    "quick": "every subset of 11 result-like files for 5 experiments with overlapping names (2048 folders): all UI queries; clear and rm of each experiment in each of 1024 of these; one or two other actions (new result, older result, clear, replace) at every file access of every UI request, from 4 folders, and of clear and rm; all pairs of 40 unusual file names for 13 experiments with unusual names (regular expression and glob characters, blanks, version numbers beyond the range of dates); 12, 60 and 150 versions of 5 spacings",
    "thorough": "13 files (8192 folders); three other actions",
}

RESULT = None


def result(marker):
    """a real result with a recognisable variable"""
    global RESULT
    if RESULT is None:
        from causy.causal_discovery.constraint.algorithms import PC
        from causy.models import AlgorithmReference, Result
        from causy.serialization import CausyJSONEncoder

        m = PC()
        m.create_graph_from_data({"x": [1.0, 2.0, 4.0, 3.0, 5.5], "y": [2.0, 1.0, 5.0, 3.0, 3.5]})
        m.create_all_possible_edges()
        m.execute_pipeline_steps()
        r = Result(algorithm=AlgorithmReference(type="name", reference="PC"), action_history=m.graph.graph.action_history, edges=m.graph.retrieve_edges(), nodes=m.graph.nodes)
        RESULT = json.loads(json.dumps(r.model_dump(), cls=CausyJSONEncoder))
    return json.dumps(dict(RESULT, variables={"marker": marker}))


EXPERIMENTS = ["a", "a_1", "ab", "a.b", "1"]
# file -> (experiment, version) or None if it is nobody's result
FILES = {
    "a_5.json": ("a", 5),
    "a_1700000000.json": ("a", 1700000000),
    "a_1_5.json": ("a_1", 5),
    "a_1_12.json": ("a_1", 12),
    "ab_7.json": ("ab", 7),
    "a.b_5.json": ("a.b", 5),
    "axb_5.json": None,
    "a_07.json": None,
    "1_2.json": ("1", 2),
    "a_5.json.bak": None,
    "a_x.json": None,
    "b_a_9.json": None,
    "a_5_json": None,
}


ODD_EXPERIMENTS = ["a", "a+", "a[1]", "a*", "A", "a-b", "a b", "ä", "a_", "_a", "5", "^a", "a$"]
ODD_FILES = {
    "a_5.json": ("a", 5),
    "a_0.json": ("a", 0),
    "a+_5.json": ("a+", 5),
    "aa_5.json": None,
    "a[1]_5.json": ("a[1]", 5),
    "a1_5.json": None,
    "a*_5.json": ("a*", 5),
    "A_5.json": ("A", 5),
    "a-b_5.json": ("a-b", 5),
    "a b_5.json": ("a b", 5),
    "ä_5.json": ("ä", 5),
    "a__5.json": ("a_", 5),
    "_a_5.json": ("_a", 5),
    "5_5.json": ("5", 5),
    "^a_5.json": ("^a", 5),
    "a$_5.json": ("a$", 5),
    "a_20240101120000.json": ("a", 20240101120000),
    "a_99999999999999999999.json": ("a", 99999999999999999999),
    "a_253402300800.json": ("a", 253402300800),
    "a_-5.json": None,
    "a_+5.json": None,
    "a_5e3.json": None,
    "a_5.0.json": None,
    "a_ 5.json": None,
    "a_5 .json": None,
    "a_1_000.json": None,
    "a_\u0665.json": None,
    "a_\u00b2.json": None,
    "a_5.json\n": None,
    "\na_5.json": None,
    "a_5.JSON": None,
    "a_5.json~": None,
    ".a_5.json": None,
    ".a_5.json.77.tmp": None,
    "a_.json": None,
    "a5.json": None,
    "a_5.json.json": None,
    "a_5xjson": None,
    "a_005.json": None,
    "a_00.json": None,
}


@contextlib.contextmanager
def odd():
    global FILES, EXPERIMENTS
    old = FILES, EXPERIMENTS
    FILES, EXPERIMENTS = ODD_FILES, ODD_EXPERIMENTS
    try:
        yield
    finally:
        FILES, EXPERIMENTS = old


def odd_folders(sh, item):
    """unusual names of experiments and files: each pair of files, and all together"""
    with odd(), scratch() as d, ws.inside(d):
        c = client()
        names = list(FILES)
        todo = [sorted({names[item["k"]], n}) for n in names] + ([names] if item["k"] == 0 else [[n for n in names if n != names[item["k"]]]])
        for present in todo:
            ws.restore({f: result(f).encode() for f in present})
            sh.add(states=1)
            queries(sh, c, present)
            if len(present) != 2:
                commands(sh, present)
    sh.sample({"present": present})


def many_versions(sh, item):
    """an experiment with many results, another one with few"""
    mine = [item["first"] + item["step"] * i for i in range(item["n"])]
    ws_files = {"a_%d.json" % v: v for v in mine}
    with scratch() as d, ws.inside(d):
        c = client()
        others = {"ab_7.json": result("ab_7.json").encode(), "notes.json": b"{}"}
        base = {**{f: result(f).encode() for f in ws_files}, **others}
        ws.restore(base)
        sh.add(states=1)
        code, exps = get(c, "/experiments")
        got = [sorted(v["version"] for v in x["versions"]) for x in exps if x["name"] == "a"] if code == 200 else code
        sh.check(got == [sorted(mine)], "listed versions", key="many list %r" % item, got=repr(got)[:300])
        code, r = get(c, "/experiments/a/latest")
        sh.check(code == 200 and (r["version"], r["variables"]) == (max(mine), {"marker": "a_%d.json" % max(mine)}), "the latest result of an experiment", key="many latest %r" % item, got=str(r)[:200])
        for v in mine:
            code, r = get(c, "/experiments/a/%d" % v)
            sh.add(transitions=1, traces_validated_against_impl=1)
            sh.check(code == 200 and (r["version"], r["variables"]) == (v, {"marker": "a_%d.json" % v}), "a version of an experiment", key="many version %r" % item, version=v, got=(code, str(r)[:200]))
        for cmd in ("clear", "rm"):
            ws.restore(base)
            ws.put(workspace())
            code, out, exc = ws.cli(["workspace", "experiment", cmd, "a"])
            left = set(ws.files()) - {"workspace.yml"}
            sh.add(transitions=1)
            sh.check(code == 0 and left == set(others), "clearing or removing deletes exactly the own results", key="many %s %r" % (cmd, item), left=sorted(left)[:20], error=repr(exc))
    sh.sample(item)


def race_commands(sh, item):
    """results of the experiment are cleared or added by another process at every file access of clear and rm"""
    if not HOOK["installed"]:
        sys.addaudithook(_audit)
        HOOK["installed"] = True
    with scratch() as d, ws.inside(d):
        HOOK["dir"] = os.path.realpath(d)
        os.chdir(HOOK["dir"])
        for cmd in ("clear", "rm"):

            def go(plan):
                ws.restore({f: result(f).encode() for f in item["present"]})
                ws.put(workspace())
                HOOK.update(n=0, plan=plan, on=True)
                try:
                    return ws.cli(["workspace", "experiment", cmd, "a"])
                finally:
                    HOOK["on"] = False

            go({})
            points = HOOK["n"]
            sh.add(states=points + 1)
            others = {f for f in item["present"] if FILES[f] is None or FILES[f][0] != "a"}
            for p in range(points + 1):
                for act in ("clear", "new", "other", "one"):
                    f = actions(0).get(act) or (lambda: os.path.exists("a_5.json") and os.unlink("a_5.json"))
                    code, out, exc = go({p: [f]})
                    left = set(ws.files()) - {"workspace.yml"}
                    sh.add(transitions=1, traces_validated_against_impl=1)
                    allowed = {"a_100.json"} if act == "new" else set()
                    want = others | ({"a_1_9.json"} if act == "other" and p < HOOK["n"] else set())
                    sh.check(exc is None and left - allowed == want, "%s while other processes clear or add results" % cmd, key="race %s %s %d %r" % (cmd, act, p, item["present"]), left=sorted(left), want=sorted(want), error=repr(exc))
                    exps = set(ws.load_workspace()["experiments"])
                    sh.check(exps == set(EXPERIMENTS) - ({"a"} if cmd == "rm" else set()), "experiments of the workspace", key="race %s experiments" % cmd, got=sorted(exps))


def workspace():
    return Workspace(
        name="w",
        author=None,
        pipelines={"p": {"type": "name", "reference": "PC"}},
        dataloaders={"d": {"type": "json", "reference": "d.json"}},
        experiments={e: {"pipeline": "p", "dataloader": "d", "variables": {}} for e in EXPERIMENTS},
    )


def client():
    server._set_workspace(workspace())
    return TestClient(server._create_ui_app(with_static=False), raise_server_exceptions=False)


def owned(present, e):
    return sorted(FILES[f][1] for f in present if FILES[f] and FILES[f][0] == e)


def get(c, path):
    r = c.get("/api/v1" + path)
    try:
        return r.status_code, r.json()
    except ValueError:
        return r.status_code, None


def populate(present):
    for f in present:
        with open(f, "w") as fh:
            fh.write(result(f))


def folders(sh, item):
    names = list(FILES)[: item["n"]]
    with scratch() as d, ws.inside(d):
        c = client()
        for rest in itertools.product([0, 1], repeat=len(names) - len(item["bits"])):
            bits = item["bits"] + list(rest)
            present = [f for f, b in zip(names, bits) if b]
            ws.restore({f: result(f).encode() for f in present})
            sh.add(states=1)
            queries(sh, c, present)
            if bits[-1] == 0:
                commands(sh, present)
    sh.sample({"present": present})


def queries(sh, c, present):
    code, exps = get(c, "/experiments")
    sh.add(transitions=1, traces_validated_against_impl=1)
    got = {x["name"]: sorted(v["version"] for v in x["versions"]) for x in exps} if code == 200 else code
    want = {e: owned(present, e) for e in EXPERIMENTS}
    sh.check(got == want, "listed versions", key="list", present=present, got=got, want=want)
    for x in exps if code == 200 else ():
        for v in x["versions"]:
            try:
                when = datetime.fromtimestamp(v["version"]).isoformat()
            except (ValueError, OverflowError, OSError):
                continue
            sh.check(v["name"] == when, "a version is named by its time", key="version name", got=v, want=when)
    for e in EXPERIMENTS:
        mine = owned(present, e)
        code, r = get(c, "/experiments/%s/latest" % quote(e))
        sh.add(transitions=1)
        if mine:
            f = "%s_%d.json" % (e, mine[-1])
            ok = code == 200 and (r["version"], r["variables"]) == (mine[-1], {"marker": f})
            sh.check(ok, "the latest result of an experiment", key="latest", experiment=e, present=present, got=(code, str(r)[:200] if code != 200 else (r["version"], r["variables"])), want=f)
        else:
            sh.check(400 <= code < 500, "no latest result without a result", key="latest none", experiment=e, present=present, got=code)
        for v in sorted({2, 5, 7, 12, 1700000000, 15, 0} | set(mine)):
            code, r = get(c, "/experiments/%s/%d" % (quote(e), v))
            sh.add(transitions=1)
            if v in mine:
                ok = code == 200 and (r["version"], r["variables"]) == (v, {"marker": "%s_%d.json" % (e, v)})
                sh.check(ok, "a version of an experiment", key="version", experiment=e, version=v, present=present, got=(code, str(r)[:200]))
            else:
                sh.check(400 <= code < 500, "a version that does not exist", key="version none", experiment=e, version=v, present=present, got=code)
    code, r = get(c, "/experiments/nope/latest")
    sh.check(400 <= code < 500, "an experiment that does not exist", key="unknown", got=code)


def commands(sh, present):
    base = {f: result(f).encode() for f in present}
    for cmd in ("clear", "rm"):
        for e in EXPERIMENTS:
            ws.restore(base)
            ws.put(workspace())
            code, out, exc = ws.cli(["workspace", "experiment", cmd, e])
            sh.add(transitions=1, traces_validated_against_impl=1)
            left = ws.files()
            w = left.pop("workspace.yml", None)
            want = {f: b for f, b in base.items() if not (FILES[f] and FILES[f][0] == e)}
            sh.check(exc is None and left == want, "%s removes exactly the results of the experiment" % cmd, key=cmd, experiment=e, present=present, left=sorted(left), want=sorted(want), error=repr(exc))
            exps = set(ws.load_workspace()["experiments"])
            sh.check(exps == set(EXPERIMENTS) - ({e} if cmd == "rm" else set()), "experiments of the workspace", key=cmd + " experiments", got=sorted(exps))
    ws.restore(base)


# -- other processes at every file access ----------------------------------------------------------
HOOK = {"on": False, "n": 0, "plan": {}, "dir": None, "installed": False}


def _audit(event, args):
    if not HOOK["on"] or event not in ("open", "os.listdir", "os.scandir", "os.stat"):
        return
    path = args[0]
    if path is None:
        path = "."
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not isinstance(path, str) or not os.path.abspath(path).startswith(HOOK["dir"]):
        return
    HOOK["on"] = False
    try:
        for act in HOOK["plan"].get(HOOK["n"], ()):
            act()
        HOOK["n"] += 1
    finally:
        HOOK["on"] = True


def replace(name, marker):
    with open("." + name + ".new", "w") as f:
        f.write(result(marker))
    os.replace("." + name + ".new", name)


def actions(k):
    """other processes: (name, effect on the list of own versions, what they do)"""
    return {
        "new": lambda: replace("a_%d.json" % (100 + k), "a_%d.json" % (100 + k)),
        "old": lambda: replace("a_3.json", "a_3.json"),
        "clear": lambda: [os.unlink(f) for f in os.listdir(".") if f.startswith("a_") and f.endswith(".json") and f[2:-5].isdigit()],
        "other": lambda: replace("a_1_9.json", "a_1_9.json"),
    }


def versions_now():
    return sorted(int(f[2:-5]) for f in os.listdir(".") if f.startswith("a_") and f.endswith(".json") and f[2:-5].isdigit())


def interleave(sh, item):
    if not HOOK["installed"]:
        sys.addaudithook(_audit)
        HOOK["installed"] = True
    with scratch() as d, ws.inside(d):
        c = client()
        HOOK["dir"] = os.path.realpath(d)
        os.chdir(HOOK["dir"])
        for request in ("/experiments/a/latest", "/experiments/a/5", "/experiments"):

            def go(plan):
                """-> (response, list of the version lists that existed during the request)"""
                ws.restore({f: result(f).encode() for f in item["present"]})
                seen = [versions_now()]

                def wrap(act):
                    def f():
                        act()
                        seen.append(versions_now())

                    return f

                HOOK.update(n=0, plan={k: [wrap(a) for a in v] for k, v in plan.items()}, on=True)
                try:
                    r = get(c, request)
                finally:
                    HOOK["on"] = False
                return r, seen

            go({})
            points = HOOK["n"]
            acts = list(actions(0))
            plans = [(p,) for p in itertools.product(range(points + 1), acts)]
            for extra in range(1, item["others"]):
                plans += [
                    tuple(zip(ps, names))
                    for ps in itertools.combinations_with_replacement(range(points + 1), extra + 1)
                    for names in itertools.product(acts, repeat=extra + 1)
                ]
            for plan in plans:
                by = {}
                for k, (p, a) in enumerate(plan):
                    by.setdefault(p, []).append(actions(k)[a])
                (code, r), seen = go(by)
                sh.add(transitions=1, traces_validated_against_impl=1)
                label = "%s %r" % (request, plan)
                if request == "/experiments":
                    mine = next((sorted(v["version"] for v in x["versions"]) for x in r if x["name"] == "a"), None) if code == 200 else code
                    sh.check(mine in seen, "the listed versions existed at one moment of the request", key="race list " + label, got=mine, seen=seen, present=item["present"])
                elif request.endswith("latest"):
                    latest = [s[-1] for s in seen if s]
                    if code == 200:
                        ok = r["version"] in latest and r["variables"] == {"marker": "a_%d.json" % r["version"]}
                        sh.check(ok, "the latest result is one that was the latest at one moment of the request", key="race latest " + label, got=(r["version"], r["variables"]), seen=seen, present=item["present"])
                    else:
                        # refused: only if there was a moment without (that) result
                        sh.check(400 <= code < 500 and any(a == "clear" for _, a in plan) or not item["present"] and 400 <= code < 500, "a request for an existing result succeeds", key="race latest fails " + label, got=(code, str(r)[:200]), seen=seen)
                else:
                    if code == 200:
                        sh.check(r["variables"] == {"marker": "a_5.json"} and r["version"] == 5 and any(5 in s for s in seen), "the asked version", key="race version " + label, got=str(r)[:200])
                    else:
                        sh.check(400 <= code < 500 and any(5 not in s for s in seen), "a request for an existing version succeeds", key="race version fails " + label, got=(code, str(r)[:200]), seen=seen)
            sh.add(states=points + 1)
    sh.sample(item)


def other_endpoints(sh, item):
    with scratch() as d, ws.inside(d):
        c = client()
        code, r = get(c, "/workspace")
        sh.check(code == 200 and set(r["experiments"]) == set(EXPERIMENTS), "workspace endpoint", key="workspace", got=(code, str(r)[:200]))
        w = workspace()
        sh.check(code == 200 and Workspace(**r).model_dump() == w.model_dump(), "the workspace is served as it is", key="workspace content", got=str(r)[:300])
        code, r = get(c, "/status")
        sh.check(code == 200 and r["workspace_loaded"] is True and r["mode"] == "workspace", "status", key="status", got=r)
        server._set_workspace(None)
        for p in ("/workspace", "/experiments", "/experiments/a/latest", "/experiments/a/5"):
            code, r = get(c, p)
            sh.check(400 <= code < 500, "nothing is served without a workspace", key="none " + p, got=code)
        sh.check(400 <= get(c, "/model")[0] < 500, "no model", key="no model")
        server._set_model(json.loads(result("m")))
        code, r = get(c, "/model")
        want = json.loads(result("m"))
        ok = code == 200 and r["variables"] == want["variables"] and [(e["u"]["name"], e["v"]["name"]) for e in r["edges"]] == [(e["u"]["name"], e["v"]["name"]) for e in want["edges"]] and set(r["nodes"]) == set(want["nodes"])
        sh.check(ok, "the model is served as stored", key="model", got=str(r)[:300])
        server._set_model(None)
        sh.add(states=1, transitions=8, traces_validated_against_impl=8)


def run(ctx):
    n = ctx.pick(11, 13)
    ctx.explore(folders, [{"n": n, "bits": list(b)} for b in itertools.product([0, 1], repeat=5)], name="folders", limit=900)
    starts = [[], ["a_5.json"], ["a_5.json", "a_1_5.json"], ["a_5.json", "a_1700000000.json", "ab_7.json"]]
    starts = starts[:3] + [["a_5.json", "ab_7.json", "a_1_12.json"]]
    ctx.explore(interleave, [{"present": s, "others": ctx.pick(2, 3)} for s in starts], name="interleavings", limit=900)
    ctx.explore(odd_folders, [{"k": k} for k in range(len(ODD_FILES))], name="unusual names", limit=300)
    ctx.explore(race_commands, [{"present": s} for s in (["a_5.json"], ["a_5.json", "a_1700000000.json", "a_1_5.json", "ab_7.json"])], name="commands and other processes", limit=300)
    ctx.explore(many_versions, [{"n": n, "first": f, "step": st} for n in (12, 60, 150) for f, st in ((0, 1), (95, 1), (1700000000, 3), (9999999990, 1), (1, 10**9 + 7))], name="many versions", limit=300)
    ctx.explore(other_endpoints, [{}], name="other endpoints")
