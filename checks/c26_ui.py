"""C26: the UI serves exactly what is configured and stored, and changes nothing."""
import contextlib
import itertools
import json
import os
import socket
import urllib.parse

import yaml
from fastapi.testclient import TestClient

from lib import discovery as D
from lib import graphs as G
from lib import scripted as S
from lib import ws
from lib.harness import call, scratch
from checks.c06_actions import STARTS2, STARTS3, alphabet
from checks.c17_result_roundtrip import META

import causy.ui.server as server
from causy.models import AlgorithmReference, AlgorithmReferenceType, Result
from causy.serialization import CausyJSONEncoder

PROPERTY = "C26"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "finite numbers (JSON has no others); requests through the ASGI application, without a socket",
    "added by the UI and not compared: the position of a node and the version of a result",
]
BOUNDS = {
    "quick": "results of PC on all 185 4-node Markov equivalence classes, of every scripted action sequence of length <= 2 over 2 nodes and 1 over 3 nodes, 11 kinds of edge metadata x 3 edge types and node metadata; as model, as latest, as numbered version and as an earlier version of the same experiment; 5, 12 and 25 experiments with as many versions, and results with as many nodes and steps; all 216 workspace configurations of 0..2 pipelines, data loaders, experiments with typed variables and 0..2 versions; all 9 combinations of loaded model and workspace x every endpoint; `causy ui` with every combination of workspace, result file (existing, missing, no JSON), HOST, PORT, CORS_ENABLED and 0, 1 or 3 ports in use",
    "thorough": "as quick with the 4 algorithms and action sequences of length 3",
}


def client():
    return TestClient(server._create_ui_app(with_static=False), raise_server_exceptions=False)


def strict(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(strict(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(strict(x, y) for x, y in zip(a, b))
    return a == b


def first_difference(a, b, path=""):
    if type(a) is type(b) and isinstance(a, dict):
        for k in list(a) + list(b):
            if k not in a or k not in b:
                return path + "/%s only in one" % k
            if not strict(a[k], b[k]):
                return first_difference(a[k], b[k], path + "/%s" % k)
    if type(a) is type(b) and isinstance(a, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not strict(x, y):
                return first_difference(x, y, path + "/%d" % i)
    return "%s: %r != %r" % (path, str(a)[:100], str(b)[:100])


def strip(r):
    """what the UI adds"""
    r = dict(r)
    version = r.pop("version", None)
    r["nodes"] = {k: {x: y for x, y in n.items() if x != "position"} for k, n in r["nodes"].items()}
    return version, r


def get(c, path):
    r = c.get("/api/v1" + path)
    try:
        return r.status_code, r.json()
    except ValueError:
        return r.status_code, None


def dump(m, k=0, variables=None):
    t, ref = [("name", "PC"), ("file", "my pipeline.yaml"), ("python_module", "a.b.C")][k % 3]
    r = Result(
        algorithm=AlgorithmReference(type=AlgorithmReferenceType(t), reference=ref),
        action_history=m.graph.graph.action_history,
        edges=m.graph.retrieve_edges(),
        nodes=m.graph.nodes,
        variables={"threshold": 0.05, "n": 3, "s": "x", "b": True} if variables is None else variables,
        data_loader_hash="d" * 8,
        algorithm_hash="a" * 8,
        variables_hash=None,
    )
    return json.dumps(r.model_dump(), cls=CausyJSONEncoder, indent=4)


def served(sh, c, text, key):
    # the result served before is kept as an earlier version
    earlier = text
    if os.path.exists("e_5.json"):
        with open("e_5.json") as f:
            earlier = f.read()
    for name, content in (("e_3.json", earlier), ("e_5.json", text)):
        with open(name, "w") as f:
            f.write(content)
    server._set_model(json.loads(text))
    for path, version in (("/model", None), ("/experiments/e/latest", 5), ("/experiments/e/5", 5), ("/experiments/e/3", 3)):
        want = json.loads(earlier if version == 3 else text)
        code, got = get(c, path)
        sh.add(transitions=1, traces_validated_against_impl=1)
        if not sh.check(code == 200 and isinstance(got, dict), "a stored result is served", key="served %s %s" % (path, key), code=code, got=str(got)[:300]):
            continue
        v, got = strip(got)
        sh.check(v == version and strict(got, want), "the served result is the stored one", key="content %s %s" % (path, key), version=v, difference=None if strict(got, want) else first_difference(got, want))
    with open("e_5.json") as f:
        sh.check(f.read() == text and sorted(os.listdir(".")) == ["e_3.json", "e_5.json"], "serving changes nothing", key="unchanged " + key)
    sh.add(states=1)


def one_experiment():
    from causy.workspaces.models import Workspace

    server._set_workspace(Workspace(name="w", author=None, pipelines={"p": {"type": "name", "reference": "PC"}}, dataloaders={"d": {"type": "json", "reference": "d.json"}}, experiments={"e": {"pipeline": "p", "dataloader": "d"}}))


def discovered(sh, item):
    with scratch() as d, ws.inside(d):
        one_experiment()
        c = client()
        for i, dag in enumerate(item["dags"]):
            cols, w = D.data(4, G.from_item(dag))
            m = D.fit(item["alg"], cols, ["x1", "b b", "\u00fc", ["Z", "F47AC10B-58CC-4372-A567-0E02B2C3D479", "1"][i % 3]])
            served(sh, c, dump(m, i), "%s %r" % (item["alg"], dag))
    server._set_model(None)
    server._set_workspace(None)
    sh.sample([item["alg"], item["dags"][0]])


def scripted(sh, item):
    ids = item["ids"]
    ops = alphabet(ids)
    starts = STARTS2 if len(ids) == 2 else STARTS3
    with scratch() as d, ws.inside(d):
        one_experiment()
        c = client()
        count = 0
        for seq in itertools.product(ops, repeat=item["len"]):
            if seq[0] != ops[item["first"]]:
                continue
            for si, start in enumerate(starts):
                S.Script.items, S.Script.observe = {}, None
                m = S.model(ids, start, steps=[S.ScriptStep(script="s")])
                S.Script.items["s"] = [S.action(m.graph.nodes, o) for o in seq]
                if call(m.execute_pipeline_steps)[0] != "ok":
                    continue
                count += 1
                served(sh, c, dump(m, count), "%r start %d" % (seq, si))
    server._set_model(None)
    server._set_workspace(None)


def metadata(sh, item):
    with scratch() as d, ws.inside(d):
        one_experiment()
        c = client()
        for i, md in enumerate(META):
            for t in "UDB":
                m = S.model("ab", {("a", "b"): [0, t]} if t == "D" else {("a", "b"): [0, t], ("b", "a"): [0, t]})
                for u, v in (("a", "b"), ("b", "a")):
                    if m.graph.directed_edge_exists(u, v):
                        m.graph.update_directed_edge(m.graph.nodes[u], m.graph.nodes[v], metadata=dict(md))
                m.graph.nodes["a"].metadata = dict(md)
                served(sh, c, dump(m, i, variables=dict(list(md.items())[:1])), "metadata %r %s" % (md, t))
    server._set_model(None)
    server._set_workspace(None)


PIPES = [("p", {"type": "name", "reference": "PC"}), ("q 2", {"type": "file", "reference": "x/y.yaml"}), ("m", {"type": "python_module", "reference": "a.PIPELINE"})]
LOADERS = [
    ("d", {"type": "json", "reference": "d.json", "options": None}),
    ("d\u00e4", {"type": "jsonl", "reference": "d.jsonl", "options": {"a": 1, "b": [True, 1.0, "x"], "c": {"d": None}}}),
    ("dyn", {"type": "dynamic", "reference": "a.B", "options": {}}),
]
VARIABLES = [{}, {"b": True, "f": 1.0, "i": 1, "s": "1"}, {"z": False, "t": 0.0, "u": 0, "v": ""}]


def configurations(sh, item):
    """the workspace and the list of experiments are the configured ones"""
    result = dump(S.model("ab", {("a", "b"): [0, "D"]}))
    with scratch() as d, ws.inside(d):
        c = client()
        for np, nd, ne, nv, var in itertools.product(range(item["first"], item["first"] + 1), (0, 1, 3), (0, 1, 2), (0, 1, 2), VARIABLES):
            if ne and not (np and nd):
                continue
            conf = {"name": "w %d" % nv, "author": ["a", None][nd % 2], "pipelines": dict(PIPES[:np]), "dataloaders": dict(LOADERS[:nd]), "experiments": {}}
            for k in range(ne):
                conf["experiments"]["e%d" % k] = {"pipeline": PIPES[k % np][0], "dataloader": LOADERS[k % nd][0], "variables": var if k == 0 else VARIABLES[1]}
            ws.restore({})
            with open("workspace.yml", "w") as f:
                yaml.safe_dump(conf, f)
            versions = [1700000000 + 7 * k for k in range(nv)]
            for v in versions:
                with open("e0_%d.json" % v, "w") as f:
                    f.write(result)
            before = ws.files()

            server._set_workspace(ws.current())
            key = "%d %d %d %d %r" % (np, nd, ne, nv, var)
            code, got = get(c, "/workspace")
            sh.add(states=1, transitions=2, traces_validated_against_impl=2)
            sh.check(code == 200 and strict(got, conf), "the served workspace is the configured one", key="workspace " + key, code=code, difference=None if strict(got, conf) else first_difference(got, conf))
            code, got = get(c, "/experiments")
            want = [dict(x, name=n, versions=sorted(versions, reverse=True) if n == "e0" else []) for n, x in conf["experiments"].items()]
            if sh.check(code == 200 and isinstance(got, list), "the experiments are listed", key="experiments code " + key, code=code):
                have = [dict(x, versions=sorted((v["version"] for v in x["versions"]), reverse=True)) for x in got]
                have.sort(key=lambda x: x["name"])
                sh.check(strict(have, want), "the listed experiments are the configured ones", key="experiments " + key, difference=None if strict(have, want) else first_difference(have, want))
            sh.check(ws.files() == before, "serving changes nothing", key="unchanged " + key)
    server._set_workspace(None)
    sh.sample(conf)


def states(sh, item):
    """every endpoint with every combination of loaded model and workspace"""
    from causy.workspaces.models import Workspace

    result = dump(S.model("ab", {("a", "b"): [0, "D"]}))
    with scratch() as d, ws.inside(d):
        c = client()
        empty = Workspace(name="w", author=None, pipelines=None, dataloaders=None, experiments=None)
        full = Workspace(name="w", author=None, pipelines={"p": {"type": "name", "reference": "PC"}}, dataloaders={"d": {"type": "json", "reference": "d.json"}}, experiments={"e": {"pipeline": "p", "dataloader": "d"}, "none": {"pipeline": "p", "dataloader": "d"}})
        with open("e_5.json", "w") as f:
            f.write(result)
        for model, space, again in itertools.product((None, result), (None, empty, full), (None, result)):
            server._set_model(json.loads(again) if again else None)
            server._set_model(json.loads(model) if model else None)
            server._set_workspace(space)
            key = "%s %s" % (model is not None, "none" if space is None else "full" if space is full else "empty")
            code, got = get(c, "/status")
            sh.add(states=1, transitions=8, traces_validated_against_impl=8)
            want = {"status": "ok", "model_loaded": model is not None, "workspace_loaded": space is not None, "mode": "workspace" if space is not None else "model"}
            sh.check(code == 200 and {k: got.get(k) for k in want} == want, "the status says what is loaded", key="status " + key, code=code, got=got, want=want)
            sh.check(get(c, "/model")[0] == (200 if model else 404), "the model is served if there is one", key="model " + key, code=get(c, "/model")[0])
            sh.check(get(c, "/workspace")[0] == (200 if space is not None else 404), "the workspace is served if there is one", key="ws " + key, code=get(c, "/workspace")[0])
            if space is None:
                sh.check(get(c, "/experiments")[0] == 404, "no workspace, no experiments", key="exps " + key)
            if space is full:
                sh.check(get(c, "/experiments")[0] == 200, "experiments of a workspace", key="exps " + key)
            if space is not empty:
                on = space is full
                for path, good in (("e/latest", 200), ("e/5", 200), ("e/6", 400), ("none/latest", 400), ("none/5", 400), ("other/latest", 404), ("other/5", 404), (urllib.parse.quote("../e", safe="") + "/5", 404)):
                    code = get(c, "/experiments/" + path)[0]
                    sh.check(code == (good if on else 404), "existing results are served, others are not", key="%s %s" % (path, key), code=code)
    server._set_model(None)
    server._set_workspace(None)


def listening(port):
    with socket.socket(socket.AF_INET, socket.SOCK_STREAM) as s:
        return s.connect_ex(("127.0.0.1", port)) == 0


def first_free():
    return next(p for p in range(8000, 65536) if not listening(p))


@contextlib.contextmanager
def occupied(n):
    """n ports from 8000 on are in use (those of other processes count)"""
    own = []
    try:
        for p in range(8000, 8000 + n):
            s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                s.bind(("127.0.0.1", p))
                s.listen(64)
                own.append(s)
            except OSError:
                s.close()
        yield
    finally:
        for s in own:
            s.close()


@contextlib.contextmanager
def not_really(ran):
    """the frontend need not be built, no browser is opened, the server is not run"""
    import starlette.staticfiles
    import typer
    import uvicorn

    init = starlette.staticfiles.StaticFiles.__init__

    def lenient(self, *a, **k):
        k["check_dir"] = False
        init(self, *a, **k)

    patches = [
        (starlette.staticfiles.StaticFiles, "__init__", lenient),
        (typer, "launch", lambda *a, **k: 0),
        (uvicorn.Server, "run", lambda self, *a, **k: ran.append(self.config)),
    ]
    saved = [(o, n, getattr(o, n)) for o, n, _ in patches]
    for o, n, v in patches:
        setattr(o, n, v)
    try:
        yield
    finally:
        for o, n, v in saved:
            setattr(o, n, v)


ENVS = [{}, {"PORT": "8123"}, {"PORT": "8000", "CORS_ENABLED": "false"}, {"HOST": "127.0.0.1", "CORS_ENABLED": "True"}, {"HOST": "127.0.0.1", "PORT": "9001", "CORS_ENABLED": "true"}]


def started(sh, item):
    """`causy ui` with a result file, a workspace, both or none of them"""
    conf = {"name": "w", "author": "a", "pipelines": {"p": {"type": "name", "reference": "PC"}}, "dataloaders": {"d": {"type": "json", "reference": "d.json", "options": None}}, "experiments": {"e": {"pipeline": "p", "dataloader": "d", "variables": {"threshold": 0.1}}}}
    texts = {n: dump(S.model("ab", {("a", "b"): [0, t]}), k) for k, (n, t) in enumerate((("r.json", "D"), ("sub/e_7.json", "U")))}
    for space, arg, env, busy in itertools.product((False, True), (None, "r.json", "sub/e_7.json", "missing.json", "text.json"), ENVS, (0, 1, 3)):
        with scratch() as d, ws.inside(d):
            os.mkdir("sub")
            for n, text in list(texts.items()) + [("text.json", "no json")]:
                with open(n, "w") as f:
                    f.write(text)
            if space:
                with open("workspace.yml", "w") as f:
                    yaml.safe_dump(conf, f)
            before = ws.files()
            key = "%s %s %r %d" % (space, arg, env, busy)
            good = arg in texts or (arg is None and space)
            for attempt in range(20):
                server._set_model(None)
                server._set_workspace(None)
                ran = []
                saved = {k: os.environ.pop(k, None) for k in ("HOST", "PORT", "CORS_ENABLED")}
                os.environ.update(env)
                try:
                    with occupied(busy), not_really(ran):
                        port = first_free()
                        code, out, exc = ws.cli(["ui"] + (["--result-file", arg] if arg else []))
                        quiet = port == first_free()
                finally:
                    for k, v in saved.items():
                        os.environ.pop(k, None)
                        if v is not None:
                            os.environ[k] = v
                if quiet:
                    break
            sh.add(states=1, transitions=1, traces_validated_against_impl=1)
            if not sh.check((code == 0 and len(ran) == 1) == good, "`causy ui` starts exactly with something to serve", key="start " + key, code=code, runs=len(ran), exc=repr(exc)):
                continue
            if not good:
                sh.check(not ran, "nothing to serve: no server", key="none " + key)
                continue
            got = [ran[0].host, ran[0].port]
            want = [env.get("HOST", "localhost"), int(env.get("PORT", port))]
            sh.check(not quiet or got == want, "the server uses the configured or else the first free port", key="port " + key, got=got, want=want)
            c = TestClient(ran[0].app, raise_server_exceptions=False)
            code, status = get(c, "/status")
            want = {"model_loaded": arg is not None, "workspace_loaded": arg is None}
            sh.check(code == 200 and {k: status.get(k) for k in want} == want, "`causy ui` serves the given result file, or else the workspace", key="which " + key, code=code, got=status, want=want)
            code, got = get(c, "/model")
            if arg:
                sh.check(code == 200 and strict(strip(got)[1], json.loads(texts[arg])), "`causy ui` serves the given result file", key="model " + key, code=code)
            else:
                sh.check(code == 404, "`causy ui` serves no model it was not given", key="model " + key, code=code)
            code, got = get(c, "/workspace")
            if arg is None:
                sh.check(code == 200 and strict(got, conf), "`causy ui` serves the workspace of the folder", key="ws " + key, code=code, difference=None if strict(got, conf) else first_difference(got, conf))
            r = c.get("/api/v1/status", headers={"Origin": "http://elsewhere.example"})
            want = env.get("CORS_ENABLED", "").lower() == "true"
            sh.check(any(h.lower() == "access-control-allow-origin" for h in r.headers) == want, "other sites may read exactly if CORS is enabled", key="cors " + key, want=want)
            sh.check(ws.files() == before, "serving changes nothing", key="unchanged " + key)
    server._set_model(None)
    server._set_workspace(None)


def many(sh, item):
    """many experiments and versions, large results"""
    n = item["n"]
    with scratch() as d, ws.inside(d):
        c = client()
        conf = {"name": "w", "author": None, "pipelines": {"p%d" % i: {"type": "name", "reference": "PC"} for i in range(n)}, "dataloaders": {"d%d" % i: {"type": "json", "reference": "d%d.json" % i, "options": None} for i in range(n)}, "experiments": {}}
        conf["dataloaders"] = {k: {x: y for x, y in v.items() if x != "options"} for k, v in conf["dataloaders"].items()}
        conf["experiments"] = {"e%d" % i: {"pipeline": "p%d" % i, "dataloader": "d%d" % (n - 1 - i), "variables": {"threshold": (i + 1) / 1000}} for i in range(n)}
        with open("workspace.yml", "w") as f:
            yaml.safe_dump(conf, f)
        versions = {"e%d" % i: [1600000000 + 1000 * k + i for k in range(n if i % 3 == 0 else i % 3 - 1)] for i in range(n)}
        text = {}
        for e, vs in versions.items():
            for v in vs:
                text[e, v] = dump(S.model("ab", {("a", "b"): [0, "D"]}), v, {"threshold": 0.05, "version": v})
                with open("%s_%d.json" % (e, v), "w") as f:
                    f.write(text[e, v])
        before = ws.files()
        server._set_workspace(ws.current())
        code, got = get(c, "/workspace")
        have = {k: sorted(got.get(k) or []) for k in ("pipelines", "dataloaders", "experiments")} if isinstance(got, dict) else None
        sh.check(have == {k: sorted(conf[k]) for k in ("pipelines", "dataloaders", "experiments")}, "the served workspace is the configured one", key="many workspace %d" % n, code=code, got=have)
        code, got = get(c, "/experiments")
        if sh.check(code == 200 and isinstance(got, list), "the experiments are listed", key="many experiments code", code=code):
            have = {x["name"]: [v["version"] for v in x["versions"]] for x in got}
            want = {e: sorted(vs, reverse=True) for e, vs in versions.items()}
            sh.check(len(got) == n and have == want and all(x["variables"] == conf["experiments"][x["name"]]["variables"] for x in got), "the listed experiments and versions are the stored ones, the newest first", key="many experiments %d" % n, got={k: v for k, v in have.items() if want.get(k) != v})
        for (e, v), t in text.items():
            for path in [str(v)] + (["latest"] if v == max(versions[e]) else []):
                code, got = get(c, "/experiments/%s/%s" % (e, path))
                sh.add(transitions=1, traces_validated_against_impl=1)
                if sh.check(code == 200 and isinstance(got, dict), "a stored result is served", key="many served %d" % n, code=code, experiment=e, version=path):
                    have, got = strip(got)
                    sh.check(have == v and strict(got, json.loads(t)), "the served result is the stored one", key="many content %d" % n, version=path, got=have)
        sh.check(ws.files() == before, "serving changes nothing", key="many unchanged %d" % n)
        # a large graph with a long history
        ws.restore({})
        one_experiment()
        ids = ["n%d" % i for i in range(n)]
        pairs = list(itertools.combinations(ids, 2))
        S.Script.items, S.Script.observe = {}, None
        m = S.model(ids, {p: [k + 1, "UDB"[k % 3]] for k, p in enumerate(pairs)}, steps=[S.ScriptStep(script="s%d" % i) for i in range(n)])
        for i in range(n):
            S.Script.items["s%d" % i] = [S.action(m.graph.nodes, ["UD", u, v, 1000 * i + k]) for k, (u, v) in enumerate(pairs)] if i % 4 == 0 else [S.action(m.graph.nodes, ["RD", *pairs[i]])]
        m.execute_pipeline_steps()
        served(sh, c, dump(m, 0), "large %d" % n)
    server._set_model(None)
    server._set_workspace(None)


def run(ctx):
    ctx.explore(many, [{"n": n} for n in ctx.pick((5, 12, 25), (5, 12, 25, 60))], name="many", limit=900)
    ctx.explore(started, [{}], name="started")
    ctx.explore(states, [{}], name="loaded or not")
    ctx.explore(configurations, [{"first": k} for k in (0, 1, 2, 3)], name="configurations")
    ctx.explore(metadata, [{}], name="metadata")
    dags = [G.to_item(d) for d in sorted((m for _, m in G.cpdag_classes(4)), key=sorted)]
    ctx.explore(discovered, [{"alg": a, "dags": dags[i::16]} for a in (sorted(D.ALGS) if ctx.thorough else ["PC"]) for i in range(16)], name="discovered", limit=300)
    parts = [{"ids": "ab", "len": n, "first": f} for n in ctx.pick((1, 2), (1, 2, 3)) for f in range(len(alphabet("ab")))]
    parts += [{"ids": "abc", "len": ctx.pick(1, 2), "first": f} for f in range(len(alphabet("abc")))]
    ctx.explore(scripted, parts, name="scripted", limit=900)
