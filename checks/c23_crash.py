"""C23: an interrupted workspace command leaves a usable workspace, and repeating it completes it."""
import errno
import json
import os

from fastapi.testclient import TestClient

from lib import faults, ws
from lib.harness import HarnessError, scratch

from causy.causal_discovery.constraint.algorithms import PC
from causy.serialization import deserialize_result, load_algorithm_by_reference
from causy.ui import server
from causy.workspaces.models import Workspace
from pydantic_yaml import to_yaml_str

PROPERTY = "C23"
LEVEL = "fault_enumeration"
RULE = "every call that changes a file in the workspace folder (open for writing, write, fsync, rename, unlink, ...) made by each command: killed before it, killed after it, write cut at several lengths, failing with ENOSPC/EIO, short write, interrupted by SIGINT"
ASSUMPTIONS = [
    "the process is killed or an operation fails; what was written before stays written (no loss of the page cache)",
    "one command at a time",
]
BOUNDS = {
    "quick": "22 commands; every fault at every file-changing call, writes cut at 4 lengths; then the command again without fault",
    "thorough": "writes cut at up to 64 lengths; a second fault of every kind at every call of the repeated command, for every first kill",
}
MODES = {"kill": faults.KILL, "after": faults.AFTER, "error": faults.ERROR, "torn": faults.TORN, "short": faults.SHORT, "interrupt": faults.INTERRUPT}

DATA = {"x": [1.0, 2.0, 4.0, 3.0, 5.5, 0.5, 2.5], "y": [2.0, 1.5, 5.0, 3.0, 6.5, 0.0, 2.0], "z": [1.0, -1.0, 0.5, 2.0, -2.0, 1.5, 0.0]}


def base(results=False):
    with open("d.json", "w") as f:
        json.dump(DATA, f)
    with open("ej.yml", "w") as f:
        f.write(to_yaml_str(PC()._original_algorithm))
    ws.put(
        Workspace(
            name="w",
            author="a",
            pipelines={"p": {"type": "name", "reference": "PC"}, "ej": {"type": "file", "reference": "ej.yml"}, "spare": {"type": "name", "reference": "PC"}},
            dataloaders={"d": {"type": "json", "reference": "d.json"}, "spare": {"type": "jsonl", "reference": "x"}},
            experiments={e: {"pipeline": p, "dataloader": "d", "variables": {"threshold": 0.05}} for e, p in (("e", "p"), ("e_1", "ej"))},
        )
    )
    if results:
        for n in (0, 1):
            for p in ("0.2", "0.05"):
                ws.cli(["workspace", "experiment", "update-variable", "e", "threshold", p])
            ws.cli(["workspace", "execute", "--force-reexecution"])
            for f in os.listdir("."):
                for e in ("e_1", "e"):
                    if f.startswith(e + "_") and f.endswith(".json") and f[len(e) + 1 : -5].isdigit() and len(f[len(e) + 1 : -5]) > 5:
                        os.rename(f, "%s_%d.json" % (e, 1000 + n))
                        break


def q(picks=(), texts=None, path=None):
    return lambda: ws.Questions(picks=list(picks), texts=dict(texts or {}), path=path)


# name -> (workspace before, arguments, questions, stdin without / with an existing workspace, files the command owns)
INIT = ["workspace", "init"]
COMMANDS = {
    "init": (None, INIT, q(), "n\na\nn\nn\n"),
    "init all": (None, INIT, q(["EJECT", "PC", "dynamic", "pp", "dd"], {"experiment": "ee", "data loader": "dd", "pipeline": "pp"}), "n\na\ny\ny\nn\n"),
    "init skeleton": (None, INIT, q(["SKELETON", "json", "pp", "dd"], {"experiment": "ee", "data loader": "dd", "pipeline": "pp"}, "d.json"), "n\na\ny\ny\ny\n"),
    "init again": ("results", INIT, q(), "n\na\nn\nn\n"),
    "pipeline add": ("results", ["workspace", "pipeline", "add"], q(["PRECONFIGURED", "PC"], {"pipeline": "pp"}), None),
    "pipeline eject": ("results", ["workspace", "pipeline", "add"], q(["EJECT", "ParallelPC"], {"pipeline": "pp"}), None),
    "pipeline eject again": ("results", ["workspace", "pipeline", "add"], q(["EJECT", "ParallelPC"], {"pipeline": "ej"}), None),
    "pipeline skeleton": ("results", ["workspace", "pipeline", "add"], q(["SKELETON"], {"pipeline": "pp"}), None),
    "pipeline rm": ("results", ["workspace", "pipeline", "rm", "spare"], q(), None),
    "loader add": ("results", ["workspace", "dataloader", "add"], q(["json"], {"data loader": "dd"}, "f.json"), None),
    "loader dynamic": ("results", ["workspace", "dataloader", "add"], q(["dynamic"], {"data loader": "dd"}), None),
    "loader rm": ("results", ["workspace", "dataloader", "rm", "spare"], q(), None),
    "experiment add": ("results", ["workspace", "experiment", "add"], q(["ej", "d"], {"experiment": "ee"}), None),
    "experiment rm": ("results", ["workspace", "experiment", "rm", "e"], q(), None),
    "experiment rm other": ("results", ["workspace", "experiment", "rm", "e_1"], q(), None),
    "experiment clear": ("results", ["workspace", "experiment", "clear", "e"], q(), None),
    "update-variable": ("results", ["workspace", "experiment", "update-variable", "e", "threshold", "0.3"], q(), None),
    "execute first": ("plain", ["workspace", "execute"], q(), None),
    "execute one": ("plain", ["workspace", "execute", "--experiment-name", "e_1"], q(), None),
    "execute one again": ("results", ["workspace", "execute", "--experiment-name", "e"], q(), None),
    "execute forced": ("results", ["workspace", "execute", "--force-reexecution"], q(), None),
    "info": ("results", ["workspace", "info"], q(), None),
}


def perform(name):
    _, args, questions, stdin = COMMANDS[name]
    if stdin is not None and os.path.exists("workspace.yml"):
        stdin = "y\n" + stdin
    code, out, exc = ws.cli(args, questions(), stdin)
    return code, out[-300:], None if exc is None else repr(exc)[:300]


def split(files):
    """-> workspace file, results {(experiment, version): bytes}, other files"""
    rest = dict(files)
    w = rest.pop("workspace.yml", None)
    res = {}
    for f in list(rest):
        for e in ("e_1", "e", "ee"):
            v = f[len(e) + 1 : -5]
            if f.startswith(e + "_") and f.endswith(".json") and v.isdigit():
                res[e, int(v)] = rest.pop(f)
                break
    return w, res, rest


def describe(text):
    r = deserialize_result(json.loads(text))
    return (
        r.variables,
        sorted((x.u.name, x.v.name, str(x.edge_type)) for x in r.edges),
        sorted(n.name for n in r.nodes.values()),
        len(r.action_history),
        r.algorithm_hash,
        r.data_loader_hash,
        r.variables_hash,
    )


def state():
    try:
        return ws.load_workspace()
    except Exception as e:  # noqa: BLE001
        return "unreadable: %r" % (e,)


class Case:
    def __init__(self, name):
        self.name = name
        kind = COMMANDS[name][0]
        if kind == "plain":
            base()
        elif kind == "results":
            base(True)
        else:
            with open("d.json", "w") as f:
                json.dump(DATA, f)
        self.before = ws.files()
        self.before_state = state() if "workspace.yml" in self.before else None
        self.directory = os.getcwd()
        st, out, self.log = self.faulty()
        if st != 0 or out[0] == "raised" or out[2] is not None or out[0] != 0:
            self.broken = (st, out)
            return
        self.broken = None
        self.after = ws.files()
        self.after_state = state()
        _, b, self.rest_before = split(self.before)
        _, a, self.rest_after = split(self.after)
        new = set(a) - set(b)
        self.new = {e: describe(a[e, v]) for e, v in new}
        self.removed = set(b) - set(a)

    def faulty(self, k=-1, mode=faults.COUNT, keep=0, err=errno.ENOSPC):
        return faults.run(lambda: perform(self.name), self.directory, k, mode, keep, err)

    def check(self, sh, what, key, clean):
        """the folder after a fault; clean: the command itself could tidy up"""
        files = ws.files()
        w, res, rest = split(files)
        _, b, _ = split(self.before)
        sh.add(states=1)
        now = state() if w is not None else None
        d = dict(fault=what, command=self.name)
        sh.check(now == self.before_state or now == self.after_state, "the workspace is the one before or after the command", key="workspace " + key, got=now, **d)
        done = now == self.after_state and self.after_state != self.before_state
        for (e, v), text in res.items():
            if (e, v) in b:
                sh.check(text == b[e, v], "earlier results are unchanged", key="changed " + key, result=(e, v), **d)
                continue
            try:
                got = describe(text)
            except Exception as x:  # noqa: BLE001
                got = repr(x)[:200]
            sh.check(got == self.new.get(e), "a stored result is complete", key="partial " + key, result=(e, v), got=got, **d)
        lost = set(b) - set(res)
        sh.check(lost <= self.removed, "results are only lost where the command removes them", key="lost " + key, lost=sorted(lost), **d)
        if done:
            sh.check(lost == self.removed, "an experiment is only gone when its results are", key="orphans " + key, left=sorted(self.removed - lost), **d)
        for f in set(rest) | set(self.rest_before) | set(self.rest_after):
            old, new, got = self.rest_before.get(f), self.rest_after.get(f), rest.get(f)
            if f not in self.rest_before and f not in self.rest_after:
                sh.check(not clean, "a command that failed leaves no temporary files", key="temporary " + key, file=f, **d)
                continue
            sh.check(got in (old, new), "files are as before or after the command", key="file " + key, file=f, size=None if got is None else len(got), **d)
            if done:
                sh.check(got == new, "the workspace refers to complete files only", key="incomplete " + key, file=f, **d)
        if isinstance(now, dict):
            self.readers(sh, now, res, key, d)

    def readers(self, sh, now, res, key, d):
        w = ws.current()
        server._set_workspace(w)
        c = TestClient(server._create_ui_app(with_static=False), raise_server_exceptions=False)
        r = c.get("/api/v1/experiments")
        got = {x["name"]: sorted(v["version"] for v in x["versions"]) for x in r.json()} if r.status_code == 200 else r.status_code
        want = {e: sorted(v for x, v in res if x == e) for e in now["experiments"]}
        sh.check(got == want, "the versions in the UI", key="ui " + key, got=got, want=want, **d)
        for e, vs in want.items():
            r = c.get("/api/v1/experiments/%s/latest" % e)
            ok = r.status_code == 200 and r.json()["version"] == vs[-1] if vs else 400 <= r.status_code < 500
            sh.check(ok, "the latest result in the UI", key="ui latest " + key, experiment=e, got=r.status_code, **d)
        server._set_workspace(None)
        for p, (t, ref) in now["pipelines"].items():
            if t == "file":
                try:
                    load_algorithm_by_reference(t, ref)
                except Exception as x:  # noqa: BLE001
                    sh.check(False, "the pipelines of the workspace can be loaded", key="pipeline " + key, pipeline=p, error=repr(x)[:200], **d)

    def recover(self, sh, what, key):
        """the same command again, undisturbed"""
        w0, r0, _ = split(ws.files())
        st, out, _ = self.faulty()
        sh.add(transitions=1, traces_validated_against_impl=1)
        d = dict(fault=what, command=self.name)
        already = (
            self.name == "experiment rm" and "e" not in (state() or {}).get("experiments", {}) or self.name == "experiment rm other" and "e_1" not in (state() or {}).get("experiments", {})
        )
        ok = st == 0 and out[0] != "raised" and out[2] is None and (out[0] == 0 or already)
        if not sh.check(ok, "the command can be repeated", key="repeat " + key, got=(st, out), **d):
            return
        sh.check(state() == self.after_state, "the repeated command has its effect", key="repeat state " + key, got=state(), want=self.after_state, **d)
        _, res, rest = split(ws.files())
        for e, want in self.new.items():
            last = max((v for x, v in res if x == e), default=None)
            try:
                got = describe(res[e, last])
            except Exception as x:  # noqa: BLE001
                got = repr(x)[:200]
            sh.check(got == want, "the repeated command stores the result", key="repeat result " + key, got=got, **d)
        sh.check(not (set(res) & self.removed), "the repeated command removes the results", key="repeat removed " + key, **d)
        for f, b in self.rest_after.items():
            sh.check(rest.get(f) == b, "the repeated command writes its files", key="repeat files " + key, file=f, **d)


def plans(log, lengths):
    for k, (kind, size) in enumerate(log):
        yield k, "kill", 0, 0
        yield k, "after", 0, 0
        yield k, "interrupt", 0, 0
        yield k, "error", 0, errno.ENOSPC if kind in ("open", "write", "mkdir") else errno.EIO
        if kind == "write" and size > 1:
            cut = sorted({1, size // 2, size - 1} | {max(1, (size * i) // lengths) for i in range(lengths)} - {size})
            for n in cut:
                yield k, "torn", n, 0
            yield k, "short", size // 2, 0


def once(sh, c, plan, start, again=None):
    k, mode, keep, err = plan
    ws.restore(start)
    st, out, _ = c.faulty(k, MODES[mode], keep, err)
    sh.add(transitions=1, traces_validated_against_impl=1)
    label = "%s@%d" % (mode, k) + ("" if again is None else " after " + again)
    key = "%s %s" % (c.name, label)
    clean = mode in ("error", "short", "interrupt")
    if mode in ("kill", "after", "torn"):
        if st != faults.KILLED:
            raise HarnessError("not killed: %r" % ((key, st, out),))
    elif mode == "error":
        failed = st == 0 and (out[0] == "raised" or out[0] != 0 or out[2] is not None)
        sh.check(failed, "a command that could not write reports it", key="silent " + key, got=(st, out), command=c.name, fault=label)
    elif mode == "short":
        ok = st == 0 and out[0] == 0 and out[2] is None
        sh.check(ok and state() == c.after_state, "a short write is completed", key="short " + key, got=(st, out), command=c.name, fault=label)
    c.check(sh, label, key, clean)
    return label, key


def command(sh, item):
    with scratch() as d, ws.inside(d):
        os.chdir(os.path.realpath(d))
        c = Case(item["name"])
        if not sh.check(c.broken is None, "the command succeeds without a fault", key="plain " + c.name, got=c.broken):
            return
        if COMMANDS[c.name][0] and c.name != "info" and not c.log:
            raise HarnessError("no file-changing call was seen in %s" % c.name)
        faultsites = list(plans(c.log, item["lengths"]))
        if "part" in item:
            faultsites = faultsites[item["part"] :: item["parts"]]
        for plan in faultsites:
            label, key = once(sh, c, plan, c.before)
            mid = ws.files()
            c.recover(sh, label, key)
            if item["double"] and plan[1] in ("kill", "torn", "error"):
                ws.restore(mid)
                _, _, log = c.faulty()
                for second in plans(log, 2):
                    if second[1] in ("kill", "torn", "error"):
                        _, key2 = once(sh, c, second, mid, label)
                        c.recover(sh, label + " twice", key2)
        sh.sample({"command": c.name, "calls": [k for k, _ in c.log]})


def run(ctx):
    parts = ctx.pick(3, 6)
    items = [{"name": n, "lengths": ctx.pick(4, 64), "double": ctx.thorough, "part": p, "parts": parts} for n in COMMANDS for p in range(parts)]
    ctx.explore(command, items, name="commands", limit=ctx.pick(600, 6000))
