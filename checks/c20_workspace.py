"""C20: the workspace file always holds exactly what the commands so far configured."""
import itertools
import json
import os

from lib import ws
from lib.harness import scratch

PROPERTY = "C20"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "one command at a time; names are such that their slug is the name itself, or given with the slug",
    "names contain a letter or digit and are no names of importable modules",
    "questions are answered by content (stand-in for the questionary prompts)",
]
BOUNDS = {
    "quick": "breadth-first over command sequences: 38 commands, depth 3 from an empty and from a configured workspace (states merged on equal files); all dialogs of init; 9 names that YAML could misread in every role; 90 hand-written workspace files (options, variables, author) x 17 commands (pairs of commands for 5 of them); pipelines (3 kinds) and data loaders (2 kinds) with every name of up to 2 of 18 characters after a prefix are executed; variables of all 4 types with and without choices: every pair of updates over 64 texts (one accepted and one refused text as second); 7 and 30 pipelines, data loaders and experiments added, changed and removed",
    "thorough": "depth 4; pairs of commands on every hand-written file",
}

DEFAULTS = {"PC": {"threshold": 0.05}, "ParallelPC": {"threshold": 0.05, "every_nth_sample": 200}}
TYPES = {"threshold": float, "every_nth_sample": int}


def declared(model, pipeline):
    """variables of a configured pipeline with their defaults"""
    t, r = model["pipelines"][pipeline]
    if t == "name":
        return DEFAULTS[r]
    if t == "file":
        return DEFAULTS["PC"]
    return {}


def copy(m):
    return json.loads(json.dumps(m))


def norm(m):
    out = copy(m)
    out["pipelines"] = {k: tuple(v) for k, v in out["pipelines"].items()}
    out["dataloaders"] = {k: tuple(v) for k, v in out["dataloaders"].items()}
    out["experiments"] = {k: (v[0], v[1], v[2]) for k, v in out["experiments"].items()}
    return out


def convert(model, exp, var, text):
    """-> (ok, value): what update-variable has to store"""
    p = model["experiments"][exp][0]
    if var not in declared(model, p):
        return False, None
    try:
        return True, TYPES[var](text)
    except ValueError:
        return False, None


def apply(model, op):
    """reference semantics: the model after op (the same one if the command has to be refused)"""
    m = copy(model)
    k, a = op[0], op[1:]
    if k == "add-pipeline":
        kind, what, name, slug = a
        if kind == "PRECONFIGURED":
            m["pipelines"][slug] = ["name", what]
        elif kind == "EJECT":
            m["pipelines"][name] = ["file", slug + ".yml"]
        else:
            m["pipelines"][slug] = ["python_module", slug + ".PIPELINE"]
    elif k == "rm-pipeline":
        if a[0] in m["pipelines"] and all(e[0] != a[0] for e in m["experiments"].values()):
            del m["pipelines"][a[0]]
    elif k == "add-loader":
        kind, name, slug, path = a
        m["dataloaders"][slug] = [kind, path if kind != "dynamic" else slug + ".DataLoader", None]
    elif k == "rm-loader":
        if a[0] in m["dataloaders"] and all(e[1] != a[0] for e in m["experiments"].values()):
            del m["dataloaders"][a[0]]
    elif k == "add-experiment":
        name, slug, p, d = a
        m["experiments"][slug] = [p, d, dict(declared(m, p))]
    elif k == "rm-experiment":
        m["experiments"].pop(a[0], None)
    elif k == "update":
        e, v, t = a
        if e in m["experiments"]:
            ok, val = convert(m, e, v, t)
            if ok:
                m["experiments"][e][2][v] = val
    return m


def enabled(model, op):
    if op[0] == "add-experiment":
        return op[3] in model["pipelines"] and op[4] in model["dataloaders"]
    return True


def perform(op):
    k, a = op[0], op[1:]
    q = None
    stdin = None
    if k == "add-pipeline":
        kind, what, name, _ = a
        q = ws.Questions(picks=[kind, what], texts={"pipeline": name})
        args = ["pipeline", "add"]
    elif k == "rm-pipeline":
        args = ["pipeline", "rm", a[0]]
    elif k == "add-loader":
        kind, name, _, path = a
        q = ws.Questions(picks=[kind], texts={"data loader": name}, path=path)
        args = ["dataloader", "add"]
    elif k == "rm-loader":
        args = ["dataloader", "rm", a[0]]
    elif k == "add-experiment":
        name, _, p, d = a
        q = ws.Questions(picks=[p, d], texts={"experiment": name})
        args = ["experiment", "add"]
    elif k == "rm-experiment":
        args = ["experiment", "rm", a[0]]
    elif k == "clear":
        args = ["experiment", "clear", a[0]]
    elif k == "update":
        args = ["experiment", "update-variable", *a]
    elif k == "info":
        args = ["info"]
    elif k == "init-abort":
        args, stdin = ["init"], "n\n"
    return ws.cli(["workspace"] + args, q, stdin)


# files a command may create next to the workspace file
def side_files(op):
    if op[0] == "add-pipeline" and op[1] == "EJECT":
        return {op[4] + ".yml"}
    if op[0] == "add-pipeline" and op[1] == "SKELETON":
        return {op[4] + ".py"}
    if op[0] == "add-loader" and op[1] == "dynamic":
        return {op[3] + ".py"}
    return set()


def step(sh, files, model, op, key):
    """perform op in the current directory holding `files`; compare; -> new (files, model) or None"""
    ws.restore(files)
    want = apply(model, op)
    code, out, exc = perform(op)
    sh.add(traces_validated_against_impl=1)
    if not sh.check(exc is None, "the command does not fail with an exception", key="exception " + key, op=op, error=repr(exc)[:300], state=model):
        return None
    try:
        got = ws.load_workspace()
    except Exception as e:  # noqa: BLE001
        sh.violation("the workspace can be read after the command", key="unreadable " + key, op=op, error=repr(e)[:300], state=model)
        return None
    w = norm(want)
    same = got == w and repr_types(got) == repr_types(w)
    if not sh.check(same, "the workspace is what the commands configured", key="state " + key, op=op, before=model, got=got, want=w):
        return None
    after = ws.files()
    changed = {n for n in set(files) | set(after) if files.get(n) != after.get(n)} - {"workspace.yml"} - side_files(op)
    sh.check(not changed, "no other file changes", key="files " + key, op=op, changed=sorted(changed))
    for n in side_files(op):
        sh.check(n in after, "the file of the pipeline or data loader is created", key="created " + key, op=op)
    return after, want


def repr_types(m):
    return {k: {x: (v[0], v[1], {y: (type(z).__name__, z) for y, z in v[2].items()}) for x, v in m["experiments"].items()} for k in ("e",)}


EMPTY = {"name": "w", "author": "a", "pipelines": {}, "dataloaders": {}, "experiments": {}}


def create(name="w", author="a"):
    return ws.cli(["workspace", "init"], None, "%s\n%s\nn\nn\n" % (name, author))


def alphabet(model_names):
    ps, ds, es = model_names
    ops = []
    for p in ps:
        ops += [("add-pipeline", "PRECONFIGURED", "PC", p, p), ("rm-pipeline", p)]
    ops += [("add-pipeline", "PRECONFIGURED", "ParallelPC", ps[0], ps[0])]
    ops += [("add-pipeline", "EJECT", "PC", "ej", "ej"), ("add-pipeline", "SKELETON", None, "My Pipe", "my_pipe"), ("rm-pipeline", "ej"), ("rm-pipeline", "nope")]
    ops += [("add-loader", "json", ds[0], ds[0], "data.json"), ("add-loader", "jsonl", ds[0], ds[0], "x/y.jsonl"), ("rm-loader", ds[0]), ("rm-loader", "nope")]
    ops += [("add-loader", "dynamic", "My Loader", "my_loader", None), ("rm-loader", "my_loader")]
    for e in es:
        ops += [("add-experiment", e, e, p, d) for p in (ps[0], "ej") for d in (ds[0],)]
        ops += [("rm-experiment", e), ("update", e, "threshold", "0.01")]
    ops += [("add-experiment", es[0], es[0], "my_pipe", "my_loader")]
    e = es[0]
    ops += [("update", e, "threshold", "1"), ("update", e, "threshold", "abc"), ("update", e, "every_nth_sample", "5"), ("update", e, "every_nth_sample", "1.5"), ("update", e, "nope", "1"), ("update", "nope", "threshold", "1")]
    ops += [("clear", e), ("clear", "nope"), ("rm-experiment", "nope"), ("info",), ("init-abort",)]
    return ops


def histories(sh, item):
    """breadth-first search below one first command"""
    names, depth = item["names"], item["depth"]
    ops = alphabet(names)
    with scratch() as d, ws.inside(d):
        code, out, exc = create()
        if not sh.check(exc is None and os.path.exists("workspace.yml"), "init creates a workspace", key="init", error=repr(exc), out=out[-200:]):
            return
        state = (ws.files(), copy(EMPTY))
        sh.check(ws.load_workspace() == norm(EMPTY), "init creates an empty workspace", key="init state", got=ws.load_workspace())
        for op in item["prefix"]:
            state = step(sh, state[0], state[1], tuple(op), "prefix %r" % (op,))
            if state is None:
                return
        seen = {frozenset(state[0].items())}
        level = [(state, [])]
        first = item["first"]
        for n in range(depth):
            nxt = []
            for (files, model), trace in level:
                for i, op in enumerate(ops):
                    if n == 0 and i != first:
                        continue
                    if not enabled(model, op):
                        continue
                    r = step(sh, files, model, op, "%s after %d" % (op[0], n))
                    sh.add(transitions=1)
                    if r is None:
                        return
                    k = frozenset(r[0].items())
                    if k not in seen:
                        seen.add(k)
                        nxt.append((r, trace + [op]))
            level = nxt
        sh.add(states=len(seen))
        if level:
            sh.sample({"trace": level[-1][1]})


TRICKY = ["1e3", "0x1f", "yes", "null", "12", "1_000", "true", "0o7", "2020-01-01"]


def names(sh, item):
    """names that a YAML reader could take for something else, in every role"""
    from markdown.extensions.toc import slugify

    p, dl, e = item
    sp, sd, se = (slugify(x, "_") for x in item)
    with scratch() as d, ws.inside(d):
        create(name=p, author=dl)
        m = copy(EMPTY)
        m["name"], m["author"] = p, dl
        state = (ws.files(), m)
        sh.check(ws.load_workspace() == norm(m), "name and author", key="names init %r" % (item,), got=ws.load_workspace())
        for op in [
            ("add-pipeline", "PRECONFIGURED", "PC", p, sp),
            ("add-loader", "json", dl, sd, p),
            ("add-experiment", e, se, sp, sd),
            ("update", se, "threshold", "0.2"),
            ("rm-pipeline", sp),
            ("rm-loader", sd),
            ("rm-experiment", se),
            ("rm-loader", sd),
            ("rm-pipeline", sp),
        ]:
            state = step(sh, state[0], state[1], op, "names %r %s" % (item, op[0]))
            sh.add(transitions=1)
            if state is None:
                return
        sh.add(states=1)


def dialogs(sh, item):
    """every path through the questions of init"""
    pipe, loader, exp = item["pipe"], item["loader"], item["exp"]
    with scratch() as d, ws.inside(d):
        for existing in (False, True):
            lines = []
            if existing:
                lines.append("y")
            lines += ["n1", "a1", "y" if pipe else "n", "y" if loader else "n"]
            want = {"name": "n1", "author": "a1", "pipelines": {}, "dataloaders": {}, "experiments": {}}
            picks, texts = [], {}
            if pipe:
                picks += pipe
                texts["pipeline"] = "p"
                want = apply(want, ("add-pipeline", pipe[0], pipe[1] if len(pipe) > 1 else None, "p", "p"))
            if loader:
                picks.append(loader)
                texts["data loader"] = "d"
                want = apply(want, ("add-loader", loader, "d", "d", "f.json"))
            if pipe and loader:
                lines.append("y" if exp else "n")
                if exp:
                    picks += ["p", "d"]
                    texts["experiment"] = "e"
                    want = apply(want, ("add-experiment", "e", "e", "p", "d"))
            # `experiment` questions mention the pipeline and the data loader as well: look for it first
            texts = {k: texts[k] for k in ("experiment", "data loader", "pipeline") if k in texts}
            code, out, exc = ws.cli(["workspace", "init"], ws.Questions(picks, texts, "f.json"), "\n".join(lines) + "\n")
            sh.add(states=1, transitions=1, traces_validated_against_impl=1)
            if not sh.check(exc is None and code == 0, "init succeeds", key="dialog %r" % (item,), error=repr(exc), out=out[-300:]):
                return
            got = ws.load_workspace()
            sh.check(got == norm(want), "init stores the answers", key="dialog state %r" % (item,), got=got, want=norm(want))


# text given on the command line -> value to be stored (absent: refused)
TYPED = {
    "s": ("string", "x", {t: t for t in ["yes", "", "1e3", "null", "a: b # c", "l1\nl2", " x ", "\u00fc", "\t", "1_000", "'", "True", "-", "[1]", "{}", "2020-01-01", "~"]}, []),
    "i": ("integer", 3, {"0": 0, "-4": -4, "007": 7, "12345678901234567890123": 12345678901234567890123}, ["1.5", "x", "", "true"]),
    "f": ("float", 0.5, {"0": 0.0, "-1": -1.0, "1e-300": 1e-300, "0.1": 0.1, "1": 1.0, "inf": float("inf"), "-inf": float("-inf"), "12345678901234.5": 12345678901234.5}, ["x", "", "true"]),
    "b": ("bool", True, {"True": True, "False": False, "true": True, "false": False, "1": True, "0": False}, ["x", "", "2"]),
    "cs": ("string", "u", {"u": "u", "v": "v"}, ["w", ""]),
    "ci": ("integer", 1, {"1": 1, "2": 2}, ["3", "0"]),
    "cf": ("float", 1.0, {"1": 1.0, "2.5": 2.5}, ["3", "0"]),
    "cb": ("bool", False, {"False": False, "0": False}, ["True", "1"]),
}
CHOICES = {"cs": ["u", "v"], "ci": [1, 2], "cf": [1.0, 2.5], "cb": [False]}


def typed_workspace(fmt):
    from causy.causal_discovery.constraint.algorithms import PC

    import yaml

    spec = json.loads(json.dumps(PC().algorithm.model_dump()))
    spec["variables"] += [{"name": n, "value": v[1], "type": v[0], "choices": CHOICES.get(n)} for n, v in TYPED.items()]
    with open("pipe." + fmt, "w") as f:
        json.dump(spec, f) if fmt == "json" else yaml.safe_dump(spec, f)
    with open("workspace.yml", "w") as f:
        yaml.safe_dump({"name": "w", "author": "a", "pipelines": {"p": {"type": "file", "reference": "pipe." + fmt}}, "dataloaders": {"d": {"type": "json", "reference": "d.json"}}, "experiments": {}}, f)


def same(a, b):
    return sorted(a) == sorted(b) and all(type(a[k]) is type(b[k]) and a[k] == b[k] for k in a)


def typed(sh, item):
    """an experiment starts with the defaults of its pipeline and keeps every value it was given, with its type"""
    with scratch() as d, ws.inside(d):
        typed_workspace(item["format"])
        code, out, exc = ws.cli(["workspace", "experiment", "add"], ws.Questions(["p", "d"], {"experiment": "e"}))
        start = {"threshold": 0.05, **{n: v[1] for n, v in TYPED.items()}}
        sh.add(states=1, transitions=1, traces_validated_against_impl=1)
        got = ws.load_workspace()["experiments"]["e"][2]
        if not sh.check(exc is None and same(got, start), "an experiment starts with the defaults", key="typed defaults", got=got, want=start, error=repr(exc)):
            return
        base = ws.files()
        n1 = item["first"]
        for t1, ok1 in [(t, True) for t in TYPED[n1][2]] + [(t, False) for t in TYPED[n1][3]]:
            ws.restore(base)
            want1 = dict(start, **({n1: TYPED[n1][2][t1]} if ok1 else {}))
            if not typed_step(sh, n1, t1, want1, [n1, t1]):
                return
            mid = ws.files()
            for n2, (_, _, good, bad) in TYPED.items():
                for t2 in (list(good) + bad if not ok1 or item["all"] else list(good)[-1:] + bad[:1]):
                    ws.restore(mid)
                    want2 = dict(want1, **({n2: good[t2]} if t2 in good else {}))
                    if not typed_step(sh, n2, t2, want2, [n1, t1, n2, t2]):
                        return
        sh.sample({"first": n1, "format": item["format"]})


def typed_step(sh, name, text, want, key):
    code, out, exc = ws.cli(["workspace", "experiment", "update-variable", "e", name, "--", text])
    sh.add(states=1, transitions=1, traces_validated_against_impl=1)
    try:
        got = ws.load_workspace()["experiments"]["e"][2]
    except Exception as e:  # noqa: BLE001
        sh.violation("the workspace can be read after the command", key="typed unreadable %r" % (key,), error=repr(e)[:300])
        return False
    return sh.check(exc is None and same(got, want), "every variable keeps the value it was given", key="typed %r" % (key,), got=got, want=want, error=repr(exc))


OPTIONS = [
    None,
    {},
    {"n": 1, "f": 0.5, "t": True, "s": "1e3", "u": "\u00fc", "none": None},
    {"yes": "no", "12": "12", "deep": {"list": [1, "1", [True, "true"], {}], "text": "l1\nl2 # x", "empty": ""}},
    {"date": "2020-01-01", "null": "null", "big": 12345678901234567890123, "exp": 1e-300, "inf": float("inf")},
]
VARIABLES = [None, "null", {}, {"threshold": 0.01}, {"threshold": 0.01, "note": "1e3", "k": 3, "on": True}, {"gone": "x: y", "other": False}]


def handmade_workspaces():
    import copy as c

    for o in OPTIONS:
        for v in VARIABLES:
            for author in ("a", None, "1e3"):
                exp = {"pipeline": "p", "dataloader": "d"}
                if v is not None:
                    exp["variables"] = None if v == "null" else v
                dl = {"type": "json", "reference": "d.json"}
                if o is not None:
                    dl["options"] = o
                yield c.deepcopy({
                    "name": "w: #1",
                    "author": author,
                    "pipelines": {"p": {"type": "name", "reference": "PC"}, "q": {"type": "file", "reference": "q.yml"}, "r": {"type": "python_module", "reference": "m.P"}},
                    "dataloaders": {"d": dl, "l": {"type": "jsonl", "reference": "l l.jsonl", "options": {"x": [1]}}, "y": {"type": "dynamic", "reference": "m.D", "options": o}},
                    "experiments": {"e": exp, "x y": dict(exp, variables={"threshold": 0.2})},
                })


def exact(x):
    """with types, and options, variables in any order"""
    if isinstance(x, dict):
        return ("dict", tuple(sorted((repr(k), exact(v)) for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return ("list", tuple(exact(v) for v in x))
    return (type(x).__name__, repr(x))


def dump():
    return json.loads(json.dumps(ws.current().model_dump(mode="python"), default=lambda v: getattr(v, "value", str(v))))


HANDMADE_OPS = [
    (("add-pipeline", "PRECONFIGURED", "PC", "p2", "p2"), ("pipelines", "p2")),
    (("add-pipeline", "EJECT", "PC", "ej", "ej"), ("pipelines", "ej")),
    (("rm-pipeline", "q"), ("pipelines", "q")),
    (("rm-pipeline", "p"), None),
    (("add-loader", "json", "d2", "d2", "f.json"), ("dataloaders", "d2")),
    (("rm-loader", "l"), ("dataloaders", "l")),
    (("rm-loader", "d"), None),
    (("add-experiment", "e2", "e2", "p", "d"), ("experiments", "e2")),
    (("rm-experiment", "e"), ("experiments", "e")),
    (("rm-experiment", "x y"), ("experiments", "x y")),
    (("rm-experiment", "nope"), None),
    (("update", "e", "threshold", "0.3"), ("experiments", "e", "variables", "threshold")),
    (("update", "x y", "threshold", "0.3"), ("experiments", "x y", "variables", "threshold")),
    (("update", "e", "nope", "0.3"), None),
    (("clear", "e"), None),
    (("clear", "x y"), None),
    (("info",), None),
]
REMOVES = {"rm-pipeline", "rm-loader", "rm-experiment"}


def handmade(sh, item):
    """a command changes only what it names in a workspace file that was written by hand"""
    with scratch() as d, ws.inside(d):
        written = list(handmade_workspaces())[item["workspace"]]
        with open("workspace.yml", "w") as f:
            # JSON is YAML in which every string is quoted
            f.write(json.dumps(written, ensure_ascii=False, indent=1).replace("Infinity", ".inf"))
        base = ws.files()
        before = dump()
        want = json.loads(json.dumps(written))
        for e in want["experiments"].values():
            e.setdefault("variables", {})
        for x in want["dataloaders"].values():
            x.setdefault("options", None)
        if not sh.check(exact(before) == exact(want), "the workspace file is read as written", key="handmade read", got=before, want=want):
            return
        for first in HANDMADE_OPS:
            for second in (HANDMADE_OPS if item["pairs"] else [None]):
                ws.restore(base)
                state = before
                for op, touched in (first,) if second is None else (first, second):
                    if op[0] == "add-experiment" and op[3] not in state["pipelines"]:
                        continue
                    code, out, exc = perform(op)
                    sh.add(transitions=1, traces_validated_against_impl=1)
                    if not sh.check(exc is None, "the command does not fail with an exception", key="handmade %s exception" % op[0], workspace=item, first=first, second=second, error=repr(exc)[:300]):
                        return
                    got = dump()
                    a, b = json.loads(json.dumps(state)), json.loads(json.dumps(got))
                    path = touched
                    if touched and touched[0] == "experiments" and len(touched) > 2 and touched[1] not in state["experiments"]:
                        path = None
                    if path:
                        x, y = a, b
                        for k in path[:-1]:
                            if x.get(k) is None:
                                x[k] = {}
                            x, y = x[k], y[k]
                        value = y.pop(path[-1], "absent")
                        x.pop(path[-1], None)
                        sh.check((value == "absent") == (op[0] in REMOVES), "the command does what it names", key="handmade %s effect" % op[0], workspace=item, first=first, second=second, got=value)
                    if not sh.check(exact(a) == exact(b), "a command changes only what it names", key="handmade %s" % op[0], workspace=item, first=first, second=second, got=b, want=a):
                        return
                    state = got
                sh.add(states=1)
        sh.sample({"workspace": item})


CONFIGURED = [
    ("add-pipeline", "PRECONFIGURED", "PC", "p", "p"),
    ("add-loader", "json", "d", "d", "data.json"),
    ("add-experiment", "e", "e", "p", "d"),
]


LETTERS = ["a", "B", '"', "'", "\\", "{", "}", "%", "#", "$", "<", "&", " ", "\t", "\u00fc", "\U0001f600", "-", "."]


def usable(sh, item):
    """whatever the name, an experiment with a pipeline and a data loader made by the commands can be executed"""
    from causy.serialization import load_algorithm_by_reference

    for tail in item["tails"]:
        name = "zz" + item["head"] + tail
        for kind, loader in itertools.product(("SKELETON", "EJECT", "PRECONFIGURED"), ("dynamic", "json")):
            if kind != "SKELETON" and loader == "dynamic":
                continue
            with scratch() as d, ws.inside(d):
                key = "usable %r %s %s" % (name, kind, loader)
                with open("d.json", "w") as f:
                    json.dump({"x": [1.0, 2.0, 4.0, 3.0, 5.5, 0.5], "y": [2.0, 1.5, 5.0, 3.0, 6.5, 0.0]}, f)
                create()
                done = [perform(("add-pipeline", kind, None if kind == "SKELETON" else "PC", name, None)), perform(("add-loader", loader, name + "L", None, "d.json"))]
                w = ws.load_workspace()
                sh.add(states=1, transitions=4, traces_validated_against_impl=1)
                if not sh.check(not any(e for _, _, e in done) and len(w["pipelines"]) == 1 and len(w["dataloaders"]) == 1, "a pipeline and a data loader are created, whatever their name", key="created " + key, error=repr([e for _, _, e in done]), got=w):
                    continue
                p, l = list(w["pipelines"])[0], list(w["dataloaders"])[0]
                code, out, exc = perform(("add-experiment", name, None, p, l))
                w = ws.load_workspace()
                if not sh.check(exc is None and len(w["experiments"]) == 1, "an experiment can use them", key="experiment " + key, error=repr(exc)[:300], name=name):
                    continue
                e = list(w["experiments"])[0]
                code, out, exc = ws.cli(["workspace", "execute"])
                stored = [n for n in os.listdir(".") if n.startswith(e + "_") and n.endswith(".json")]
                if not sh.check(exc is None and len(stored) == 1, "a pipeline and a data loader made by the commands can be executed", key="executed " + key, error=repr(exc)[:300], name=name, out=out[-200:]):
                    continue
                with open(stored[0]) as f:
                    got = sorted(n["name"] for n in json.load(f)["nodes"].values())
                sh.check(got == ["x", "y"] or loader == "dynamic", "the data are those of the data loader", key="data " + key, got=got)
                got = load_algorithm_by_reference(*w["pipelines"][p]).name
                sh.check(got == (name if kind == "SKELETON" else "PC"), "the pipeline is the one that was asked for", key="algorithm " + key, got=got, want=name)
    sh.sample(item["head"])


def many(sh, item):
    """many pipelines, data loaders and experiments: added, changed and removed one after the other"""
    n = item["n"]
    ops = []
    for i in range(n):
        ops += [("add-pipeline", "PRECONFIGURED", ["PC", "ParallelPC"][i % 2], "p%d" % i, "p%d" % i), ("add-loader", ["json", "jsonl"][i % 2], "d%d" % i, "d%d" % i, "data%d.json" % i)]
    ops += [("add-experiment", "e%d" % i, "e%d" % i, "p%d" % ((i * 7) % n), "d%d" % ((i * 5) % n)) for i in range(n)]
    ops += [("update", "e%d" % i, "threshold", "0.%03d" % (i + 1)) for i in range(n)]
    ops += [("rm-pipeline", "p%d" % (n - 1)), ("rm-loader", "d%d" % (n - 1))]
    ops += [("rm-experiment", "e%d" % i) for i in range(n - 1, -1, -1 if item["all"] else -2)]
    ops += [("rm-pipeline", "p%d" % i) for i in range(n)] + [("rm-loader", "d%d" % i) for i in range(n)]
    with scratch() as d, ws.inside(d):
        create()
        state = (ws.files(), copy(EMPTY))
        for k, op in enumerate(ops):
            state = step(sh, state[0], state[1], op, "many %s %d" % (op[0], k))
            sh.add(transitions=1, states=1)
            if state is None:
                return
    sh.sample(item)


def run(ctx):
    ctx.explore(many, [{"n": n, "all": a} for n in ctx.pick((7, 30), (7, 30, 60)) for a in (False, True)], name="many", limit=ctx.pick(240, 1500))
    ctx.explore(usable, [{"head": h, "tails": [""] + LETTERS if h else [""]} for h in [""] + LETTERS], name="usable whatever the name")
    base = [["p", "1e3"], ["d"], ["e", "0x1f"]]
    n = len(alphabet(base))
    items = [{"names": base, "depth": ctx.pick(3, 4), "first": i, "prefix": []} for i in range(n)]
    items += [{"names": base, "depth": ctx.pick(3, 4), "first": i, "prefix": CONFIGURED} for i in range(n)]
    ctx.explore(histories, items, name="histories", limit=ctx.pick(600, 3000))
    ctx.explore(names, [[a, b, c] for a in TRICKY for b in TRICKY for c in (TRICKY if ctx.thorough else TRICKY[:3])], name="names")
    ctx.explore(
        dialogs,
        [{"pipe": p, "loader": ld, "exp": e} for p in (None, ["PRECONFIGURED", "PC"], ["PRECONFIGURED", "ParallelPC"], ["EJECT", "PC"], ["SKELETON"]) for ld in (None, "json", "jsonl", "dynamic") for e in (False, True) if e is False or (p and ld)],
        name="init dialogs",
    )
    ctx.explore(handmade, [{"workspace": i, "pairs": ctx.thorough or i % 18 == 0} for i in range(len(OPTIONS) * len(VARIABLES) * 3)], name="hand-written workspaces", limit=ctx.pick(400, 3000))
    ctx.explore(typed, [{"first": n, "format": f, "all": ctx.thorough} for n in TYPED for f in (("json", "yml") if ctx.thorough else ("json",))], name="variables of every type", limit=ctx.pick(240, 3000))
