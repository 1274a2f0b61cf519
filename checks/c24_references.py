"""C24: an algorithm reference gives exactly the referenced algorithm, and never reads outside the working directory."""
import itertools
import os
import sys
from urllib.parse import quote

from fastapi.testclient import TestClient

from lib import ws
from lib.harness import call, scratch

from causy.causal_discovery.constraint.algorithms.pc import PC, ParallelPC, PCClassic, PCStable
from causy.serialization import load_algorithm_by_reference
from causy.ui import server
from pydantic_yaml import to_yaml_str

PROPERTY = "C24"
LEVEL = "model_checking"
ASSUMPTIONS = ["the working directory does not change during the call", "python module references import modules: what they may import is not restricted"]
BOUNDS = {
    "quick": "all references of up to 4 path components out of 12 (names, '..', '.', links into and out of the folder, sibling folders with the same prefix), relative and absolute, from 3 working directories: file references through the API, single components also through the UI; all names and module references; files without an algorithm",
    "thorough": "up to 5 components",
}
PARTS = ["..", ".", "sub", "a.yml", "b.json", "in.yml", "out.yml", "outdir", "x.yml", "work", "work_other", "indir"]


def build(root):
    """files with recognisable algorithms; returns {real path: name of the algorithm in it}"""
    for d in ("work/sub", "work_other", "other"):
        os.makedirs(os.path.join(root, d))
    content = {
        "work/a.yml": (PC, "yml"),
        "work/sub/b.json": (PCClassic, "json"),
        "work/sub/a.yml": (PCStable, "yml"),
        "work_other/x.yml": (PCStable, "yml"),
        "work_other/a.yml": (PCClassic, "yml"),
        "other/x.yml": (PC, "yml"),
        "x.yml": (PCClassic, "yml"),
        "b.json": (PC, "json"),
    }
    names = {}
    for p, (cls, kind) in content.items():
        alg = cls()._original_algorithm.model_copy(update={"name": "algorithm in " + p})
        with open(os.path.join(root, p), "w") as f:
            f.write(to_yaml_str(alg) if kind == "yml" else alg.model_dump_json())
        names[os.path.realpath(os.path.join(root, p))] = (alg.name, [type(s).__name__ for s in alg.pipeline_steps])
    os.symlink("sub/a.yml", os.path.join(root, "work/in.yml"))
    os.symlink("../other/x.yml", os.path.join(root, "work/out.yml"))
    os.symlink("../other", os.path.join(root, "work/outdir"))
    os.symlink("../work/sub", os.path.join(root, "work/indir"))
    os.symlink("work", os.path.join(root, "alias"))
    return names


SEEN = {"on": False, "paths": [], "installed": False}


def _audit(event, args):
    if SEEN["on"] and event == "open" and isinstance(args[0], (str, bytes)):
        SEEN["paths"].append(os.fsdecode(args[0]))


def watch(fn):
    if not SEEN["installed"]:
        sys.addaudithook(_audit)
        SEEN["installed"] = True
    SEEN.update(on=True, paths=[])
    try:
        return call(fn), list(SEEN["paths"])
    finally:
        SEEN["on"] = False


def expectation(root, cwd, ref, names):
    """-> None if it has to be refused, else the algorithm"""
    real = os.path.realpath(os.path.join(cwd, ref))
    if not (real + os.sep).startswith(cwd + os.sep):
        return "outside", None
    return "inside", names.get(real)


def files(sh, item):
    with scratch() as d:
        d = os.path.realpath(d)
        names = build(d)
        with ws.inside(os.path.join(d, item["cwd"])):
            cwd = os.path.realpath(".")
            client = TestClient(server._create_ui_app(with_static=False), raise_server_exceptions=False)
            for n in range(item["max"]):
                for rest in itertools.product(PARTS, repeat=n):
                    rel = "/".join((item["first"],) + rest)
                    for ref in (rel, d + "/" + rel):
                        where, alg = expectation(d, cwd, ref, names)
                        got, opened = watch(lambda: load_algorithm_by_reference("file", ref))
                        sh.add(states=1, transitions=1, traces_validated_against_impl=1)
                        short = ref.replace(d, "<root>")
                        if alg is None:
                            sh.check(got[0] == "exc", "a reference that leads out of the working directory or to no algorithm is refused", key="refused %s %s" % (item["cwd"], short), reference=short, where=where, got=str(got)[:200])
                            if where == "outside":
                                sh.check(got[:2] == ("exc", "ValueError"), "refused as invalid", key="error %s %s" % (item["cwd"], short), got=str(got)[:200])
                        else:
                            ok = got[0] == "ok" and (got[1].name, [type(s).__name__ for s in got[1].pipeline_steps]) == alg
                            sh.check(ok, "the algorithm in the file", key="loaded %s %s" % (item["cwd"], short), got=str(got)[:300], want=alg)
                        bad = [p for p in opened if os.path.realpath(p).startswith(d + os.sep) and not (os.path.realpath(p) + os.sep).startswith(cwd + os.sep)]
                        sh.check(not bad, "nothing outside the working directory is opened", key="opened %s %s" % (item["cwd"], short), opened=[p.replace(d, "<root>") for p in bad])
                        if n == 0 or (n == 1 and item["ui"]):
                            (st, r), opened = watch(lambda: client.get("/api/v1/algorithm/file/" + quote(ref, safe="")))
                            r_ok = st == "ok"
                            code = r.status_code if r_ok else None
                            bad = [p for p in opened if os.path.realpath(p).startswith(d + os.sep) and not (os.path.realpath(p) + os.sep).startswith(cwd + os.sep)]
                            sh.check(not bad, "the UI opens nothing outside the working directory", key="ui opened %s %s" % (item["cwd"], short), opened=[p.replace(d, "<root>") for p in bad])
                            if alg is not None and n == 0 and ref == rel:
                                sh.check(code == 200 and r.json()["name"] == alg[0], "the UI serves the algorithm", key="ui " + short, got=(code, str(r.text)[:200]))
                            elif alg is None:
                                sh.check(code is not None and 400 <= code < 500, "the UI refuses the reference", key="ui refused %s %s" % (item["cwd"], short), got=code)
    sh.sample({"reference": short, "cwd": item["cwd"]})


MODULE = """
from causy.causal_discovery.constraint.algorithms.pc import PC, PCStable
from causy.graph_model import graph_model_factory
ONE = PC
TWO = graph_model_factory(PCStable()._original_algorithm)
"""


def others(sh, item):
    with scratch() as d, ws.inside(d):
        os.makedirs("pack")
        for p in ("c24_mod.py", "pack/__init__.py", "pack/inner.py"):
            with open(p, "w") as f:
                f.write(MODULE)
        sys.path.insert(0, d)
        client = TestClient(server._create_ui_app(with_static=False), raise_server_exceptions=False)
        try:
            want = {("name", n): c for n, c in (("PC", PC), ("ParallelPC", ParallelPC))}
            for m in ("c24_mod", "pack", "pack.inner"):
                want["python_module", m + ".ONE"] = PC
                want["python_module", m + ".TWO"] = PCStable
            from causy.causal_discovery import AVAILABLE_ALGORITHMS

            for n, c in AVAILABLE_ALGORITHMS.items():
                want.setdefault(("name", n), c)
            for (t, ref), cls in want.items():
                a = cls()._original_algorithm
                for again in (1, 2):
                    got = call(load_algorithm_by_reference, t, ref)
                    sh.add(states=1, transitions=1, traces_validated_against_impl=1)
                    ok = got[0] == "ok" and got[1].model_dump() == a.model_dump()
                    sh.check(ok, "the referenced algorithm", key="%s %s" % (t, ref), got=str(got)[:200])
                    if ok:
                        got[1].pipeline_steps.clear()
                        got[1].name = "changed"
                r = client.get("/api/v1/algorithm/%s/%s" % (t, ref))
                sh.check(r.status_code == 200 and r.json()["name"] == a.name and len(r.json()["pipeline_steps"]) == len(a.pipeline_steps), "the UI serves the algorithm", key="ui %s %s" % (t, ref), got=(r.status_code, r.text[:200]))
            for t, ref in (("name", "nope"), ("python_module", "c24_mod.NOPE"), ("python_module", "c24_nope.X"), ("nope", "PC"), ("FILE", "x"), ("python_module", "x"), ("file", "nope.yml")):
                r = client.get("/api/v1/algorithm/%s/%s" % (t, ref))
                sh.check(400 <= r.status_code < 500, "an unknown reference is a client error", key="ui unknown %s %s" % (t, ref), got=r.status_code)
                if t in ("name", "python_module", "file"):
                    got = call(load_algorithm_by_reference, t, ref)
                    sh.check(got[0] == "exc", "an unknown reference is an error", key="unknown %s %s" % (t, ref), got=str(got)[:100])
        finally:
            sys.path.remove(d)


NOT_ALGORITHMS = ["", " ", "{}", "[]", "1", "null", "true", '"PC"', "x", "x: 1", "- x", "{", "a: [", "a: b: c", "\t", "%", "@", "&a *b", "name: x", "name: x\npipeline_steps:", '{"name": "x"}', '{"name": "x", "pipeline_steps": [{}]}', '{"name": "x", "pipeline_steps": [], "edge_types": 1}', '{"name": "x", "pipeline_steps": [{"name": "causy.nope.Nope"}], "edge_types": []}', '{"name": "x", "pipeline_steps": [{"name": "causy.generators.Nope"}], "edge_types": []}', "!!python/object/apply:os.getcwd []"]


def no_algorithm(sh, item):
    """files that hold no algorithm are errors, whatever they are called"""
    with scratch() as d, ws.inside(d):
        client = TestClient(server._create_ui_app(with_static=False), raise_server_exceptions=False)
        for text, name in itertools.product(NOT_ALGORITHMS, ("a.yml", "a.json", "a")):
            with open(name, "w") as f:
                f.write(text)
            got = call(load_algorithm_by_reference, "file", name)
            sh.add(states=1, transitions=1, traces_validated_against_impl=1)
            sh.check(got[0] == "exc", "a file that holds no algorithm is an error", key="content %r" % text, got=str(got)[:200])
            r = client.get("/api/v1/algorithm/file/" + name)
            sh.check(400 <= r.status_code < 500, "a file that holds no algorithm is a client error", key="ui content %r" % text, got=r.status_code)


def run(ctx):
    ctx.explore(no_algorithm, [{}], name="files without an algorithm")
    n = ctx.pick(4, 5)
    items = [{"cwd": c, "first": p, "max": n, "ui": True} for c in ("work", "alias", "work/sub") for p in PARTS]
    ctx.explore(files, items, name="file references", limit=ctx.pick(600, 3000))
    ctx.explore(others, [{}], name="names and modules")
