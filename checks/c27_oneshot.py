"""C27: the one-shot commands (eject, execute) write exactly what the algorithm found, as the API does."""
import itertools
import json
import os

from lib import discovery as D
from lib import graphs as G
from lib import ws
from lib.harness import call, scratch
from checks.c17_result_roundtrip import step_view, view as result_view

from causy.causal_discovery import AVAILABLE_ALGORITHMS
from causy.serialization import deserialize_result, load_algorithm_from_specification

PROPERTY = "C27"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "data that are faithful to a DAG, or the small generic data sets listed; JSON files of rows or columns",
    "the history of algorithms that sample combinations is only compared by its steps",
    "the printed text is only required to name every direction found",
]
BOUNDS = {
    "quick": "every shipped algorithm x one DAG of each of the 185 4-node Markov equivalence classes, as rows or columns, by name and by ejected pipeline file; all combinations of missing and wrong arguments; names and places of the files; 7, 12 and 20 variables",
    "thorough": "all 543 4-node DAGs, rows and columns",
}


def timeless(s):
    name, _, actions, proposed, steps = s
    return (name, actions, proposed, [timeless(x) for x in steps])


def fresh(alg, cols, names):
    m = AVAILABLE_ALGORITHMS[alg]()
    m.create_graph_from_data({k: list(map(float, c)) for k, c in zip(names, cols)})
    m.create_all_possible_edges()
    m.execute_pipeline_steps()
    g = m.graph
    live = {(u, v): (g.edge_type(u, v).name, g.edge_value(u, v)) for u, v in itertools.permutations(names, 2) if g.directed_edge_exists(u, v)}
    return live, [timeless(step_view(s)) for s in g.action_history]


def generic(n):
    """correlated columns: a chain in which every variable depends on the two before it"""
    x, cols = 99, []
    for i in range(n):
        col = []
        for j in range(80):
            x = (x * 1103515245 + 12345) % 2**31
            col.append((x >> 8) % 2000 / 100 + sum(c[j] for c in cols[-2:]) * 0.8)
        cols.append(col)
    return cols


def runs(sh, item):
    names = ["b b", "A", "\u00fc", "z1"]
    alg = item["alg"]
    with scratch() as d, ws.inside(d):
        code, out, exc = ws.cli(["eject", alg, "pipe.json"])
        if not sh.check(code == 0 and exc is None and os.listdir(".") == ["pipe.json"], "eject writes the file", key="eject " + alg, code=code, error=repr(exc)):
            return
        spec = json.load(open("pipe.json"))
        a = call(load_algorithm_from_specification, spec)
        want = AVAILABLE_ALGORITHMS[alg]().algorithm
        sh.check(a[0] == "ok" and a[1].model_dump() == want.model_dump(), "the ejected pipeline is the algorithm", key="ejected " + alg, got=repr(a)[:300])
        for i, dag in enumerate(item["dags"]):
            if isinstance(dag, int):
                names, cols = ["v%d" % k for k in range(dag)], generic(dag)
            else:
                cols, _ = D.data(4, G.from_item(dag))
            cols = [list(map(float, c)) for c in cols]
            live, hist = fresh(alg, cols, names)
            forms = ["rows", "columns"] if item["both"] else [["rows", "columns"][i % 2]]
            for form, how in itertools.product(forms, ("name", "file")):
                data = dict(zip(names, cols)) if form == "columns" else [dict(zip(names, r)) for r in zip(*cols)]
                with open("data.json", "w") as f:
                    json.dump(data, f)
                text = open("data.json", "rb").read()
                args = ["--algorithm", alg] if how == "name" else ["--pipeline", "pipe.json"]
                output = ["--output-file", "out.json"] if i % 4 != 3 else []
                code, out, exc = ws.cli(["execute", "data.json"] + args + output)
                key = "%s %s %s %r" % (alg, form, how, dag)
                sh.add(states=1, traces_validated_against_impl=1, transitions=1 + len(live))
                if not sh.check(code == 0 and exc is None, "execute succeeds", key="run " + key, code=code, error=repr(exc)[:300]):
                    continue
                left = sorted(set(os.listdir(".")) - {"pipe.json", "data.json"})
                sh.check(left == ["out.json"] * bool(output) and open("data.json", "rb").read() == text, "exactly the output file is written", key="files " + key, got=left)
                for u, v in live:
                    sh.check("%s -> %s" % (u, v) in out, "every direction is printed", key="printed " + key, direction=[u, v])
                printed = {(u, v) for u, v in itertools.permutations(names, 2) if "\n%s -> %s:" % (u, v) in "\n" + out}
                sh.check(printed <= set(live), "nothing else is printed", key="printed more " + key, got=sorted(printed), want=sorted(live))
                if not output or left != ["out.json"]:
                    continue
                r = call(lambda: deserialize_result(json.load(open("out.json"))))
                os.unlink("out.json")
                if not sh.check(r[0] == "ok", "the result can be read", key="read " + key, got=repr(r)[:300]):
                    continue
                v = result_view(r[1])
                stored = {}
                for e in r[1].edges:
                    stored.setdefault((e.u.id, e.v.id), (e.edge_type.name, e.metadata))
                sh.check({frozenset(x) for x in stored} == {frozenset(x) for x in live} and all(live.get(x) == y for x, y in stored.items()) and all(stored.get(x) == y for x, y in live.items() if y[0] == "DIRECTED"), "the stored edges are those found", key="edges " + key, got=repr(stored)[:300], want=repr(live)[:300])
                got = [timeless(s) for s in v["history"]]
                if alg != "PC":  # the order and number of sampled tests vary
                    got, hist_ = [x[0] for x in got], [x[0] for x in hist]
                else:
                    hist_ = hist
                sh.check(got == hist_, "the stored history is that of the run", key="history " + key)
                sh.check(v["nodes"] == {n: (n, n) for n in names}, "the stored nodes are the variables", key="nodes " + key, got=repr(v["nodes"]))
                sh.check(v["algorithm"] == (("name", alg) if how == "name" else ("file", "pipe.json")), "the stored algorithm reference", key="reference " + key, got=v["algorithm"])
    sh.sample([alg, item["dags"][0]])


def wrong(sh, item):
    """what cannot be executed fails and leaves no output behind"""
    with scratch() as d, ws.inside(d):
        ws.cli(["eject", "PC", "pipe.json"])
        with open("data.json", "w") as f:
            json.dump({"x": [1.0, 2.0, 4.0, 3.0, 5.5, 0.5], "y": [1.0, 0.0, 2.0, 2.5, 1.0, 0.0]}, f)
        for name, text in (("bad.json", "["), ("number.json", "1"), ("empty.json", ""), ("no_algorithm.json", '{"name": "x"}')):
            with open(name, "w") as f:
                f.write(text)
        before = ws.files()
        for data, how, output in itertools.product(
            ("data.json", "bad.json", "number.json", "empty.json", "missing.json"),
            ([], ["--algorithm", "PC"], ["--algorithm", "nope"], ["--pipeline", "pipe.json"], ["--pipeline", "missing.json"], ["--pipeline", "bad.json"], ["--pipeline", "no_algorithm.json"]),
            ([], ["--output-file", "out.json"]),
        ):
            good = data == "data.json" and how in (["--algorithm", "PC"], ["--pipeline", "pipe.json"])
            code, out, exc = ws.cli(["execute", data] + how + output)
            key = "%s %r %r" % (data, how, output)
            sh.add(states=1, transitions=1, traces_validated_against_impl=1)
            after = ws.files()
            made = after.pop("out.json", None)
            sh.check((code == 0) == good, "execute succeeds exactly if it can", key="status " + key, code=code, error=repr(exc)[:200])
            sh.check(after == before and (made is not None) == (good and bool(output)), "output is written exactly on success", key="output " + key)
            ws.restore(before)
        code, out, exc = ws.cli(["eject", "nope", "e.json"])
        sh.check(code != 0 and ws.files() == before, "an unknown algorithm is not ejected", key="eject nope")


def paths(sh, item):
    """files in all kinds of places"""
    data = {"x": [1.0, 2.0, 4.0, 3.0, 5.5, 0.5], "y": [1.0, 0.0, 2.0, 2.5, 1.0, 0.0]}
    forms = lambda n: [n, "./" + n, "sub/" + n, "sub/deep er/" + n, "sub/../" + n, None]
    with scratch() as d, ws.inside(d):
        os.makedirs("sub/deep er")
        pipes, datas, outs = (["p.json", "p", "p.yml.json"], ["d.json", "d.txt"], ["o.json", "o"])
        for p in ["pipe"] if item["alg"] else [f for n in pipes for f in forms(n)]:
            p = os.path.join(d, "sub", "abs p") if p is None else p
            for q in [f for n in datas for f in forms(n)]:
                q = os.path.join(d, "sub", "abs d") if q is None else q
                for o in [f for n in outs for f in forms(n)][:: 1 if item["all"] else 5]:
                    o = os.path.join(d, "sub", "abs o") if o is None else o
                    ws.restore({})
                    os.makedirs("sub/deep er", exist_ok=True)
                    with open(q, "w") as f:
                        json.dump(data, f)
                    how = ["--algorithm", "PC"]
                    if not item["alg"]:
                        code, out, exc = ws.cli(["eject", "PC", p])
                        how = ["--pipeline", p]
                        sh.check(code == 0 and os.path.exists(p), "eject writes the given file", key="eject to %s" % p, error=repr(exc)[:200])
                    before = ws.files()
                    code, out, exc = ws.cli(["execute", q] + how + ["--output-file", o])
                    key = "%r %s %s" % (how, q, o)
                    sh.add(states=1, transitions=1, traces_validated_against_impl=1)
                    if not sh.check(code == 0 and os.path.exists(o), "execute writes the given file", key="paths " + key, error=repr(exc)[:200]):
                        continue
                    r = call(lambda: deserialize_result(json.load(open(o))))
                    want = ("name", "PC") if item["alg"] else ("file", p)
                    sh.check(r[0] == "ok" and result_view(r[1])["algorithm"] == want and sorted(r[1].nodes) == ["x", "y"], "the stored reference and nodes", key="paths result " + key, got=repr(r)[:300], want=want)
                    os.unlink(o)
                    sh.check(ws.files() == before, "no other file is changed", key="paths files " + key)


def run(ctx):
    ctx.explore(paths, [{"alg": a, "all": ctx.thorough} for a in (True, False)], name="paths", limit=900)
    ctx.explore(runs, [{"alg": a, "dags": [n], "both": True} for a in sorted(AVAILABLE_ALGORITHMS) for n in (7, 12, 20)], name="many variables", limit=600)
    ctx.explore(wrong, [{}], name="arguments")
    dags = [G.to_item(d) for d in (G.all_dags(4) if ctx.thorough else sorted((m for _, m in G.cpdag_classes(4)), key=sorted))]
    ctx.explore(runs, [{"alg": a, "dags": dags[i::16], "both": ctx.thorough} for a in sorted(AVAILABLE_ALGORITHMS) for i in range(16)], name="runs", limit=900)
