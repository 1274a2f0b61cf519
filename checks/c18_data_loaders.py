"""C18: every loader gives the same, exact data, and its hash identifies data and options."""
import itertools
import json
import os
import sys

import torch

from lib.harness import call, scratch

from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
from causy.data_loader import DataLoaderReference, DataLoaderType, load_data_loader
from causy.edge_types import DirectedEdge, UndirectedEdge
from causy.graph_model import graph_model_factory
from causy.models import Algorithm

PROPERTY = "C18"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "numbers that JSON and float64 represent exactly; the first row names the variables",
    "dynamic loaders are classes importable from sys.path that are deterministic",
]
BOUNDS = {
    "quick": "all tables of 1..2 rows x 2 variables over 7 numbers, 2 x 3 over 3 numbers, 3 x 2 over 3; every order of keys in each row; 5 loaders; all pairs of 60 contents x 8 option sets for the hash; a change at every position class of files of 11 sizes up to 16 MB; tables of 1..69 rows and around 15 round numbers up to 100001 rows; 22 JSON documents and 24 JSONL files that are no tables; all pairs of 17 shapes of columns, rows without a number at every place; all interleavings of two readers of a loader, early stops and changed data between readings; dynamic loaders in packages of depth 1..4",
    "thorough": "as quick with 3 x 2 tables over 5 numbers and 3 x 3 tables over 2 numbers",
}

VALUES = [0, 1, -1.5, 0.1, 1e-300, 12345678901234.5, -3]

MODULE = '''
import hashlib, json
from causy.data_loader import AbstractDataLoader
class Rows(AbstractDataLoader):
    def __init__(self, path=None, scale=1, **rest):
        self.path, self.scale, self.rest = path, scale, rest
    def load(self):
        with open(self.path) as f:
            for row in json.load(f):
                yield {k: v * self.scale for k, v in row.items()}
    def hash(self):
        with open(self.path, "rb") as f:
            return hashlib.sha256(f.read()).hexdigest()
class Fixed(AbstractDataLoader):
    def __init__(self):
        pass
    def load(self):
        yield {"x": 1.0, "a": 2.0}
    def hash(self):
        return "fixed"
'''


def model():
    return graph_model_factory(
        Algorithm(name="t", pipeline_steps=[CalculatePearsonCorrelations()], edge_types=[DirectedEdge(), UndirectedEdge()], extensions=[])
    )()


def nodes(data):
    m = model()
    m.create_graph_from_data(data)
    return [(n.id, n.name, n.values.tolist(), str(n.values.dtype)) for n in m.graph.nodes.values()]


def ref(kind, path, options=None):
    return load_data_loader(DataLoaderReference(type=kind, reference=path, options=options))


def write(path, text):
    with open(path, "w") as f:
        f.write(text)


def tables(sh, item):
    names, vals, rows = item["names"], item["values"], item["rows"]
    with scratch() as d:
        write(os.path.join(d, "c18_dynamic_loader.py"), MODULE)
        sys.path.insert(0, d)
        try:
            for cells in itertools.product(vals, repeat=len(names) * rows):
                if item["first"] is not None and cells[0] != item["first"]:
                    continue
                table = [cells[i * len(names) : (i + 1) * len(names)] for i in range(rows)]
                want = [(n, n, [float(r[names.index(n)]) for r in table], "torch.float64") for n in sorted(names)]
                orders = item["orders"]
                for oi, order in enumerate(orders):
                    dicts = []
                    for k, r in enumerate(table):
                        o = orders[(oi + k) % len(orders)]
                        dicts.append({names[j]: r[j] for j in o})
                    cols = {names[j]: [r[j] for r in table] for j in order}
                    one, two, three = (os.path.join(d, x) for x in ("rows.json", "cols.json", "rows.jsonl"))
                    write(one, json.dumps(dicts))
                    write(two, json.dumps(cols, indent=1))
                    write(three, "\n".join(json.dumps(r) for r in dicts) + ("\n" if oi % 2 else ""))
                    loaders = {
                        "json rows": ref(DataLoaderType.JSON, one),
                        "json columns": ref(DataLoaderType.JSON, two),
                        "jsonl": ref(DataLoaderType.JSONL, three),
                        "dynamic": ref(DataLoaderType.DYNAMIC, "c18_dynamic_loader.Rows", {"path": one}),
                    }
                    for lab, ld in loaders.items():
                        for again in (1, 2):
                            got = call(nodes, ld)
                            sh.add(traces_validated_against_impl=1, transitions=len(cells))
                            sh.check(got == ("ok", want), "nodes and values of the loaded data", key="%s %r" % (lab, table), loader=lab, got=got, want=want, load=again)
                    got = call(nodes, {k: list(v) for k, v in cols.items()})
                    sh.check(got == ("ok", want), "nodes and values of data given directly", key="columns %r" % (table,), got=got, want=want)
                    got = call(nodes, [dict(r) for r in dicts])
                    sh.check(got == ("ok", want), "nodes and values of data given directly", key="rows %r" % (table,), got=got, want=want)
                    # options reach a dynamic loader
                    got = call(nodes, ref(DataLoaderType.DYNAMIC, "c18_dynamic_loader.Rows", {"path": one, "scale": 2}))
                    w2 = [(a, b, [2 * x for x in c], t) for a, b, c, t in want]
                    sh.check(got == ("ok", w2), "options of a dynamic loader", key="scale %r" % (table,), got=got, want=w2)
                    sh.add(states=1)
            # a row that lacks a variable has no value to use
            if rows == 2:
                for k in range(len(names)):
                    bad = [{n: 1.0 for n in names}, {n: 2.0 for i, n in enumerate(names) if i != k}]
                    write(one, json.dumps(bad))
                    write(three, "\n".join(map(json.dumps, bad)))
                    for lab, ld in (("json rows", ref(DataLoaderType.JSON, one)), ("jsonl", ref(DataLoaderType.JSONL, three))):
                        got = call(nodes, ld)
                        sh.check(got[0] == "exc", "a row without a value is rejected", key="missing " + lab, got=got, rows=bad)
        finally:
            sys.path.remove(d)
            sys.modules.pop("c18_dynamic_loader", None)
    sh.sample(item)


OPTIONS = [None, {"a": 1}, {"a": 2}, {"b": 1}, {"a": "1"}, {"a": 1, "b": 2}, {"a": {"b": 1}}, {"a": [1, 2]}]


def hashes(sh, item):
    contents = [json.dumps([{"x": i, "y": j * 0.5}, {"x": k, "y": 1}]) for i in range(5) for j in range(4) for k in range(3)]
    contents += ["", "[]", " []", "[] ", "{}", "\n", "a" * 1000]
    kind = DataLoaderType(item["kind"])
    with scratch() as d:
        write(os.path.join(d, "c18_dynamic_loader.py"), MODULE)
        sys.path.insert(0, d)
        try:

            def make(path, opt):
                if kind == DataLoaderType.DYNAMIC:
                    return ref(kind, "c18_dynamic_loader.Rows", dict(opt or {}, path=path))
                return ref(kind, path, opt)

            seen = {}
            a, b = os.path.join(d, "a"), os.path.join(d, "b")
            for c in contents:
                for opt in OPTIONS:
                    if kind == DataLoaderType.DYNAMIC and opt is not None and "path" in opt:
                        continue
                    write(a, c)
                    h = make(a, opt).hash()
                    sh.add(traces_validated_against_impl=1, transitions=1)
                    sh.check(isinstance(h, str) and h == make(a, opt).hash(), "the hash of unchanged data is the same", key="stable", content=c[:80], options=opt)
                    if opt and len(opt) > 1:
                        sh.check(h == make(a, dict(reversed(list(opt.items())))).hash(), "the order of options is irrelevant", key="option order", options=opt)
                    if kind != DataLoaderType.DYNAMIC:
                        write(b, c)
                        sh.check(h == make(b, opt).hash(), "the hash is that of the data, not of the file name", key="path", content=c[:80])
                    k = (c, json.dumps(opt, sort_keys=True))
                    sh.check(seen.setdefault(h, k) == k, "different data or options have different hashes", key="collision", first=seen[h], second=k)
                    sh.add(states=1)
                # the same loader object sees a change of the file
                write(a, c)
                ld = make(a, None)
                h = ld.hash()
                write(a, c + " ")
                sh.check(ld.hash() != h, "the hash follows the file", key="follow", content=c[:80])
        finally:
            sys.path.remove(d)
            sys.modules.pop("c18_dynamic_loader", None)


def large(sh, item):
    size = item["size"]
    base = bytearray(b"[" + b" " * (size - 2) + b"]")
    spots = sorted({p for p in [0, 1, size // 2, size - 2, size - 1] + [q + e for q in [1 << i for i in range(12, 25)] for e in (-1, 0, 1)] if 0 <= p < size})
    with scratch() as d:
        p = os.path.join(d, "data")
        hs = {}
        for s in [None] + spots:
            x = bytearray(base)
            if s is not None:
                x[s] = ord("7")
            with open(p, "wb") as f:
                f.write(x)
            for kind in (DataLoaderType.JSON, DataLoaderType.JSONL):
                h = (kind, ref(kind, p).hash())
                sh.add(states=1, transitions=1, traces_validated_against_impl=1)
                sh.check(hs.setdefault(h, s) == s, "every byte of the data counts", key="byte %r of %d" % (s, size), other=hs[h])


def many(sh, item):
    """tables of every number of rows class: nothing is dropped, repeated or reordered"""
    n = item["rows"]
    names = ["x", "a"]
    cols = {"x": [((i * 7919) % 1000003) / 8 for i in range(n)], "a": [float(i) for i in range(n)]}
    want = [(k, k, cols[k], "torch.float64") for k in sorted(names)]
    rows = [{"x": x, "a": a} for x, a in zip(cols["x"], cols["a"])]
    with scratch() as d:
        write(os.path.join(d, "c18_dynamic_loader.py"), MODULE)
        sys.path.insert(0, d)
        try:
            one, two, three = (os.path.join(d, x) for x in ("rows.json", "cols.json", "rows.jsonl"))
            write(one, json.dumps(rows))
            write(two, json.dumps(cols))
            write(three, "\n".join(json.dumps(r) for r in rows))
            for lab, ld in {
                "json rows": ref(DataLoaderType.JSON, one),
                "json columns": ref(DataLoaderType.JSON, two),
                "jsonl": ref(DataLoaderType.JSONL, three),
                "dynamic": ref(DataLoaderType.DYNAMIC, "c18_dynamic_loader.Rows", {"path": one}),
                "rows": rows,
                "columns": cols,
            }.items():
                got = call(nodes, ld)
                sh.add(states=1, transitions=n, traces_validated_against_impl=1)
                ok = got[0] == "ok" and got[1] == want
                sh.check(ok, "every row arrives once and in order", key="many %s %d" % (lab, n), got=str(got)[:200], lengths=[len(x[2]) for x in got[1]] if got[0] == "ok" else None)
        finally:
            sys.path.remove(d)
            sys.modules.pop("c18_dynamic_loader", None)


BAD_JSON = ["1", "0", "1.5", '"x"', '""', "true", "false", "null", "", " ", "[", "{", '[{"x": 1}', '{"x": [1, 2]', '[{"x": 1},]', '[{"x": 1}] 2', '{"x": [1]}{"x": [2]}', "x: 1", "[1, 2]", '["x"]', "[[1, 2], [3, 4]]", "[null]"]
GOOD = '{"x": 1, "a": 2}'
BAD_LINES = ["[", '{"x": 1', '{"x": 1} {"x": 2}', "x", "1", "null", '"x"', "[1, 2]"]


def malformed(sh, item):
    """what is no table is an error, not a model without or with other data"""
    with scratch() as d:
        p = os.path.join(d, "data")

        def refused(kind, label, path=p, options=None):
            got = call(lambda: nodes(ref(kind, path, options)))
            sh.add(states=1, transitions=1, traces_validated_against_impl=1)
            sh.check(got[0] == "exc", "what is no table is rejected", key="malformed %s %r" % (kind.value, label), got=repr(got)[:200])

        for text in BAD_JSON:
            write(p, text)
            refused(DataLoaderType.JSON, text)
        for i, bad in itertools.product(range(3), BAD_LINES):
            rows = [GOOD] * 2
            rows.insert(i, bad)
            write(p, "\n".join(rows) + "\n")
            refused(DataLoaderType.JSONL, rows)
        for kind in (DataLoaderType.JSON, DataLoaderType.JSONL):
            refused(kind, "missing file", os.path.join(d, "missing"))
        # packages of every depth
        sys.path.insert(0, d)
        try:
            write(p, "[%s]" % GOOD)
            want = [("a", "a", [2.0], "torch.float64"), ("x", "x", [1.0], "torch.float64")]
            parts = []
            for depth in range(1, 5):
                parts.append("c18_package_%d" % depth)
                os.mkdir(os.path.join(d, *parts))
                for name in ("__init__", "loaders"):
                    write(os.path.join(d, *parts, name + ".py"), MODULE)
                for mod in (".".join(parts), ".".join(parts + ["loaders"])):
                    got = call(nodes, ref(DataLoaderType.DYNAMIC, mod + ".Rows", {"path": p}))
                    sh.add(states=1, transitions=1, traces_validated_against_impl=1)
                    sh.check(got == ("ok", want), "dynamic loader in a package", key="package " + mod, got=repr(got), want=want)
                    for options in (None, {}):
                        got = call(nodes, ref(DataLoaderType.DYNAMIC, mod + ".Fixed", options))
                        sh.check(got == ("ok", want), "dynamic loader without options", key="no options " + mod, got=repr(got), want=want)
                        got = call(ref(DataLoaderType.DYNAMIC, mod + ".Fixed", options).hash)
                        sh.check(got[0] == "ok" and isinstance(got[1], str), "hash of a dynamic loader without options", key="no options hash " + mod, got=repr(got))
                    for bad in (mod + ".Missing", mod + "_missing.Rows", mod + ".missing.Rows", mod):
                        refused(DataLoaderType.DYNAMIC, bad, bad, {"path": p})
            refused(DataLoaderType.DYNAMIC, "no module", "Rows", {"path": p})
            refused(DataLoaderType.DYNAMIC, "empty", "", {"path": p})
        finally:
            sys.path.remove(d)
            for m in [m for m in sys.modules if m.startswith("c18_package")]:
                del sys.modules[m]


COLUMNS = [1, 1.5, True, None, "x", {"k": 1}, [[1, 2], [3, 4]], [[1], [2]], [1], [1, 2], [2, 1], [1, 2, 3], [1, None], [1, "2"], ["a", "b"], [1, [2]], [1, {}]]


def shapes(sh, item):
    """columns that are not all lists of numbers of the same length are no table; a row has to have every variable"""
    plain = lambda c: isinstance(c, list) and all(isinstance(x, (int, float)) for x in c)
    with scratch() as d:
        p = os.path.join(d, "data")
        for a, x in itertools.product(COLUMNS, repeat=2):
            cols = {"x": x, "a": a}
            table = plain(a) and plain(x) and len(a) == len(x)
            want = [(k, k, [float(v) for v in c], "torch.float64") for k, c in (("a", a), ("x", x))] if table else None
            write(p, json.dumps(cols))
            for lab, load in (("file", lambda: ref(DataLoaderType.JSON, p)), ("direct", lambda: cols)):
                got = call(lambda: nodes(load()))
                sh.add(states=1, transitions=1, traces_validated_against_impl=1)
                sh.check(got == ("ok", want) if table else got[0] == "exc", "columns of numbers of equal length, and nothing else, are a table", key="columns %s %r" % (lab, cols), got=repr(got)[:200])
        for c in COLUMNS[:8]:
            for cols in ({"x": c}, {"x": [1, 2], "a": [1, 2], "b": c}, {"x": c, "a": [1, 2], "b": [1, 2]}):
                write(p, json.dumps(cols))
                got = call(lambda: nodes(ref(DataLoaderType.JSON, p)))
                sh.check(got[0] == "exc", "columns of numbers of equal length, and nothing else, are a table", key="columns %r" % (cols,), got=repr(got)[:200])
        names = ["x", "a", "b"]
        for n in (2, 3, 4):
            for i, k in itertools.product(range(1, n), range(3)):
                rows = [{v: float(r) for v in names} for r in range(n)]
                for bad in ("missing", None, "1", [1.0], {}):
                    rows[i] = {v: 9.0 for v in names}
                    if bad == "missing":
                        del rows[i][names[k]]
                    else:
                        rows[i][names[k]] = bad
                    write(p, json.dumps(rows))
                    write(p + "l", "\n".join(map(json.dumps, rows)))
                    for lab, load in (("json", lambda: ref(DataLoaderType.JSON, p)), ("jsonl", lambda: ref(DataLoaderType.JSONL, p + "l")), ("direct", lambda: rows)):
                        got = call(lambda: nodes(load()))
                        sh.add(states=1, transitions=1, traces_validated_against_impl=1)
                        sh.check(got[0] == "exc", "a row without a number for a variable is rejected", key="row %s %d %d %r" % (lab, n, i, bad), got=repr(got)[:200])


def reading(sh, item):
    """two readers of one loader in every interleaving, readers that stop early, changes between two readings"""
    with scratch() as d:
        write(os.path.join(d, "c18_dynamic_loader.py"), MODULE)
        sys.path.insert(0, d)
        try:
            p = os.path.join(d, "data")

            def put(rows, kind):
                if kind == "columns":
                    write(p, json.dumps({k: [r[k] for r in rows] for k in ("x", "a")}))
                elif kind == "jsonl":
                    write(p, "\n".join(map(json.dumps, rows)))
                else:
                    write(p, json.dumps(rows))

            def make(kind):
                if kind == "dynamic":
                    return ref(DataLoaderType.DYNAMIC, "c18_dynamic_loader.Rows", {"path": p})
                return ref(DataLoaderType.JSONL if kind == "jsonl" else DataLoaderType.JSON, p)

            for kind, n in itertools.product(("json", "columns", "jsonl", "dynamic"), (1, 2, 3)):
                rows = [{"x": float(i), "a": -0.5 * i} for i in range(n)]
                other = [{"x": 10.0 - i, "a": 0.25 * i} for i in range(n)]
                put(rows, kind)
                first = list(make(kind).load())
                for picks in itertools.combinations(range(2 * (len(first) + 1)), len(first) + 1):
                    ld = make(kind)
                    its, got = [ld.load(), ld.load()], [[], []]
                    for t in range(2 * (len(first) + 1)):
                        who = 0 if t in picks else 1
                        x = next(its[who], None)
                        if x is not None:
                            got[who].append(x)
                    sh.add(states=1, transitions=len(picks) * 2, traces_validated_against_impl=1)
                    sh.check(got == [first, first], "two readers of one loader", key="readers %s %d %r" % (kind, n, picks), got=repr(got), want=repr(first))
                want = {lab: [(k, k, [r[k] for r in t], "torch.float64") for k in ("a", "x")] for lab, t in (("rows", rows), ("other", other))}
                for stop in range(len(first) + 1):
                    for hashed in (0, 1):
                        put(rows, kind)
                        ld = make(kind)
                        it = ld.load()
                        for _ in range(stop):
                            next(it, None)
                        h = ld.hash() if hashed else None
                        got = call(nodes, ld)
                        sh.check(got == ("ok", want["rows"]), "a reader that stopped early leaves no trace", key="stop %s %d %d" % (kind, n, stop), got=repr(got))
                        if hashed:
                            sh.check(ld.hash() == h, "reading does not change the hash", key="stop hash %s" % kind)
                        # the same loader after the data have changed
                        put(other, kind)
                        got = call(nodes, ld)
                        sh.add(states=1, transitions=2, traces_validated_against_impl=1)
                        sh.check(got == ("ok", want["other"]), "the data that are there are read", key="changed %s %d" % (kind, n), got=repr(got))
                        if hashed:
                            sh.check(ld.hash() != h and ld.hash() == make(kind).hash(), "the hash is that of the data that are there", key="changed hash %s" % kind)
        finally:
            sys.path.remove(d)
            sys.modules.pop("c18_dynamic_loader", None)


def run(ctx):
    ctx.explore(shapes, [{}], name="shapes of tables")
    ctx.explore(reading, [{}], name="readings of one loader")
    ctx.explore(malformed, [{}], name="what is no table")
    two, three = ["x", "a"], ["b", "ä c", "A"]
    o2 = [[0, 1], [1, 0]]
    o3 = [list(p) for p in itertools.permutations(range(3))]
    items = [{"names": two, "values": VALUES, "rows": 1, "orders": o2, "first": None}]
    items += [{"names": two, "values": VALUES, "rows": 2, "orders": o2, "first": f} for f in VALUES]
    few = VALUES[1:4] if not ctx.thorough else VALUES[:5]
    items += [{"names": two, "values": few, "rows": 3, "orders": o2, "first": f} for f in few]
    items += [{"names": three, "values": VALUES[1:4], "rows": 2, "orders": o3[:3] if not ctx.thorough else o3, "first": f} for f in VALUES[1:4]]
    if ctx.thorough:
        items += [{"names": three, "values": VALUES[1:3], "rows": 3, "orders": o3, "first": f} for f in VALUES[1:3]]
    ctx.explore(tables, items, name="tables", limit=600)
    ctx.explore(hashes, [{"kind": k.value} for k in DataLoaderType], name="hashes")
    ctx.explore(large, [{"size": s} for s in (3, 4096, 4097, 65536, 65537, 262144, 262145, 1 << 20, 3 << 20, (10 << 20) + 1, (16 << 20) + 2)], name="large files")
    sizes = list(range(1, 70)) + [k + e for k in (100, 128, 256, 512, 1000, 1024, 2048, 4096, 5000, 8192, 10000) for e in (-1, 0, 1)] + [20001, 50001, 65537, 100001] + ctx.pick([], [16384, 65536, 262145])
    ctx.explore(many, [{"rows": n} for n in sizes], name="numbers of rows")
