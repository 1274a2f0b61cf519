"""One process of C12: results of the algorithms for some data sets, as JSON."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import harness

harness.prepare_environment()
import logging

logging.disable(logging.CRITICAL)
from lib import stubs

stubs.install()
from checks import c12_invariance as C

out = []
for i, combo in enumerate(json.loads(sys.argv[1])):
    data = {k: list(map(float, C.BASE[j])) for k, j in zip(C.NAMES, combo)}
    alg = ["PC", "PCStable", "PCClassic"][i % 3]
    m = C.fit(alg, data)
    out.append([C.result(m, C.NAMES), list(m.graph.nodes), [(e.u.id, e.v.id) for e in m.graph.retrieve_edges()]])
print(json.dumps(out))
