"""Make and confirm planted bugs (development only; no check reads this or seeded/).

spec file (python):  SEEDS = [dict(id=, property=, needs=, breaks=, edits=[(file, old, new)], demo=python text)]
    mkseed.py SPEC [ID ...] [--notest] [--check C01,C02]
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, xml.etree.ElementTree as ET

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "201f378"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="")


def sh(cmd, cwd, env=None, timeout=900):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, "timeout", "timeout")


def tests(copy):
    x = copy + ".xml"
    sh([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-p", "no:xdist", "--randomly-dont-reorganize",
        "--randomly-seed=0", "--timeout=120", "-o", "junit_family=xunit2", "--junitxml=" + x], copy, dict(ENV, PYTHONPATH=copy))
    ok = set()
    for c in ET.parse(x).getroot().iter("testcase"):
        if not any(ch.tag in ("failure", "error", "skipped") for ch in c):
            ok.add(c.get("classname") + "::" + c.get("name"))
    os.remove(x)
    return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]


def one(s, args):
    d = f"{V}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    copy = f"/tmp/seedrepo_{s['id']}"
    shutil.rmtree(copy, ignore_errors=True)
    sh(["git", "clone", "-q", "/repo", copy], "/tmp")
    out = [s["id"]]
    touched = {}
    for f, old, new in s["edits"]:
        t = open(f"{copy}/{f}").read()
        if t.count(old) != 1:
            return f"{s['id']}: BAD EDIT ({t.count(old)} matches) {f}: {old[:60]!r}"
        touched.setdefault(f, t)
        open(f"{copy}/{f}", "w").write(t.replace(old, new))
    diff = sh(["git", "diff"], copy).stdout
    open(f"{d}/patch.diff", "w").write(diff)
    # every removed line must be an original one
    for f in touched:
        blame = sh(["git", "blame", "-s", "HEAD", "--", f], copy).stdout.splitlines()
        hunks = re.findall(r"^@@ -(\d+)(?:,(\d+))? ", sh(["git", "diff", "-U0", "--", f], copy).stdout, re.M)
        for a, n in hunks:
            for i in range(int(a), int(a) + int(n or 1)):
                if i and not blame[i - 1].lstrip("^").startswith(BASE[:7]) and BASE[:6] not in blame[i - 1][:9]:
                    out.append(f"line {f}:{i} not original")
    if "demo" in s:
        open(f"{d}/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\n# run with cwd at the root of the repository\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    r = sh(["bash", f"{d}/demo.sh"], copy, timeout=300)
    out.append(f"demo patched rc={r.returncode} {(r.stderr or r.stdout).strip().splitlines()[-1:]}")
    r = sh(["bash", f"{d}/demo.sh"], "/repo", timeout=300)
    out.append(f"clean rc={r.returncode} {(r.stderr.strip().splitlines()[-1:] if r.returncode else '')}")
    if "--notest" not in args:
        out.append(f"tests broken={tests(copy)[:3]}")
    if "--nocheck" not in args:
        for c in s.get("checks", [s["property"]]):
            r = sh([PY, f"{V}/check.py", c, "--quick"], V, dict(os.environ, VERIF_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick"))
            out.append(f"{c}: rc={r.returncode} {[l[:150] for l in r.stdout.splitlines() if 'VIOLATION' in l][:1]} {r.stderr.strip()[-200:] if r.returncode not in (0,1) else ''}")
    shutil.rmtree(copy, ignore_errors=True)
    return " | ".join(out)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = [a for a in sys.argv[2:] if not a.startswith("--")]
    todo = [s for s in ns["SEEDS"] if not ids or s["id"] in ids]
    with cf.ThreadPoolExecutor(2) as ex:
        for line in ex.map(lambda s: one(s, sys.argv), todo):
            print(line[:900], flush=True)
