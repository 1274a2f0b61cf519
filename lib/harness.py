"""Runtime shared by all checks.

A check module in /verif/checks defines

    PROPERTY = "C01"
    LEVEL    = "model_checking" | "fault_enumeration"
    ASSUMPTIONS = [...]
    def run(ctx): ...            # calls ctx.explore(fn, items) one or more times

`fn(shard, item)` explores one part of the bounded space on the real code and
reports through the shard: counters (states, transitions, traces), samples and
violations.  Items are plain JSON values, so a violation can be replayed with
`check.py <ID> --replay <file>`.
"""
import atexit
import importlib
import json
import multiprocessing
import os
import contextlib
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(EVIDENCE, "replays")
KNOWN = os.path.join(VERIF, "known_findings.json")

MAX_VIOLATIONS_PER_SHARD = 5
MAX_REPORTED = 5


class CaseTimeout(BaseException):
    """Raised by the watchdog inside code that does not terminate."""


class FoundEnough(BaseException):
    pass


class StopExploring(BaseException):
    """Enough violations are known: the remaining spaces need not be explored."""


class HarnessError(Exception):
    """Something is wrong with the check itself."""


class Shard:
    def __init__(self):
        self.c = {}
        self.samples = []
        self.violations = []
        self.item = None
        self.out = []

    def emit(self, x):
        """hand a value back to the caller of explore()"""
        self.out.append(x)

    def add(self, **kw):
        for k, v in kw.items():
            self.c[k] = self.c.get(k, 0) + v

    def sample(self, s, limit=2):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, what, key=None, **detail):
        """Record a violation; `key` identifies it for the known-findings file."""
        if (key or what) in known_keys():
            # reported once per part; the exploration goes on
            if any(v["key"] == (key or what) for v in self.violations):
                return
        self.violations.append(
            {
                "what": what,
                "key": key or what,
                "detail": {k: repr(v) if not _jsonable(v) else v for k, v in detail.items()},
            }
        )
        if sum(v["key"] not in known_keys() for v in self.violations) >= MAX_VIOLATIONS_PER_SHARD:
            raise FoundEnough()

    def check(self, cond, what, key=None, **detail):
        if not cond:
            self.violation(what, key=key, **detail)
        return cond


def _jsonable(v):
    try:
        json.dumps(v)
        return True
    except (TypeError, ValueError):
        return False


class time_limit:
    """Turn a non-terminating call into CaseTimeout (main thread of a worker)."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def onalarm(signum, frame):
            raise CaseTimeout()

        self.old = signal.signal(signal.SIGALRM, onalarm)
        self.left = signal.getitimer(signal.ITIMER_REAL)[0]
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, self.left or 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def call(fn, *a, **k):
    """Run code under test; returns ("ok", value) or ("exc", ExceptionName, text).
    Anything it raises is an observation, not an error of the harness."""
    try:
        return ("ok", fn(*a, **k))
    except (CaseTimeout, FoundEnough):
        raise
    except RecursionError as e:
        return ("exc", "RecursionError", str(e)[:200])
    except SystemExit as e:
        return ("exc", "SystemExit", str(e.code))
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        return ("exc", type(e).__name__, str(e)[:300])


_FN = {}


def _run_item(args):
    modname, fname, item, limit = args
    sh = Shard()
    sh.item = item
    fn = getattr(sys.modules[modname], fname)
    try:
        with time_limit(limit):
            fn(sh, item)
    except FoundEnough:
        pass
    except CaseTimeout:
        tb = traceback.format_exc(limit=-6)
        sh.violations.append(
            {
                "what": "no termination within %ss" % limit,
                "key": "timeout",
                "detail": {"traceback": tb[-2000:]},
            }
        )
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        in_repo = any(os.path.abspath(f.filename).startswith(REPO + os.sep) for f in tb)
        txt = traceback.format_exc()[-3000:]
        # an exception which passed through the code under test, or one raised while
        # looking at a value it returned, is an observation about that code
        if in_repo or not isinstance(e, (ImportError, HarnessError)):
            sh.violations.append(
                {
                    "what": "unexpected %s in code under test: %s" % (type(e).__name__, str(e)[:200]),
                    "key": "exception:" + type(e).__name__,
                    "detail": {"traceback": txt},
                }
            )
        else:
            return {"harness_error": txt, "item": item}
    return {
        "c": sh.c,
        "samples": sh.samples,
        "violations": sh.violations,
        "item": item,
        "fn": fname,
        "out": sh.out,
    }


def _run_batch(batch):
    return [_run_item(a) for a in batch]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.c = {}
        self.samples = []
        self.violations = []
        self.exhaustive = True
        self.notes = []
        self.spaces = {}
        self.module = None
        self.jobs = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))
        self.t0 = time.time()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def explore(self, fn, items, limit=120, name=None, jobs=None):
        """Explore every item of the (finite) list `items` with fn."""
        items = list(items)
        if not self.thorough:
            limit = min(limit, 240)
        jobs = min(jobs or self.jobs, max(1, len(items)))
        args = [(self.module.__name__, fn.__name__, it, limit) for it in items]
        t = time.time()
        self._out = []
        if jobs == 1:
            results = map(_run_item, args)
            self._merge(fn, results, name)
        else:
            chunk = max(1, min(16, len(args) // (jobs * 8)))
            with multiprocessing.get_context("fork").Pool(jobs) as pool:
                batches = [args[i : i + chunk] for i in range(0, len(args), chunk)]
                self._merge(fn, self._results(pool.imap_unordered(_run_batch, batches), (limit + 5) * chunk + 60), name)
        sp = self.spaces.setdefault(name or fn.__name__, {"parts": 0, "wall_s": 0})
        sp["parts"] += len(items)
        sp["wall_s"] = round(sp["wall_s"] + time.time() - t, 1)
        if self.fresh():
            self.exhaustive = False
            raise StopExploring()
        return self._out

    def fresh(self):
        return [v for v in self.violations if v["key"] not in known_keys()]

    @staticmethod
    def _results(it, wait):
        while True:
            try:
                yield from it.next(timeout=wait)
            except StopIteration:
                return
            except multiprocessing.TimeoutError:
                # a worker process has died without a result
                yield {"harness_error": "no result within %d s" % wait, "item": None}
                return

    def _merge(self, fn, results, name):
        errs = []
        for r in results:
            if "harness_error" in r:
                errs.append(r)
                continue
            for k, v in r["c"].items():
                self.c[k] = self.c.get(k, 0) + v
            for s in r["samples"]:
                if len(self.samples) < 12 and sum(
                    1 for x in self.samples if x.get("space") == (name or fn.__name__)
                ) < 3:
                    self.samples.append({"space": name or fn.__name__, "case": s})
            self._out.extend(r["out"])
            for v in r["violations"]:
                v["fn"], v["item"] = r["fn"], r["item"]
                self.violations.append(v)
            fresh = self.fresh()
            if len(fresh) >= 40 or any(v["key"] == "timeout" for v in fresh):
                break
        if errs:
            sys.stderr.write("HARNESS ERROR (%d parts), first:\n%s\n" % (len(errs), errs[0]["harness_error"]))
            self.harness_error = errs[0]
            if all(v["key"] in known_keys() for v in self.violations):
                raise SystemExit(2)


_KNOWN_KEYS = None


def known_keys():
    global _KNOWN_KEYS
    if _KNOWN_KEYS is None:
        _KNOWN_KEYS = {e["key"] for e in load_known(None)}
    return _KNOWN_KEYS


def load_known(prop):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in data.get("findings", []) if prop is None or e["property"] == prop]


def prepare_environment():
    """Deterministic, quiet, contained environment for the code under test."""
    sys.dont_write_bytecode = True
    warnings.filterwarnings("ignore")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("MKL_NUM_THREADS", "1")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["NO_COLOR"] = "1"
    os.environ["COLUMNS"] = "200"
    os.environ["TERM"] = "dumb"
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    os.environ.setdefault("TZ", "UTC")


_SCRATCH = None


def scratch_root():
    """A private scratch directory, removed at exit of the main process."""
    global _SCRATCH
    if _SCRATCH is None:
        _SCRATCH = tempfile.mkdtemp(prefix="verif_causy_")
        pid = os.getpid()

        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_SCRATCH, ignore_errors=True)

        atexit.register(rm)
    return _SCRATCH


@contextlib.contextmanager
def scratch():
    """a scratch directory that is removed at the end"""
    d = tempfile.mkdtemp(dir=scratch_root())
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def scratch_dir():
    return tempfile.mkdtemp(dir=scratch_root())


def main(argv):
    prepare_environment()
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scratch_root()

    modname = None
    for f in sorted(os.listdir(os.path.join(VERIF, "checks"))):
        if f.lower().startswith(prop.lower() + "_") and f.endswith(".py"):
            modname = "checks." + f[:-3]
    if modname is None:
        print("unknown property", prop)
        return 2

    import logging

    logging.disable(logging.CRITICAL)
    import torch

    torch.set_num_threads(1)
    from lib import stubs

    stubs.install()
    mod = importlib.import_module(modname)

    ctx = Ctx(prop, tier, seed)
    ctx.module = mod
    assert os.path.abspath(sys.modules["causy"].__file__).startswith(REPO + os.sep), "not testing " + REPO

    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            rep = json.load(f)
        r = _run_item((mod.__name__, rep["fn"], rep["item"], 600))
        print(json.dumps(r, indent=1, default=repr))
        return 1 if r.get("violations") else 0

    try:
        mod.run(ctx)
    except StopExploring:
        pass

    known = load_known(prop)
    printed = set()
    fresh = []
    for v in ctx.violations:
        hit = next((k for k in known if k["key"] == v["key"]), None)
        if hit:
            if hit["key"] not in printed:
                printed.add(hit["key"])
                print("KNOWN-FINDING: property=%s %s" % (prop, hit["what"]))
        else:
            fresh.append(v)

    os.makedirs(REPLAYS, exist_ok=True)
    for f in os.listdir(REPLAYS):
        if f.startswith(prop + "_"):
            os.unlink(os.path.join(REPLAYS, f))
    cov = dict(ctx.c)
    level = mod.LEVEL
    cov.setdefault("states", 0) if level == "model_checking" else None
    cov["samples"] = ctx.samples
    cov["exhaustive"] = ctx.exhaustive
    cov["bounds"] = getattr(mod, "BOUNDS", {}).get(tier, "")
    cov["spaces"] = ctx.spaces
    if level in ("exploration", "fault_enumeration"):
        cov.setdefault("rule", getattr(mod, "RULE", ""))
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, prop + ".json.tmp%d" % os.getpid())
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(EVIDENCE, prop + ".json"))

    for i, v in enumerate(fresh[:MAX_REPORTED]):
        path = os.path.join(REPLAYS, "%s_%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump({"property": prop, **v}, f, indent=1, default=repr)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s | %s" % (v["what"], json.dumps(v["detail"], default=repr)[:400]))
    summary = {k: v for k, v in ctx.c.items()}
    print(
        "%s %s: %s (%s) in %.1fs"
        % (prop, tier, "HELD" if not fresh else "%d violation(s)" % len(fresh), summary, time.time() - ctx.t0)
    )
    return 1 if fresh else 0
