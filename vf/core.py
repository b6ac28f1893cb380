"""Execution of the cases of a property: workers, watchdog, counters, verdicts, evidence, replay files."""
import collections
import importlib
import json
import logging
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import errno

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GUARD = "WELL_ID_DLISWRITER_VERIF"
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_CPU_SECONDS = int(os.environ.get("VERIF_CASE_CPU", "90"))
N_WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
MAX_VIOLATIONS_PER_WORKER = 4
TIME_BUDGET = int(os.environ.get("VERIF_BUDGET", "720"))        # seconds; checks are given 900

ZONES = ["UTC0", "UTC0", "NST3:30NDT,M3.2.0,M11.1.0", "IST-5:30", "XYZ12", "CET-1CEST,M3.5.0,M10.5.0/3", "UTC0",
         "NPT-5:45"]


class Violation(Exception):
    """The property was observed to be broken. mechanism: stable key of what went wrong."""

    def __init__(self, mechanism, msg):
        super().__init__(f"{mechanism}: {msg}")
        self.mechanism, self.msg = mechanism, msg


class Inconclusive(Exception):
    """The case could not be decided (environment)."""


class CaseTimeout(BaseException):
    pass


def import_library():
    """Import dliswriter from the current working tree of the repository, never from stale bytecode."""
    import numpy, h5py, progressbar  # noqa: F401  (compiled normally)
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), f"vf-nocache-{os.getpid()}")
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, "src")
    sys.path.insert(0, src)
    import dliswriter
    where = os.path.realpath(dliswriter.__file__)
    if not where.startswith(os.path.realpath(src) + os.sep):
        raise RuntimeError(f"dliswriter imported from {where} instead of {src}")
    import dliswriter.utils.enums  # noqa: F401
    import dliswriter.logical_record.eflr_types  # noqa: F401
    sys.pycache_prefix = None
    return dliswriter


class Ctx:
    """Context of one worker; handed to the cases."""

    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.counts = collections.Counter()
        self.keys = set()
        self.samples = []
        self.case = None
        self.rng = None
        self._file_no = 0

    def count(self, name, n=1):
        self.counts[name] += n

    def distinct(self, key):
        """Register a distinct non-trivial case (any hashable)."""
        self.keys.add(hash_key(key))

    def sample(self, text, every=1):
        if len(self.samples) < 3:
            self.samples.append(text if isinstance(text, str) else repr(text))

    def path(self, suffix=".dlis"):
        self._file_no += 1
        return os.path.join(self.scratch, f"f{self._file_no}{suffix}")

    def begin(self, case):
        self.case = case
        self.rng = random.Random(f"{self.prop}:{self.seed}:{json.dumps(case)}")
        zone = ZONES[random.Random(f"tz:{self.seed}:{json.dumps(case)}").randrange(len(ZONES))]
        os.environ["TZ"] = zone
        time.tzset()
        self.zone = zone


def hash_key(key):
    import hashlib
    return hashlib.blake2b(repr(key).encode(), digest_size=8).digest()


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(module, ctx, case):
    """Run one case. Returns None or (mechanism, message, trace)."""
    ctx.begin(case)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS)
    try:
        module.run_case(case, ctx)
        return None
    except Violation as e:
        return e.mechanism, e.msg, traceback.format_exc(limit=-6)
    except Inconclusive:
        raise
    except CaseTimeout:
        return "nontermination", f"case used more than {CASE_CPU_SECONDS} s of CPU time", traceback.format_exc(limit=-8)
    except OSError as e:
        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM, errno.EDQUOT):
            raise Inconclusive(repr(e))
        return "unexpected." + type(e).__name__, repr(e), traceback.format_exc(limit=-8)
    except Exception as e:
        mech = getattr(e, "rule", None) or "unexpected." + type(e).__name__
        return mech, str(e) or repr(e), traceback.format_exc(limit=-8)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        clean(ctx.scratch)


def clean(scratch):
    for e in os.scandir(scratch):
        try:
            if e.is_dir(follow_symlinks=False):
                shutil.rmtree(e.path, ignore_errors=True)
            else:
                os.unlink(e.path)
        except OSError:
            pass


def _worker(module_name, prop, tier, seed, cases, scratch, out):
    # runs in a forked child; writes its result as JSON lines
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    os.dup2(devnull, 1)
    logging.getLogger().addHandler(logging.NullHandler())
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.makedirs(scratch, exist_ok=True)
    module = importlib.import_module(module_name)
    ctx = Ctx(prop, tier, seed, scratch)
    started = time.monotonic()
    res = {"violations": [], "done": 0, "inconclusive": None, "error": None}
    try:
        if hasattr(module, "setup_worker"):
            module.setup_worker(ctx)
        for i, case in enumerate(cases):
            if time.monotonic() - started > TIME_BUDGET:     # a slow machine: the rest (in random order) is left out and reported
                break
            v = run_one(module, ctx, case)
            res["done"] += 1
            if v is not None:
                res["violations"].append({"case": case, "mechanism": v[0], "message": v[1][:3000], "trace": v[2][-4000:],
                                          "before": cases[max(0, i - 400):i], "zone": ctx.zone})
                if v[0] == "nontermination" or len(res["violations"]) >= MAX_VIOLATIONS_PER_WORKER:
                    break
        if hasattr(module, "finish_worker"):
            module.finish_worker(ctx)
    except Inconclusive as e:
        res["inconclusive"] = str(e)
    except BaseException:
        res["error"] = traceback.format_exc()
    res["counts"] = dict(ctx.counts)
    res["keys"] = [k.hex() for k in ctx.keys]
    res["samples"] = ctx.samples
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(out + ".tmp", out)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            return json.load(f).get("findings", [])
    except FileNotFoundError:
        return []


def check(prop, tier, seed):
    t0 = time.time()
    import_library()
    module_name = f"vf.props.{prop.lower()}"
    module = importlib.import_module(module_name)
    cases = module.plan(tier, seed)
    cases = json.loads(json.dumps(cases))
    random.Random(f"order:{seed}").shuffle(cases)
    base = "/dev/shm" if os.path.isdir("/dev/shm") and shutil.disk_usage("/dev/shm").free > (4 << 30) else None
    root = tempfile.mkdtemp(prefix=f"vf-{prop}-", dir=base)
    known = [k for k in load_known() if k["property"] == prop]
    results = []
    lost = 0
    try:
        procs = []
        n_workers = min(N_WORKERS, max(1, len(cases)))
        mpctx = mp.get_context("fork")
        for w in range(n_workers):
            out = os.path.join(root, f"w{w}.json")
            pr = mpctx.Process(target=_worker, args=(module_name, prop, tier, seed, cases[w::n_workers],
                                                     os.path.join(root, f"s{w}"), out))
            pr.start()
            procs.append((pr, out, w))
        for pr, out, w in procs:
            pr.join()
            if os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            else:
                lost += 1
    finally:
        for pr, out, w in procs:
            if pr.is_alive():
                pr.kill()
        shutil.rmtree(root, ignore_errors=True)

    counts = collections.Counter()
    keys, samples, violations, problems = set(), [], [], []
    done = 0
    for r in results:
        counts.update(r["counts"])
        keys.update(r["keys"])
        samples.extend(r["samples"][:1] if len(results) > 3 else r["samples"])
        violations.extend(r["violations"])
        done += r["done"]
        if r["error"]:
            problems.append("worker error:\n" + r["error"])
        if r["inconclusive"]:
            problems.append("inconclusive: " + r["inconclusive"])
    if lost:
        problems.append(f"{lost} worker(s) ended without a result")

    new, listed = [], []
    for v in violations:
        (listed if any(v["mechanism"] == k["mechanism"] for k in known) else new).append(v)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")

    minimum = getattr(module, "MINIMUM", {})
    if not new and not problems:
        short = {k: (counts.get(k, 0), m) for k, m in minimum.items() if counts.get(k, 0) < m}
        if short:
            problems.append(f"deciding monitor not reached often enough: {short}")

    counts = dict(sorted(counts.items()))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(module, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": int(counts.get("executions", done)),
            "distinct_nontrivial": len(keys),
            "rule": module.RULE,
            "samples": [s[:1500] for s in samples[:4]] or ["(none)"],
            "cases_run": done, "cases_planned": len(cases), "observed": counts,
            "hooks_active": bool(os.environ.get(GUARD) == "1"),
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    if new:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        seen = collections.Counter()
        for i, v in enumerate(new):
            seen[v["mechanism"]] += 1
            if seen[v["mechanism"]] > 3:
                continue
            path = os.path.join(d, f"{prop}-{tier}-{seed}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, **v}, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"   case {json.dumps(v['case'])}: {v['mechanism']}: {v['message'][:600]}")
        print(f"{prop}: {len(new)} violation(s) in {done} cases, {ev['wall_s']} s")
        return 1
    if problems:
        for p in problems:
            print(f"INCONCLUSIVE property={prop} {p}")
        return 2
    print(f"{prop}: held on {ev['coverage']['evaluations']} executions, {len(keys)} distinct, {done} cases, "
          f"{ev['wall_s']} s; observed {json.dumps(counts)}")
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    import_library()
    module = importlib.import_module(f"vf.props.{r['property'].lower()}")
    logging.getLogger().addHandler(logging.NullHandler())
    root = tempfile.mkdtemp(prefix="vf-replay-")
    try:
        for history in ([], r.get("before", [])):
            ctx = Ctx(r["property"], r["tier"], r["seed"], root)
            if hasattr(module, "setup_worker"):
                module.setup_worker(ctx)
            for case in history:
                run_one(module, ctx, case)
            v = run_one(module, ctx, r["case"])
            if v:
                print(f"reproduced{' with the preceding cases of the worker' if history else ''}: {v[0]}: {v[1]}")
                print(v[2])
                return 1
            if not r.get("before"):
                break
        print("not reproduced")
        return 0
    finally:
        shutil.rmtree(root, ignore_errors=True)
