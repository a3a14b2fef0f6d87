"""
Small runner around Hypothesis.

A check module (checks/<ID>.py) defines

    PROPERTY = "P01"
    RULE = "how cases are made and what is non-trivial"
    SUBS = [Sub(name, strategy, func, quick, thorough), ...]

`func(case, ctx)` gets one generated, JSON-able case.  It raises Violation when
the code under test breaks the property; `ctx.note(...)` classifies the case and
`ctx.nontrivial()` marks it non-trivial.  Sub-checks are split in shards which
run in forked processes; every random choice derives from VERIF_SEED.

Outcome: exit 0 (held on everything explored), exit 1 + VIOLATION line, or any
other exit code (the harness itself is broken; nothing is claimed).
"""
import collections
import contextlib
import hashlib
import json
import logging
import multiprocessing
import multiprocessing.connection
import os
import re
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
STANDINS = os.path.join(VERIF, "standins")


class Violation(AssertionError):
    """the property is broken for this case"""


class HarnessError(Exception):
    """something is wrong with the harness: no verdict"""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Sub:
    def __init__(self, name, strategy, func, quick, thorough=None, shards=None,
                 setup=None):
        self.name = name
        self.strategy = strategy
        self.func = func
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick*20
        self.shards = shards
        self.setup = setup


class Finding:
    """a genuine defect of the unchanged tree that is recorded, not repaired

    probe() returns a string saying what fails, or None if it does not fail any
    more.  `key` must be listed in known_findings.jsonl.
    """
    def __init__(self, key, probe):
        self.key = key
        self.probe = probe


class Ctx:
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.hashes = set()
        self.labels = collections.Counter()
        self.samples = []
        self._case = None
        self._counted = True

    def start(self, case):
        self._case = case
        self._marked = False
        self._labels = set()
        self.evaluations += 1

    def nontrivial(self):
        if self._marked:
            return
        self._marked = True
        txt = json.dumps(self._case, sort_keys=True, default=repr)
        h = hashlib.sha1(txt.encode()).hexdigest()[:16]
        if h not in self.hashes:
            self.hashes.add(h)
            if len(self.samples) < 2 and len(txt) < 4000:
                self.samples.append(json.loads(txt))

    def note(self, *labels):
        for label in labels:
            if label not in self._labels:
                self._labels.add(label)
                self.labels[label] += 1


def repo_frame(tb):
    """innermost frame of the traceback that lies in the code under test"""
    found = None
    for fr in traceback.extract_tb(tb):
        fn = os.path.abspath(fr.filename)
        if fn.startswith(os.path.join(REPO, "metadetect") + os.sep):
            found = fr
    return found


def classify(exc):
    """violation or harness error?

    An exception escaping from the code under test on a legal input is a
    violation; one raised by the harness, or caused by a hole in a stand-in,
    is not.
    """
    if isinstance(exc, Violation):
        return "violation"
    if isinstance(exc, HarnessError):
        return "error"
    if isinstance(exc, MemoryError):
        return "error"
    fr = repo_frame(exc.__traceback__)
    if fr is None:
        # raised by the check itself: what came back cannot even be looked at,
        # unless a name or signature changed that the check uses
        if isinstance(exc, (ImportError, NotImplementedError, NameError, OSError)):
            return "error"
        if isinstance(exc, AttributeError) and isinstance(
                getattr(exc, "obj", None), (type(os), type)):
            return "error"
        if isinstance(exc, TypeError) and re.search(
                "unexpected keyword|required positional|required keyword|"
                "positional argument", str(exc)):
            return "error"
        last = traceback.extract_tb(exc.__traceback__)[-1].filename
        if "hypothesis" in last:
            return "error"
        return "violation"
    if isinstance(exc, (ImportError, NotImplementedError)):
        return "error"
    if isinstance(exc, AttributeError):
        obj = getattr(exc, "obj", None)
        mod = getattr(type(obj), "__module__", "") or ""
        if mod == "module" or isinstance(obj, type(os)):
            mod = getattr(obj, "__name__", "")
        elif isinstance(obj, type):
            mod = obj.__module__
        # an attribute that is there but has no value is not a hole
        known = hasattr(type(obj), (getattr(exc, "name", None) or "?").lstrip("_"))
        if not known and mod.split(".")[0] in (
                "ngmix", "meds", "sxdes", "lsst", "__main__", "checks", "lib", "common"):
            return "error"
    if isinstance(exc, TypeError) and "unexpected keyword" in str(exc):
        # a stand-in that lacks a keyword of the real package
        last = traceback.extract_tb(exc.__traceback__)[-1]
        if "standins" in str(exc) or "standins" in last.filename:
            return "error"
    return "violation"


SHRINK_BUDGET = 60.0
FAST = bool(os.environ.get("VERIF_FAST"))     # development: first failure, not shrunk
CASE_TIMEOUT = 100      # seconds; cases take a second at most


class TooLong(Exception):
    """a case does not end"""


def _too_long(*a):
    raise TooLong("no result after %d s" % CASE_TIMEOUT)


class EndShrinking(KeyboardInterrupt):
    """enough; hypothesis lets this one through"""


def run_sub(args):
    modname, subname, shard, n, seed, (budget, end), casefile = args
    import importlib
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    signal.signal(signal.SIGALRM, _too_long)
    mod = importlib.import_module(modname)
    sub = [s for s in mod.SUBS if s.name == subname][0]
    ctx = Ctx()
    state = {"best": None, "exc": None, "t_fail": None, "kind": None}
    t0 = time.time()

    def body(case):
        now = time.time()
        if state["t_fail"] is None:
            if now - t0 > budget or now > end:
                ctx.skipped += 1
                return
        elif now - state["t_fail"] > SHRINK_BUDGET:
            raise EndShrinking
        if state["t_fail"] is None:
            ctx.start(case)
            c = ctx
        else:
            c = Ctx()
            c.start(case)
        with open(casefile, "w") as f:
            json.dump(case, f, default=repr)
        try:
            signal.alarm(CASE_TIMEOUT)
            try:
                sub.func(case, c)
            finally:
                signal.alarm(0)
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except Exception as e:
            if state["t_fail"] is None:
                state["t_fail"] = time.time()
            state["best"] = case
            state["kind"] = classify(e)
            state["exc"] = "".join(traceback.format_exception(e))[-6000:]
            state["msg"] = "%s: %s" % (type(e).__name__, str(e)[:1500])
            raise

    test = given(sub.strategy)(body)
    test = settings(
        max_examples=n, deadline=None, database=None,
        suppress_health_check=list(HealthCheck), print_blob=False,
        phases=[Phase.explicit, Phase.generate] + ([] if FAST else [Phase.shrink]),
        report_multiple_bugs=False,
    )(test)
    test = hypothesis.seed(seed*1000003 + shard*7919 + _h(subname))(test)
    out = {"sub": subname, "shard": shard}
    try:
        with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
            test()
    except (Exception, EndShrinking) as e:
        if state["best"] is None:
            out["error"] = "".join(traceback.format_exception(e))[-4000:]
        else:
            out["case"] = state["best"]
            out["kind"] = state["kind"]
            out["exc"] = state["exc"]
            out["msg"] = state["msg"]
    out.update(
        evaluations=ctx.evaluations, hashes=sorted(ctx.hashes), skipped=ctx.skipped,
        labels=dict(ctx.labels), samples=ctx.samples, wall=time.time()-t0,
    )
    return out


def _worker(conn, args):
    conn.send(run_sub(args))
    conn.close()


CRASHES = [signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL]


def run_jobs(jobs, ncpu):
    """one process per job; a process that crashes or hangs is a result, too"""
    mp = multiprocessing.get_context("fork")
    todo, running, results = list(jobs)[::-1], [], []
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        while todo or running:
            while todo and len(running) < ncpu:
                job = todo.pop()
                casefile = os.path.join(tmp, "%s-%d" % (job[1], job[2]))
                open(casefile, "w").close()
                here, there = mp.Pipe(False)
                p = mp.Process(target=_worker, args=(there, job + (casefile,)))
                p.start()
                there.close()
                running.append((p, here, job, casefile))
            multiprocessing.connection.wait(
                [x for r in running for x in (r[1], r[0].sentinel)], timeout=5)
            left = []
            for p, conn, job, casefile in running:
                r = hung = None
                if conn.poll():
                    try:
                        r = conn.recv()
                    except EOFError:
                        pass
                    p.join()
                elif p.is_alive():
                    hung = time.time() - os.path.getmtime(casefile)
                    if hung < CASE_TIMEOUT + 60 + SHRINK_BUDGET:
                        left.append((p, conn, job, casefile))
                        continue
                    p.kill()
                    p.join()
                if r is None:
                    with open(casefile) as f:
                        txt = f.read()
                    r = {"sub": job[1], "shard": job[2], "evaluations": 0, "hashes": [],
                         "skipped": 0, "labels": {}, "samples": [], "wall": 0.0}
                    what = "the process hangs" if hung else (
                        "the process ends with exit code %s" % p.exitcode)
                    if txt and (hung or -(p.exitcode or 0) in CRASHES):
                        r.update(case=json.loads(txt), kind="violation", msg=what, exc="")
                    else:
                        r["error"] = what
                conn.close()
                results.append(r)
                if FAST and r.get("kind") == "violation":
                    todo = []
                    for p, conn, job, casefile in running:
                        if p.is_alive():
                            p.kill()
                            p.join()
                    left = []
                    break
            running = left
    return results


def _h(s):
    return int(hashlib.sha1(s.encode()).hexdigest()[:6], 16)


def load_findings(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get("property") == prop:
                        out.append(d)
    return out


def main(mod, argv):
    prop = mod.PROPERTY
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()

    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            d = json.load(f)
        return replay(mod, prop, d)

    import metadetect  # noqa: an import failure is a harness error
    if not os.path.abspath(metadetect.__file__).startswith(REPO + os.sep):
        raise HarnessError("metadetect comes from %s" % metadetect.__file__)

    ncpu = min(8, os.cpu_count() or 1)
    if "--jobs" in argv:
        ncpu = int(argv[argv.index("--jobs") + 1])
    only = argv[argv.index("--sub") + 1] if "--sub" in argv else None
    budget = 240.0 if tier == "quick" else 3600.0
    # on a slow machine a check does less rather than nothing
    end = t0 + (560.0 if tier == "quick" else 6*3600.0)

    jobs = []
    subs = [s for s in mod.SUBS if only is None or s.name == only]
    for s in subs:
        n = s.quick if tier == "quick" else s.thorough
        # the cases do not depend on the number of processes
        shards = s.shards or max(1, min(8, n // 8))
        if tier == "thorough":
            shards = max(shards, 8)
        per = -(-n//shards)
        for i in range(shards):
            jobs.append((mod.__name__, s.name, i, per, seed, (budget, end)))
    # longest first would need timings; interleave the subs instead
    jobs.sort(key=lambda j: (j[2], j[1]))

    for s in subs:
        if s.setup is not None:
            s.setup()

    results = run_jobs(jobs, ncpu)
    results.sort(key=lambda r: (r["sub"], r["shard"]))

    # recorded findings
    known = {d["key"]: d for d in load_findings(prop) if d["status"] == "finding"}
    for f in getattr(mod, "FINDINGS", []):
        if f.key not in known:
            continue
        what = f.probe()
        if what is not None:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, f.key, what))

    errors = [r for r in results if "error" in r or r.get("kind") == "error"]
    bad = [r for r in results if r.get("kind") == "violation"]

    hashes, labels, samples = set(), collections.Counter(), []
    by_sub = {}
    for r in results:
        hashes.update(r["sub"] + h for h in r["hashes"])
        for k, v in r["labels"].items():
            labels[r["sub"] + ":" + k] += v
        if sum(1 for s in samples if s["sub"] == r["sub"]) < 1:
            samples += [{"sub": r["sub"], "case": s} for s in r["samples"][:1]]
        b = by_sub.setdefault(
            r["sub"], {"evaluations": 0, "nontrivial": set(), "skipped": 0,
                       "wall": 0.0})
        b["evaluations"] += r["evaluations"]
        b["nontrivial"].update(r["hashes"])
        b["skipped"] += r["skipped"]
        b["wall"] = round(b["wall"] + r["wall"], 2)
    for b in by_sub.values():
        b["distinct_nontrivial"] = len(b.pop("nontrivial"))

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(hashes),
            "rule": mod.RULE,
            "samples": samples,
            "by_sub": by_sub,
            "labels": dict(sorted(labels.items())),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)

    print("%s: %d cases, %d distinct non-trivial, %.1f s" % (
        prop, ev["coverage"]["evaluations"], len(hashes), ev["wall_s"]))
    for name, b in sorted(by_sub.items()):
        print("   %-28s %s" % (name, b))
        if "-v" in argv:
            for k, v in sorted(labels.items()):
                if k.startswith(name + ":"):
                    print("        ", k, v)

    if bad:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        seen = set()
        for r in bad:
            if r["sub"] in seen:
                continue
            seen.add(r["sub"])
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, r["sub"]))
            with open(path, "w") as f:
                json.dump({"property": prop, "sub": r["sub"], "case": r["case"],
                           "message": r["msg"], "traceback": r["exc"]},
                          f, indent=1, default=repr)
            print("  [%s] %s" % (r["sub"], r["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for r in errors[:1]:
            print("HARNESS ERROR in %s:\n%s\ncase: %s" % (
                r["sub"], r.get("error") or r.get("exc"),
                json.dumps(r.get("case"), default=repr)[:2000]))
        return 3
    for name, b in by_sub.items():
        if b["distinct_nontrivial"] == 0:
            print("HARNESS ERROR: no non-trivial case in sub-check %s" % name)
            return 3
    return 0


def replay(mod, prop, d):
    sub = [s for s in mod.SUBS if s.name == d["sub"]][0]
    ctx = Ctx()
    ctx.start(d["case"])
    try:
        sub.func(d["case"], ctx)
    except Exception as e:
        traceback.print_exc()
        if classify(e) == "violation":
            print("VIOLATION property=%s replay=%s" % (prop, "(replayed)"))
            return 1
        return 3
    print("replay passes")
    return 0
