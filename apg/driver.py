"""Runs one property: generated cases in parallel workers, shrinking, replay
files, evidence, known findings."""

import hashlib
import json
import multiprocessing
import os
import shutil
import sys
import time
import traceback
import zlib

from hypothesis import HealthCheck, Phase, given, seed, settings
from hypothesis.internal.conjecture import providers

from . import run

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = 8
# Hypothesis also draws constants which it finds in local source files, that is
# in this folder and in the code under test: the cases of a seed have to be the
# same whatever the code under test looks like.
if hasattr(providers, "_get_local_constants") and hasattr(providers, "_local_constants"):
    providers._get_local_constants = lambda: providers._local_constants

SHRINK_S = {"quick": 40, "thorough": 120}
SOFT_S = {"quick": 240, "thorough": 3000}  # no new cases after this


class Violation(Exception):
    """The property does not hold for this case."""


class Skip(Exception):
    """The case is outside of the property's domain (counted as trivial)."""


class _Stop(BaseException):
    pass


class Info:
    def __init__(self, nontrivial, *labels):
        self.nontrivial = bool(nontrivial)
        self.labels = labels


class Property:
    """id; strategy(tier) of JSON-able cases; check(case) -> Info, raising
    Violation; show(case) -> short text for the evidence."""

    def __init__(
        self, pid, strategy, check, show, rule, cases, directed=(), level="exploration",
        assumptions=(), findings=None, needs=(),
    ):
        self.id = pid
        self.strategy = strategy
        self.check = check
        self.show = show
        self.rule = rule
        self.cases = cases  # {"quick": n, "thorough": n} over all workers
        self.directed = list(directed)
        self.level = level
        self.assumptions = list(assumptions)
        self.findings = findings or {}  # finding id -> callable: still fails?


def dumps(case):
    return json.dumps(case, sort_keys=True)


def _worker(prop, index, tier, base_seed, root, queue, stop, deadline):
    run.set_scratch_root(os.path.join(root, "w%d" % index))
    os.makedirs(run.scratch_root(), exist_ok=True)
    stats = {
        "evaluations": 0, "nontrivial": set(), "labels": {}, "samples": [],
        "failure": None, "error": None, "directed": 0, "cut": False,
    }
    first_failure = [None]

    def one(case):
        now = time.time()
        if first_failure[0] is not None and now - first_failure[0] > SHRINK_S[tier]:
            raise _Stop()
        if first_failure[0] is None and (stop.is_set() or now > deadline):
            stats["cut"] = now > deadline
            raise _Stop()
        stats["evaluations"] += 1
        try:
            info = prop.check(case)
        except Skip:
            stats["labels"]["skipped"] = stats["labels"].get("skipped", 0) + 1
            return
        except Violation as v:
            if first_failure[0] is None:
                first_failure[0] = time.time()
                stop.set()
            text = dumps(case)
            if stats["failure"] is None or len(text) <= len(stats["failure"][0]):
                stats["failure"] = (text, str(v))
            raise
        if first_failure[0] is not None:
            return
        for label in info.labels:
            stats["labels"][label] = stats["labels"].get(label, 0) + 1
        if info.nontrivial:
            digest = hashlib.sha1(dumps(case).encode()).hexdigest()[:16]
            if digest not in stats["nontrivial"]:
                stats["nontrivial"].add(digest)
                if len(stats["samples"]) < 2 and stats["evaluations"] > 3:
                    stats["samples"].append(prop.show(case))

    try:
        for i, case in enumerate(prop.directed):
            if i % WORKERS == index:
                stats["directed"] += 1
                try:
                    one(case)
                except Violation:
                    break
        if stats["failure"] is None and prop.strategy is not None:
            n = max(1, prop.cases[tier] // WORKERS)

            @seed(base_seed * 100003 + index * 7919 + zlib.crc32(prop.id.encode()) % 1000)
            @settings(
                max_examples=n, database=None, deadline=None, derandomize=False,
                phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck), print_blob=False,
            )
            @given(prop.strategy(tier))
            def test(case):
                one(case)

            test()
    except _Stop:
        pass
    except run.HarnessError as e:
        stats["error"] = "harness: %s" % e
    except Violation:
        pass
    except BaseException:
        if stats["failure"] is None:
            stats["error"] = traceback.format_exc()
    stats["nontrivial"] = sorted(stats["nontrivial"])
    queue.put((index, stats))


def _known_findings(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line:
                    e = json.loads(line)
                    if e.get("property") == pid and e.get("status") == "known":
                        out.append(e)
    return out


def run_property(prop, tier, base_seed):
    start = time.time()
    try:
        run.preload()
    except Exception:
        traceback.print_exc()
        print("check error: APG cannot be imported", file=sys.stderr)
        return 2
    root = run.scratch_root()
    queue = multiprocessing.Queue()
    stop = multiprocessing.Event()
    deadline = start + float(os.environ.get("APG_SOFT_S", SOFT_S[tier]))
    try:
        procs = []
        for i in range(WORKERS):
            p = multiprocessing.Process(
                target=_worker,
                args=(prop, i, tier, base_seed, root, queue, stop, deadline),
            )
            p.start()
            procs.append(p)
        results = {}
        limit = deadline + SHRINK_S[tier] + 240
        while len(results) < WORKERS and time.time() < limit:
            try:
                i, stats = queue.get(timeout=5)
                results[i] = stats
            except Exception:
                if not any(p.is_alive() for p in procs) and queue.empty():
                    break
        for p in procs:
            if p.is_alive() and len(results) < WORKERS:
                p.terminate()
            p.join(10)
        failure = None
        errors = []
        for i in sorted(results):
            f = results[i]["failure"]
            if f and (failure is None or len(f[0]) < len(failure[0])):
                failure = f
            if results[i]["error"]:
                errors.append("worker %d: %s" % (i, results[i]["error"]))
        missing = [i for i in range(WORKERS) if i not in results]
        if missing:
            errors.append("workers %s gave no result" % missing)
        known = []
        if failure is None and not errors:
            for e in _known_findings(prop.id):
                still = prop.findings.get(e["finding"])
                if still is None:
                    errors.append("known finding without a check: %s" % e["finding"])
                elif still():
                    known.append(e)
    finally:
        shutil.rmtree(root, ignore_errors=True)

    nontrivial = set()
    labels = {}
    samples = []
    for s in results.values():
        nontrivial.update(s["nontrivial"])
        samples.extend(s["samples"])
        for k, v in s["labels"].items():
            labels[k] = labels.get(k, 0) + v
    evidence = {
        "property": prop.id, "tier": tier, "seed": base_seed, "level": prop.level,
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in results.values()),
            "distinct_nontrivial": len(nontrivial),
            "rule": prop.rule,
            "samples": samples[:4],
            "directed_cases": sum(s["directed"] for s in results.values()),
            "labels": dict(sorted(labels.items())),
            "workers": len(results),
            "stopped_by_time": any(s["cut"] for s in results.values()),
            "known_findings_still_failing": [e["finding"] for e in known],
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - start, 2),
        "violations": 1 if failure else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    if failure:
        case, message = failure
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        name = "%s-%s.json" % (prop.id, hashlib.sha1(case.encode()).hexdigest()[:10])
        path = os.path.join(VERIF, "replays", name)
        case = json.loads(case)
        with open(path, "w", encoding="utf-8") as f:
            json.dump(
                {
                    "property": prop.id, "message": message,
                    "replay": "/opt/venv/bin/python check.py %s --replay replays/%s"
                    % (prop.id, name),
                    "shown": prop.show(case), "case": case,
                },
                f, indent=1,
            )
            f.write("\n")
        print(message)
        print(prop.show(case))
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    if errors:
        for e in errors:
            print("check error: %s" % e, file=sys.stderr)
        return 2
    for e in known:
        print("KNOWN-FINDING: property=%s %s" % (prop.id, e["what"]))
    print(
        "%s held: %d cases, %d distinct non-trivial, %.1f s"
        % (
            prop.id, evidence["coverage"]["evaluations"],
            evidence["coverage"]["distinct_nontrivial"], evidence["wall_s"],
        )
    )
    return 0


def replay(prop, path):
    run.preload()
    with open(path, encoding="utf-8") as f:
        case = json.load(f)["case"]
    root = run.scratch_root()
    try:
        prop.check(case)
    except Violation as v:
        print(v)
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    finally:
        shutil.rmtree(root, ignore_errors=True)
    print("%s holds for %s" % (prop.id, path))
    return 0
