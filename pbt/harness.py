"""Runs the generated-input checks of one property.

A check is a list of sub-checks.  Each has a Hypothesis strategy that yields
plain JSON-able data (a "spec": an input or a whole history of operations), and
a function that exercises the real code with it and raises when the property
does not hold.  Specs are the replay format: a replay file needs no Hypothesis.

Work is split into shards (sub-check x seed), each run in a freshly forked
process, so no state leaks from one shard into another.
"""
import collections
import hashlib
import json
import locale
import os
import resource
import shutil
import signal
import sys
import threading
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", VERIF)       # where evidence and replays go
REPO = os.environ.get("VERIF_REPO", "/repo")
SLOW_LOG = os.environ.get("VERIF_SLOW")     # slow cases are noted in this file (for development)
CASE_CPU_SECONDS = 100
SHRINK_SECONDS = 40
MEMORY = 6 << 30


class Violation(Exception):
    """The property does not hold for a spec."""


class Known(Exception):
    """A listed known finding was met (see KNOWN_FINDINGS.txt)."""


class Sub:
    """One generated-input check.

    :param strategy: Hypothesis strategy, or function returning one.
    :param check: function(spec) raising AssertionError (or anything else) when
      the property is broken; it may return a list of class labels.
    :param nontrivial: function(spec) -> bool
    :param quick, thorough: number of examples in total over all shards.
    """
    def __init__(self, name, strategy, check, nontrivial, rule, quick,
                 thorough=None, shards=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.nontrivial = nontrivial
        self.rule = rule
        self.quick = quick
        self.thorough = thorough or quick * 25
        self.shards = shards


def digest(spec):
    text = json.dumps(spec, sort_keys=True, ensure_ascii=True)
    return hashlib.sha1(text.encode()).digest()[:8]


def shorten(spec, limit=1500):
    text = json.dumps(spec, ensure_ascii=True)
    if len(text) <= limit:
        return spec
    return text[:limit] + "... (%d characters)" % len(text)


class Scratch:
    """Scratch directory of the running shard."""
    path = None
    counter = 0
    lock = threading.Lock()

    @classmethod
    def file(cls, name):
        """A fresh path with the given file name."""
        with cls.lock:
            cls.counter += 1
            folder = os.path.join(cls.path, str(cls.counter))
        os.mkdir(folder)
        return os.path.join(folder, name)

    @classmethod
    def clear(cls):
        for entry in os.listdir(cls.path):
            shutil.rmtree(os.path.join(cls.path, entry), ignore_errors=True)


def _quiet(seed):
    """Standard output is thrown away; which characters it takes varies with the shard."""
    sys.stdout = open(os.devnull, "w", encoding=["utf-8", "ascii", "cp1252"][seed % 3])


class _Run:
    """Evaluates specs of one sub-check and keeps the counts."""
    def __init__(self, sub, result_path):
        self.sub = sub
        self.result_path = result_path
        self.evaluations = 0
        self.hashes = set()
        self.classes = collections.Counter()
        self.samples = []
        self.failure = None

    def evaluate(self, spec):
        self.evaluations += 1
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS)
        self.current = spec
        started = time.process_time()
        try:
            labels = self.sub.check(spec)
        except BaseException as error:
            signal.setitimer(signal.ITIMER_PROF, 0)
            if isinstance(error, (KeyboardInterrupt,)):
                raise
            if type(error).__module__.startswith("hypothesis"):
                raise
            self.failure = (spec, describe(error))
            raise Violation(str(error)[:300]) from None
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            Scratch.clear()
            if SLOW_LOG and time.process_time() - started > 2:
                with open(SLOW_LOG, "a") as file:
                    file.write("%s %.1f %s\n" % (self.sub.name, time.process_time() - started, json.dumps(spec)))
        if self.sub.nontrivial(spec):
            key = digest(spec)
            if key not in self.hashes:
                self.hashes.add(key)
                if len(self.samples) < 2 and len(self.hashes) % 7 == 1:
                    self.samples.append(shorten(spec))
            self.classes["nontrivial"] += 1
        for label in labels or ():
            self.classes[label] += 1

    def hung(self, *_):
        self.failure = (self.current, "no answer within %d s of CPU time" % CASE_CPU_SECONDS)
        self.write()
        os._exit(0)

    def write(self, error=None):
        out = {"sub": self.sub.name, "evaluations": self.evaluations,
               "hashes": [h.hex() for h in self.hashes], "classes": dict(self.classes),
               "samples": self.samples, "failure": self.failure, "error": error}
        temporary = self.result_path + ".tmp"
        with open(temporary, "w") as file:
            json.dump(out, file)
        os.rename(temporary, self.result_path)


def describe(error):
    frames = traceback.extract_tb(error.__traceback__)
    tail = ["%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name)
            for f in frames[-6:]]
    return "%s: %s [%s]" % (type(error).__name__, str(error)[:1500], " < ".join(reversed(tail)))


def _cover(path):
    """Notes which lines of the library are run (VERIF_COVER; to find out what checks reach)."""
    lines = set()
    monitoring = sys.monitoring
    root = os.path.join(os.path.realpath(REPO), "src") + os.sep

    def on_line(code, line):
        name = os.path.realpath(code.co_filename)
        if name.startswith(root):
            lines.add((name[len(root):], line))
        return monitoring.DISABLE
    monitoring.use_tool_id(3, "pbt")
    monitoring.register_callback(3, monitoring.events.LINE, on_line)
    monitoring.set_events(3, monitoring.events.LINE)

    def save():
        with open(path, "a") as file:
            for name, line in sorted(lines):
                file.write("%s:%d\n" % (name, line))
    return save


def _shard(sub, seed, examples, result_path, scratch):
    """Body of a forked worker."""
    cover = _cover(os.environ["VERIF_COVER"]) if os.environ.get("VERIF_COVER") else None
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    Scratch.path = scratch
    _quiet(seed)
    surroundings(seed)
    os.environ["HOME"] = scratch
    run = _Run(sub, result_path)
    signal.signal(signal.SIGPROF, run.hung)
    strategy = sub.strategy() if callable(sub.strategy) else sub.strategy
    try:
        @hypothesis.seed(seed)
        @settings(max_examples=examples, database=None, deadline=None,
                  phases=(Phase.generate,) if os.environ.get("VERIF_SHRINK") == "0" else (Phase.generate, Phase.shrink), report_multiple_bugs=False,
                  suppress_health_check=list(HealthCheck), print_blob=False)
        @given(strategy)
        def test(spec):
            run.evaluate(spec)
        test()
        error = None
    except Violation:
        error = None
    except Exception as exc:
        error = None if run.failure else describe(exc)
    run.write(error)
    if cover:
        cover()


ZONES = ["UTC", "EST5EDT,M3.2.0,M11.1.0", "<+0530>-5:30", "UTC", "<+13>-13", "<-0930>9:30", "UTC", "CET-1CEST,M3.5.0,M10.5.0/3"]


def surroundings(seed):
    """Results depend neither on the local time zone nor on the encoding of the locale: both vary with the shard."""
    os.environ["TZ"] = ZONES[seed % len(ZONES)]
    time.tzset()
    locale.setlocale(locale.LC_CTYPE, "C" if seed // len(ZONES) % 2 else "C.UTF-8")


def shard_seed(seed, name, index):
    text = "%d/%s/%d" % (seed, name, index)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:6], "big")


def plan(subs, tier, seed):
    """[(sub, shard seed, examples)], the same for the same seed and tier."""
    tasks = []
    for sub in subs:
        total = sub.quick if tier == "quick" else sub.thorough
        total = max(20, int(total * float(os.environ.get("VERIF_SCALE") or 1)))
        shards = sub.shards or max(1, min(8 if tier == "quick" else 64, total // 60))
        for index in range(shards):
            tasks.append((sub, shard_seed(seed, sub.name, index), -(-total // shards)))
    return tasks


def run_tasks(tasks, scratch, workers, budget):
    """Runs the shards; stops early once one has failed."""
    started = time.monotonic()
    waiting = list(enumerate(tasks))
    running = {}
    results = {}
    failed_at = None
    while waiting or running:
        now = time.monotonic()
        if failed_at is not None:
            waiting.clear()
            if now - failed_at > 5:
                for pid in running:
                    os.kill(pid, signal.SIGKILL)
        if budget and now - started > budget:
            waiting.clear()
        while waiting and len(running) < workers:
            index, (sub, seed, examples) = waiting.pop(0)
            folder = os.path.join(scratch, "s%d" % index)
            os.mkdir(folder)
            path = os.path.join(scratch, "r%d.json" % index)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    _shard(sub, seed, examples, path, folder)
                    os._exit(0)
                except BaseException:
                    traceback.print_exc()
                    os._exit(3)
            running[pid] = (index, path, folder)
        if not running:
            continue
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.01)
            continue
        if pid not in running:
            continue
        index, path, folder = running.pop(pid)
        shutil.rmtree(folder, ignore_errors=True)
        if os.path.exists(path):
            with open(path) as file:
                results[index] = json.load(file)
            if results[index]["failure"] and failed_at is None:
                failed_at = time.monotonic()
        elif failed_at is None:
            results[index] = {"sub": tasks[index][0].name, "failure": None, "evaluations": 0,
                              "hashes": [], "classes": {}, "samples": [],
                              "error": "worker ended with status %d" % status}
    return results


def load_known():
    """Known findings: lines 'KNOWN property=<id> sub=<sub-check> :: <what fails>'."""
    known = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as file:
            for line in file:
                if line.startswith("KNOWN property="):
                    head, what = line.rstrip("\n").split(" :: ", 1)
                    fields = dict(part.split("=", 1) for part in head.split()[1:])
                    known.setdefault(fields["property"], []).append((fields["id"], what))
    return known


def main(property_id, module, tier, seed, only=None):
    started = time.monotonic()
    subs = [s for s in module.SUBS if only is None or s.name == only]
    workers = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 4)
    budget = float(os.environ.get("VERIF_BUDGET", "0")) or (500 if tier == "quick" else 0)
    scratch = tempfile.mkdtemp(prefix="pbt_")
    tasks = plan(subs, tier, seed)
    try:
        results = run_tasks(tasks, scratch, workers, budget)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    per_sub = {}
    distinct = 0
    samples = []
    errors = []
    failure = None
    for sub in subs:
        mine = [(i, results[i]) for i in sorted(results) if results[i]["sub"] == sub.name]
        hashes = set()
        classes = collections.Counter()
        for index, result in mine:
            hashes.update(result["hashes"])
            classes.update(result["classes"])
            if result["error"]:
                errors.append("%s: %s" % (sub.name, result["error"]))
            if result["failure"] and failure is None:
                failure = (sub, tasks[index], result["failure"])
        got = [s for _, r in mine for s in r["samples"]][:2]
        samples.extend({"check": sub.name, "case": s} for s in got)
        count = sum(r["evaluations"] for _, r in mine)
        per_sub[sub.name] = {"evaluations": count, "distinct_nontrivial": len(hashes),
                             "rule": sub.rule, "classes": dict(sorted(classes.items()))}
        distinct += len(hashes)
        if not failure and not hashes:
            errors.append("%s: no non-trivial case was generated" % sub.name)

    # Known findings are exercised by the check itself; print what still fails.
    if failure is None and hasattr(module, "KNOWN"):
        listed = dict(load_known().get(property_id, []))
        for key, probe in module.KNOWN:
            if key not in listed:
                continue
            if probe():
                print("KNOWN-FINDING: property=%s %s" % (property_id, listed[key]))

    evidence = {
        "property": property_id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in per_sub.values()),
            "distinct_nontrivial": distinct,
            "rule": "; ".join("%s: %s" % (s.name, s.rule) for s in subs),
            "samples": samples,
            "checks": per_sub,
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - started, 2),
        "violations": 1 if failure else 0,
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", property_id + ".json"), "w") as file:
        json.dump(evidence, file, indent=1)

    if failure:
        sub, (_, shard, examples), (spec, message) = failure
        folder = os.path.join(OUT, "replays")
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, "%s-%s-%s.json" % (property_id, sub.name, digest(spec).hex()))
        with open(path, "w") as file:
            json.dump({"property": property_id, "check": sub.name, "spec": spec,
                       "message": message, "shard_seed": shard, "examples": examples}, file, indent=1)
        print("%s: %s" % (sub.name, message))
        print("case: %s" % json.dumps(shorten(spec, 3000)))
        print("VIOLATION property=%s replay=%s" % (property_id, os.path.relpath(path, OUT)))
        return 1
    if errors:
        for error in errors:
            print("ERROR " + error)
        return 2
    print("%s held: %d evaluations, %d distinct non-trivial cases, %.1f s" % (
        property_id, evidence["coverage"]["evaluations"], distinct, evidence["wall_s"]))
    return 0


def replay(module, path):
    """Runs the saved case alone; if it passes alone, the whole shard that found it."""
    with open(path) as file:
        saved = json.load(file)
    sub = {s.name: s for s in module.SUBS}[saved["check"]]
    Scratch.path = tempfile.mkdtemp(prefix="pbt_replay_")
    stdout = sys.stdout
    try:
        home, os.environ["HOME"] = os.environ.get("HOME"), Scratch.path
        _quiet(saved["shard_seed"])
        surroundings(saved["shard_seed"])
        try:
            sub.check(saved["spec"])
            message = None
        except Exception as error:
            message = describe(error)
        sys.stdout = stdout
        if message is None:
            task = (sub, saved["shard_seed"], saved["examples"])
            shard_scratch = os.path.join(Scratch.path, "shard")
            os.mkdir(shard_scratch)
            result = run_tasks([task], shard_scratch, 1, 0)[0]
            if result["failure"]:
                message = "only after the earlier cases of its shard: " + result["failure"][1]
    finally:
        sys.stdout = stdout
        shutil.rmtree(Scratch.path, ignore_errors=True)
    if message:
        print(message)
        print("VIOLATION property=%s replay=%s" % (saved["property"], path))
        return 1
    print("the saved case passes")
    return 0
