"""Shared runner of the bounded exhaustive explorers.

A check is a module ``mc.checks.<id>`` (lower case) that defines

    LEVEL, TECHNIQUE   (strings)
    RULE               one sentence: how cases are made, what is non-trivial
    ASSUMPTIONS        list of strings
    def shards(tier)            -> list of JSON-able shard descriptions
    def run_shard(shard, rec)   -> explores one shard, reporting through `rec`
    def replay(case)            -> re-executes one recorded case, raises Violation

Everything that is enumerated is enumerated completely inside the bounds given
by ``shards(tier)``; VERIF_SEED is recorded but never changes what is explored.
"""

import contextlib
import hashlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.path.join(ROOT, "evidence")
REPLAYS = os.path.join(EVIDENCE, "replays")
KNOWN = os.path.join(ROOT, "known_findings.txt")

#: CPU seconds one single case may burn before it is called non-terminating
#: (cases take micro- to milliseconds; the limit counts CPU time of this
#: process only, so machine load cannot trip it).
CASE_CPU_LIMIT = 30.0

#: Wall seconds after which a case is called deadlocked (a blocked thread burns no CPU).
CASE_WALL_LIMIT = 240.0
#: Address space of one worker process: code that runs away ends in a MemoryError.
WORKER_MEMORY = 3500 * 1024 * 1024
#: When this many shards have failed the rest is not explored any more.
MAX_FAILED_SHARDS = 12

MAX_SAMPLES = 4
MAX_VIOLATIONS_PER_SHARD = 3


class Violation(Exception):
    """The property does not hold on the case being executed."""


class NonTermination(BaseException):
    """A case burned more than CASE_CPU_LIMIT of CPU time."""


def check(cond, *msg):
    if not cond:
        raise Violation(" ".join(m if isinstance(m, str) else repr(m) for m in msg))


def equal(got, want, what=""):
    if got != want:
        raise Violation("{}: got {!r}, expected {!r}".format(what, got, want))


class Recorder:
    """Counts what a shard explored and collects its violations."""

    def __init__(self, replaying=False):
        self.evaluations = 0
        self.states = set()
        self.nstates = 0
        self.transitions = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.notes = {}
        self.stop = False

    # -- running cases ----------------------------------------------------
    def run(self, case, func, *args):
        """Run ``func(*args)`` as one case; `case` is its JSON description.

        Any Violation, any exception of the code under test and any
        non-termination is recorded as a violation of this case. Returns the
        result of func or None.
        """
        self.evaluations += 1
        try:
            signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
            signal.setitimer(signal.ITIMER_REAL, CASE_WALL_LIMIT)
            try:
                return func(*args)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Violation as e:
            self.fail(case, str(e))
        except NonTermination:
            self.fail(case, "does not terminate (>{} CPU s or >{} s)".format(CASE_CPU_LIMIT, CASE_WALL_LIMIT))
            raise StopShard()   # the others would likely take as long
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            tb = traceback.format_exc(limit=-6)
            self.fail(case, "unexpected {}: {}\n{}".format(type(e).__name__, e, tb))

    def fail(self, case, message):
        self.violations.append((case, message))
        if len(self.violations) >= MAX_VIOLATIONS_PER_SHARD:
            raise StopShard()

    def state(self, key):
        """Record a visited state/configuration; True if it is new here."""
        h = hash(key)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def outcome(self, key):
        """Record an observed outcome (what the code produced)."""
        if len(self.outcomes) < 2000000:
            self.outcomes.add(hash(key))

    def sample(self, obj):
        if len(self.samples) < MAX_SAMPLES:
            self.samples.append(obj)

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n


class StopShard(Exception):
    """Enough violations in this shard."""


def _on_alarm(sig, frame):
    raise NonTermination()


def setup_process():
    """Make this process import parce from the repository's working tree."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    sys.setrecursionlimit(5000)
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.signal(signal.SIGALRM, _on_alarm)
    import parce
    real = os.path.realpath(os.path.dirname(parce.__file__))
    if real != os.path.realpath(os.path.join(REPO, "parce")):
        raise RuntimeError("parce imported from " + real)


def _load(pid):
    import importlib
    return importlib.import_module("mc.checks." + pid.lower())


def _init_worker():
    import resource
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    limit = WORKER_MEMORY if hard == resource.RLIM_INFINITY else min(hard, WORKER_MEMORY)
    resource.setrlimit(resource.RLIMIT_AS, (limit, hard))


def _worker(args):
    pid, index, shard = args
    rec = Recorder()
    t = time.time()
    try:
        mod = _load(pid)
        mod.run_shard(shard, rec)
    except StopShard:
        pass
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        rec.violations.append(({"shard": shard},
            "exploration aborted by {}: {}\n{}".format(type(e).__name__, e, traceback.format_exc(limit=-8))))
    return dict(index=index, evaluations=rec.evaluations,
        states=list(rec.states) if len(rec.states) < 3000000 else [], nstates=len(rec.states) + rec.nstates,
        transitions=rec.transitions, outcomes=list(rec.outcomes), samples=rec.samples,
        violations=rec.violations, notes=rec.notes, wall=time.time() - t)


def _serve(conn, todo):
    """The loop of a worker process: receives indices, sends results."""
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # PR_SET_PDEATHSIG: never outlive the parent
    except Exception:
        pass
    _init_worker()
    try:
        while True:
            i = conn.recv()
            if i is None:
                break
            conn.send(_worker(todo[i]))
    except (EOFError, OSError):
        pass
    sys.stdout.flush()
    os._exit(0)


def _parallel(todo, jobs, maxtasks=None):
    """Yield the result of _worker for every item, in any order.

    Not multiprocessing.Pool: that may hang when it is terminated, and for ever
    when a worker dies; here the shard of a dead worker is reported.
    """
    import multiprocessing
    from multiprocessing.connection import wait
    ctx = multiprocessing.get_context("fork")
    pending = list(range(len(todo)))[::-1]
    workers = {}    # conn: [process, index, number of tasks]

    def start():
        conn, other = ctx.Pipe()
        p = ctx.Process(target=_serve, args=(other, todo), daemon=True)
        p.start()
        other.close()
        i = pending.pop()
        workers[conn] = [p, i, 1]
        conn.send(i)

    try:
        while pending and len(workers) < jobs:
            start()
        while workers:
            for conn in wait(list(workers)):
                w = workers[conn]
                try:
                    r = conn.recv()
                except (EOFError, OSError):
                    w[0].join()
                    del workers[conn]
                    conn.close()
                    yield dict(index=w[1], evaluations=0, states=[], nstates=0, transitions=0, outcomes=[], samples=[], notes={}, wall=0.0,
                        violations=[({"shard": todo[w[1]][2]}, "the process that explores this shard died with exit code {}".format(w[0].exitcode))])
                    if pending:
                        start()
                    continue
                if pending and (maxtasks is None or w[2] < maxtasks):
                    w[1] = pending.pop()
                    w[2] += 1
                    conn.send(w[1])
                else:
                    conn.send(None)
                    w[0].join()
                    del workers[conn]
                    conn.close()
                    if pending:
                        start()
                yield r
    finally:
        for conn, w in workers.items():
            w[0].kill()
        for conn, w in workers.items():
            w[0].join()
            conn.close()


def known_findings(pid):
    """Return {key: description} of the 'known:' lines for this property."""
    result = {}
    try:
        with open(KNOWN, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property={} ".format(pid)):
                    rest = line.split(" ", 2)[2]
                    key, _, desc = rest.partition(" ")
                    result[key] = desc
    except FileNotFoundError:
        pass
    return result


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=repr).encode()).hexdigest()[:12]


def write_replay(pid, case, message):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "{}-{}.json".format(pid, case_key(case)))
    with open(path, "w", encoding="utf-8") as f:
        json.dump(dict(property=pid, case=case, message=message,
            how="cd {} && /opt/venv/bin/python -m mc.run {} --replay {}".format(ROOT, pid, path)),
            f, indent=1, default=repr)
    return path


def run_check(pid, tier, jobs=None):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    setup_process()
    mod = _load(pid)
    todo = [(pid, i, s) for i, s in enumerate(mod.shards(tier))]
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4
    results = []
    # report long runs of failures early
    stop_early = not known_findings(pid)
    failed = 0
    if jobs == 1 or len(todo) == 1:
        for a in todo:
            results.append(_worker(a))
            failed += bool(results[-1]["violations"])
            if stop_early and failed >= MAX_FAILED_SHARDS:
                break
    else:
        with contextlib.closing(_parallel(todo, min(jobs, len(todo)), getattr(mod, "MAXTASKS", None))) as pool:
            for r in pool:
                results.append(r)
                failed += bool(r["violations"])
                if stop_early and failed >= MAX_FAILED_SHARDS:
                    break
    results.sort(key=lambda r: r["index"])
    states, outcomes = set(), set()
    nstates_raw = 0
    for r in results:
        states.update(r["states"])
        outcomes.update(r["outcomes"])
        nstates_raw += r["nstates"]
    evaluations = sum(r["evaluations"] for r in results)
    transitions = sum(r["transitions"] for r in results)
    notes = {}
    samples = []
    for r in results:
        for k, v in r["notes"].items():
            notes[k] = notes.get(k, 0) + v
        for s in r["samples"]:
            if len(samples) < 8:
                samples.append(s)
    violations = [(c, m) for r in results for c, m in r["violations"]]
    known = known_findings(pid)
    new, hit = [], {}
    for c, m in violations:
        k = None
        if known and hasattr(mod, "finding_key"):
            k = mod.finding_key(c, m)
        if k is not None and k in known:
            hit[k] = known[k]
        else:
            new.append((c, m))
    for k, d in notes.items():
        if k.startswith("known:") and k[6:] in known:
            hit[k[6:]] = known[k[6:]]
        elif k.startswith("known:"):
            new.append(({"known-finding not listed": k[6:]}, "a tolerated finding is not in the file"))
    coverage = dict(
        states=len(states) if states else nstates_raw,
        transitions=transitions or evaluations,
        traces_validated_against_impl=evaluations,
        evaluations=evaluations,
        distinct_nontrivial=len(outcomes),
        rule=mod.RULE,
        samples=samples,
        exhaustive=True,
        shards=len(todo),
        bounds=mod.bounds(tier) if hasattr(mod, "bounds") else "",
        counters={k: v for k, v in notes.items() if not k.startswith("known:")},
    )
    if new:
        coverage["exhaustive"] = False
    ev = dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL, coverage=coverage,
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 3), violations=len(new))
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write("\n")
    print("{} [{}]: {} cases, {} states, {} transitions, {} distinct outcomes, {} shards, {:.1f} s".format(
        pid, tier, evaluations, coverage["states"], coverage["transitions"], len(outcomes), len(todo), ev["wall_s"]))
    for k in sorted(notes):
        print("   {} = {}".format(k, notes[k]))
    if os.environ.get("VERIF_TIMES"):
        for r in sorted(results, key=lambda r: -r["wall"])[:int(os.environ["VERIF_TIMES"]) * 12]:
            print("   shard {} {:.1f}s {} cases: {}".format(r["index"], r["wall"], r["evaluations"], json.dumps(todo[r["index"]][2], default=repr)[:120]))
    for k, d in sorted(hit.items()):
        print("KNOWN-FINDING: property={} {}".format(pid, d))
    if new:
        new.sort(key=lambda cm: len(json.dumps(cm[0], default=repr)))
        for c, m in new[:int(os.environ.get("VERIF_SHOW", "5"))]:
            path = write_replay(pid, c, m)
            print("  case: " + json.dumps(c, default=repr)[:2000])
            print("  " + m.replace("\n", "\n  ")[:3000])
            print("VIOLATION property={} replay={}".format(pid, path))
        return 1
    return 0


def run_replay(pid, path):
    setup_process()
    mod = _load(pid)
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    rec = Recorder()
    try:
        mod.replay(data["case"], rec)
    except StopShard:
        pass
    for c, m in rec.violations:
        print("  " + m)
        print("VIOLATION property={} replay={}".format(pid, path))
    if not rec.violations:
        print("replay: no violation")
    return 1 if rec.violations else 0
