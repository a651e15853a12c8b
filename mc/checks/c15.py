"""C15: shared lexicons, actions and caches are created once under all schedules."""
import itertools
import os
import shutil
import tempfile

from mc import sched
from mc.core import Violation, check, equal

LEVEL = "model_checking"
TECHNIQUE = ("stateless exploration of thread interleavings of the real caches and factories under a controlled scheduler "
    "(switches at every source line and lock operation, preemption bounded); all operation histories of the file cache against a model")
RULE = ("every schedule with at most the given number of preemptions of two or three threads that each run a script of requests is executed on the real code with fresh objects; "
        "an outcome is a distinct assignment of results to the threads; for the file cache every history of writes, removals and requests up to a depth")
ASSUMPTIONS = ["a thread can be preempted between any two source lines of parce/util.py, lexicon.py and standardaction.py and at every lock operation, not inside a line",
    "a changed file gets another modification time"]

FILES = ("util.py", "lexicon.py", "standardaction.py")
_env = None


def names(code):
    return not code.co_qualname.startswith(("Observable", "_Observer", "Switch", "fix_boundaries", "tokens"))


def env():
    global _env
    if _env is None:
        sched.install(FILES, names)
        import parce
        from mc import treeutil
        import parce.action, parce.util
        _env = parce
        parce.treeutil = treeutil
        # anything that is imported or made lazily only once
        make_language().root.parse
        parce.root(make_language().root, "'a'a[b]b ")
    return _env


def make_language():
    import parce
    from parce import Language, lexicon, default_action
    from parce.rule import arg, ifarg
    import parce.action as A

    class L(Language):
        @lexicon
        def root(cls):
            yield r"'a", A.String, cls.q("a")
            yield r"'b", A.String, cls.q("b")
            yield r"\[", A.Delimiter, cls.par
            yield default_action, A.Text

        @lexicon
        def q(cls):
            yield arg(), A.String.End, -1
            yield r"\w", A.String

        @lexicon(consume=True)
        def par(cls):
            yield r"\]", A.Delimiter, -1
            yield r"b", A.Name
    return L


class Scenario:
    """Threads with scripts; subclasses define the requests."""
    def __init__(self, scripts):
        self.scripts = scripts

    def setup(self):
        pass

    def __call__(self):
        import threading
        self.results = [[] for _ in self.scripts]
        s = sched.active()
        bound, s.bound = s.bound, -1
        self.setup()
        s.bound = bound
        threads = [threading.Thread(target=self.thread, args=(i, script)) for i, script in enumerate(self.scripts)]
        for t in threads[1:]:
            t.start()
        # the main thread is the first one
        self.thread(0, self.scripts[0])
        for t in threads[1:]:
            t.join()

    def thread(self, i, script):
        for op in script:
            self.results[i].append((op, self.request(op)))

    def by_op(self):
        d = {}
        for r in self.results:
            for op, value in r:
                d.setdefault(op, []).append(value)
        return d

    def finish(self, s):
        if s.problem:
            raise Violation(s.problem)
        for t in s.threads:
            if t.error is not None:
                if isinstance(t.error, Violation):
                    raise t.error
                import traceback
                raise Violation("{} raised {}: {}\n{}".format(t.name, type(t.error).__name__, t.error,
                    "".join(traceback.format_exception(t.error)[-6:])))
        self.verify()

    def verify(self):
        for op, values in self.by_op().items():
            for v in values[1:]:
                check(v is values[0], "two threads got different objects for", op)

    def log(self):
        ids = {}
        return tuple(tuple(ids.setdefault(id(v), len(ids)) for op, v in r) for r in self.results)


class Lexicons(Scenario):
    """Access to lexicons and derived lexicons: "root", "q", "q:a", ..."""
    def setup(self):
        self.L = make_language()
        self.warm = self.L.q if "!" in "".join("".join(s) for s in self.scripts) else None

    def request(self, op):
        name, _, arg = op.strip("!").partition(":")
        lex = getattr(self.L, name)
        if arg:
            lex = lex(arg)
            check(lex.arg == arg, "derived lexicon has argument", lex.arg)
            check(lex(arg) is lex, "other object when derived again from itself")
            check(lex == getattr(self.L, name), "derived lexicon not equal to its origin")
        return lex

    def verify(self):
        super().verify()
        d = self.by_op()
        for op, values in d.items():
            check(self.request(op) is values[0], "another object later for", op)


class Parse(Scenario):
    """Parsing with fresh lexicons."""
    def setup(self):
        self.L = make_language()
        if "w" in self.scripts[0][0]:
            self.L.root.parse

    def request(self, op):
        import parce
        return parce.treeutil.pretty(parce.root(self.L.root, op.strip("w")))

    def verify(self):
        import parce
        L = make_language()
        for op, values in self.by_op().items():
            want = parce.treeutil.pretty(parce.root(L.root, op.strip("w")))
            for v in values:
                equal(v, want, "tree for " + op)

    def log(self):
        return tuple(map(len, self.results))


class Rules(Scenario):
    """The parse function, rules and raw rules of one (derived) lexicon."""
    def setup(self):
        self.L = make_language()
        self.lex = self.L.q("a")

    def request(self, op):
        if op == "parse":
            return self.lex.parse
        if op == "rules":
            return self.lex.rules
        if op == "iter":
            return self.lex._rules if hasattr(type(self.lex), "_rules") else None
        raise ValueError(op)

    def verify(self):
        super().verify()
        equal([[(m.text if m is None else m[1]) for m in self.lex.parse("ba", 0)]], [["b", "a"]], "parse function")


class Actions(Scenario):
    """Standard actions that did not exist yet."""
    def setup(self):
        import parce.action as A
        self.n = n = getattr(Actions, "count", 0)
        Actions.count = n + 1
        self.A = A

    def request(self, op):
        a = self.A.Text
        if op.startswith("top"):
            from parce.standardaction import StandardAction
            a = StandardAction("Top{}".format(self.n))
            op = op[4:]
            equal(repr(a), "Top{}".format(self.n), "name")
            check(len(list(a)) == 1, "parent of a toplevel action")
        for part in op.split(".") if op else ():
            prev = a
            a = getattr(a, "{}{}".format(part, self.n))
            equal(repr(a), "{!r}.{}{}".format(prev, part, self.n), "name")
            check(a in prev and list(a)[1] is prev and a & prev is prev, "parent of", repr(a))
        return a


class Shared(Scenario):
    """util.cached_func, cached_method, cached_property, caching_dict, Symbol."""
    def setup(self):
        from parce import util
        self.calls = {}
        self.inside = {}
        self.raised = set()
        def make(key):
            n = self.calls[key] = self.calls.get(key, 0) + 1
            self.inside[key] = self.inside.get(key, 0) + 1
            check(self.inside[key] == 1, "the factory for", key, "runs in two threads at once")
            sched.active().point()
            self.inside[key] -= 1
            if key[-1].startswith("err") and key not in self.raised:
                self.raised.add(key)
                raise LookupError("wanted")
            if key[-1].startswith("none"):
                return None
            return ["value", key]
        @util.cached_func
        def func(*args):
            return make(("func",) + args)
        class C:
            @util.cached_method
            def meth(self, *args):
                return make((self.name,) + args)
            @util.cached_property
            def prop(self):
                return make((self.name, "prop"))
        self.o1, self.o2 = C(), C()
        self.o1.name, self.o2.name = "o1", "o2"
        self.func = func
        self.dict = util.caching_dict(lambda key: make(("dict", key)))
        self.dict0 = util.caching_dict(lambda key: make(("dict0", key)), False, False)
        self.dict2 = util.caching_dict(lambda *key: make(("dict2",) + key), True)
        self.dict3 = util.caching_dict(lambda *key: make(("dict3",) + key), True, False)
        Shared.count = self.n = getattr(Shared, "count", 0) + 1

    def request(self, op):
        kind, _, arg = op.partition(":")
        try:
            if kind == "func":
                return self.func(arg)
            if kind in ("o1", "o2"):
                o = getattr(self, kind)
                return o.prop if arg == "prop" else o.meth(arg)
            if kind in ("dict", "dict0"):
                return getattr(self, kind)[arg]
            if kind in ("dict2", "dict3"):
                return getattr(self, kind)[(arg, "z")] if not arg.startswith(("none", "err")) else getattr(self, kind)[("z", arg)]
            if kind == "sym":
                from parce import util
                r = util.Symbol("{}{}".format(arg, self.n))
                equal(repr(r), "{}{}".format(arg, self.n), "symbol name")
                return r
        except LookupError as e:
            if str(e) != "wanted":
                raise
            return "raised"
        raise ValueError(op)

    def verify(self):
        for op, values in self.by_op().items():
            kind, _, arg = op.partition(":")
            if arg.startswith("err"):
                # only the one that called the failing factory raises
                equal(values.count("raised"), 1, "number of exceptions for " + op)
                values = [v for v in values if v != "raised"]
            for v in values[1:]:
                check(v is values[0], "two threads got different objects for", op)
            if values and arg.startswith("none"):
                check(values[0] is None, "value of", op)
        for key, n in self.calls.items():
            want = 1
            if key[-1].startswith("err"):
                want = 2 if sum(1 for r in self.results for op, v in r if self.key(op) == key) > 1 else 1
            elif key[-1].startswith("none") and key[0] in ("dict0", "dict3"):
                want = sum(1 for r in self.results for op, v in r if self.key(op) == key)
            equal(n, want, "number of calls of the factory for {}".format(key))

    def key(self, op):
        kind, _, arg = op.partition(":")
        if kind in ("dict2", "dict3"):
            return (kind, arg, "z") if not arg.startswith(("none", "err")) else (kind, "z", arg)
        return (kind, arg)


class Locker(Scenario):
    """object_locker: mutual exclusion for every object."""
    def setup(self):
        from parce import util
        self.lock = util.object_locker()
        self.objs = {"x": object(), "y": object()}
        self.inside = {"x": 0, "y": 0}

    def request(self, op):
        s = sched.active()
        name = op[0]
        try:
            with self.lock(self.objs[name]):
                self.inside[name] += 1
                check(self.inside[name] == 1, "two threads hold the lock of one object")
                s.point()
                self.inside[name] -= 1
                if op[1:] == "!":
                    raise LookupError("wanted")
        except LookupError as e:
            if str(e) != "wanted":
                raise

    def log(self):
        return tuple(map(len, self.results))


class Dispatch(Scenario):
    """The first use of a Dispatcher in two threads."""
    def setup(self):
        from parce import util
        class A:
            dispatch = util.Dispatcher()
            @dispatch(1, 2)
            def one(self, v):
                return "one", v
        class B(A):
            dispatch = util.Dispatcher()
            def one(self, v):
                return "B.one", v
            @dispatch(3)
            def three(self, v):
                return "three", v
        self.A, self.B = A(), B()

    def request(self, op):
        return getattr(self, op[0]).dispatch(int(op[1]), 5)

    def verify(self):
        want = {"A1": ("one", 5), "A3": None, "B1": ("B.one", 5), "B2": ("B.one", 5), "B3": ("three", 5)}
        for op, values in self.by_op().items():
            for v in values:
                equal(v, want[op], "dispatched " + op)

    def log(self):
        return tuple(map(len, self.results))


KINDS = dict(Lexicons=Lexicons, Parse=Parse, Rules=Rules, Actions=Actions, Shared=Shared, Locker=Locker, Dispatch=Dispatch)


def explore(kind, scripts, bound, part, parts, rec):
    env()
    scenario = None
    def make():
        nonlocal scenario
        scenario = KINDS[kind](scripts)
        return scenario
    for choices, s in sched.explore(make, bound, part, parts):
        rec.transitions += s.points
        rec.run(dict(kind=kind, scripts=scripts, bound=bound, choices=sched.sparse(choices)), scenario.finish, s)
        rec.outcome((kind, str(scripts), scenario.log() if hasattr(scenario, "results") else None))
        rec.note("schedules of bound {}".format(bound))
    rec.state((kind, str(scripts)))


def run_schedule(kind, scripts, bound, choices):
    env()
    scenario = KINDS[kind](scripts)
    s = sched.Scheduler(sched.dense(choices), bound)
    s.run(scenario)
    scenario.finish(s)


# -- the file cache: histories ---------------------------------------------

FILEOPS = ("a1", "b1", "a2", "b2", "a3", "am1", "rm", "get", "getg")

def run_files(ops, rec):
    """Contents and modification time are written, the file removed, and the
    cache is asked; the answer must be that of reading the file now."""
    from parce import util
    d = tempfile.mkdtemp(prefix="mc-c15-")
    try:
        calls = []
        def read(name):
            calls.append(name)
            with open(name) as f:
                return f.read()
        cache = util.file_cache(read)
        files = {"f": os.path.join(d, "f"), "g": os.path.join(d, "g")}
        with open(files["g"], "w") as f:
            f.write("G")
        os.utime(files["g"], (5, 5))
        state = None        # (content, mtime)
        seen = {}
        n = 0
        for op in ops:
            if op == "rm":
                if state:
                    os.remove(files["f"])
                    state = None
            elif op == "getg":
                equal(cache[files["g"]], "G", "other file")
                n += "g" not in seen
                seen["g"] = 1
            elif op == "get":
                try:
                    got = cache[files["f"]]
                except FileNotFoundError:
                    got = None
                if state is None:
                    equal(got, None, "value for a file that does not exist")
                else:
                    equal(got, state[0], "value")
            else:
                content, mtime = op[0], {"1": 1.5, "2": 2, "3": 0, "m1": -1}[op[1:]]
                if state and state[1] == mtime and state[0] != content:
                    return False    # outside the assumption
                if seen.get(mtime, content) != content:
                    return False
                seen[mtime] = content
                with open(files["f"], "w") as f:
                    f.write(content)
                os.utime(files["f"], (mtime, mtime))
                state = content, mtime
        return True
    finally:
        shutil.rmtree(d)


def run_file_caching(rec):
    """An unchanged file is read only once."""
    from parce import util
    d = tempfile.mkdtemp(prefix="mc-c15-")
    try:
        name = os.path.join(d, "f")
        with open(name, "w") as f:
            f.write("x")
        calls = []
        cache = util.file_cache(lambda n: calls.append(n) or ["v"])
        a = cache[name]
        check(cache[name] is a and cache[name] is a, "other object for an unchanged file")
        equal(len(calls), 1, "times read")
    finally:
        shutil.rmtree(d)


# -- identity, one thread ----------------------------------------------------

DERIVE_ARGS = (None, "a", "b", "", 0, 2, ("a",))

def run_identity(chain):
    """All ways to ask for one lexicon or action give the same object, and others another."""
    import parce.action as A
    from parce.standardaction import StandardAction
    e = env()
    L = make_language()
    class M(L):
        pass
    bases = {"L.q": L.q, "L.root": L.root, "M.q": M.q, "M.root": M.root}
    seen = {}
    for name, lex in bases.items():
        check(lex is getattr({"L": L, "M": M}[name[0]], name[2:]), "other object for", name)
        last = None
        for i, a in enumerate(chain):
            lex = lex(a)
            if a is not None:
                last = a
            equal(lex.arg, last, "argument")
            check(lex.language is (L if name[0] == "L" else M), "language of", lex)
            direct = bases[name](last)
            check(lex is direct, "another object for", name, "via", chain[:i + 1], "than directly")
            check(seen.setdefault((name, repr(last)), lex) is lex, "another object for", name, last)
    check(len({id(v) for v in seen.values()}) == len(seen), "one object for different lexicons")
    for n in ("Text", "Name", "Literal"):
        a = getattr(A, n)
        check(StandardAction(n) is a, "other toplevel action", n)
        for arg in chain:
            if isinstance(arg, str) and arg:
                sub = getattr(a, "Sub" + arg)
                check(sub is getattr(a, "Sub" + arg) and sub is not a, "sub action")
                a = sub


def scenarios(tier):
    """kind, scripts, bound, parts"""
    quick = tier == "quick"
    # two threads with all scripts of two requests over two keys, and three threads
    def two(kind, ops, n, bound, parts=1):
        l = list(itertools.product(ops, repeat=n))
        for i, x in enumerate(l):
            for y in l[i:]:
                yield kind, [list(x), list(y)], bound, parts
    def three(kind, ops, bound, parts=1):
        for x in itertools.combinations_with_replacement(ops, 3):
            yield kind, [[o] for o in x], bound, parts
    lo, hi = (1, 2) if quick else (2, 3)
    yield from two("Lexicons", ("q:a", "q:b"), 2, lo, 1 if quick else 4)
    yield from two("Lexicons", ("root", "q", "q:a"), 1, lo, 1 if quick else 4)
    yield "Lexicons", [["root"], ["root"]], hi, 2 if quick else 16
    yield "Lexicons", [["q:a", "q:b"], ["q:b", "q:a"]], hi if quick else 2, 8
    yield "Lexicons", [["q:a"], ["q:a"], ["q:a"]], lo, 1 if quick else 16
    yield "Lexicons", [["q:b"], ["q:a"], ["q:b"]], lo, 1 if quick else 16
    yield from two("Rules", ("parse", "rules", "iter"), 1, lo, 1 if quick else 4)
    for a, b2 in (("'a[b]b", "'a[b]b"), ("'a'", "[b]"), ("[b]'bwb", "'b")):
        yield "Parse", [[a], [b2]], lo, 2 if quick else 32
    yield from two("Actions", ("X", "X.Y", "top", "top.X"), 1, lo)
    for op in ("X", "X.Y", "top", "top.X"):
        yield "Actions", [[op], [op]], hi if quick else 2, 2
    yield from two("Actions", ("X", "Y"), 2, lo)
    yield from three("Actions", ("X", "X.Y"), lo, 1 if quick else 8)
    for keys in (("func:a", "func:b"), ("o1:a", "o1:b"), ("dict:a", "dict:none"), ("dict0:a", "dict0:none"), ("dict2:a", "dict2:none"), ("dict3:a", "dict3:none"), ("sym:a", "sym:b")):
        yield from two("Shared", keys, 2, 2 if keys[0] in ("func:a", "o1:a") else lo)
        yield from three("Shared", keys, lo)
    for keys in (("o1:a", "o2:a"), ("o1:prop", "o2:prop"), ("func:err", "func:a"), ("o1:err", "o1:a"), ("dict:err", "dict:a"), ("dict2:err", "dict2:a")):
        yield from two("Shared", keys, 1, hi)
        yield from three("Shared", keys, lo)
    yield from two("Locker", ("x", "y"), 2, hi)
    yield from two("Locker", ("x", "x!"), 2, 2)
    yield from three("Locker", ("x", "y", "x!"), lo)
    yield "Locker", [["x"], ["x"], ["x"]], hi if quick else 2, 4
    yield from two("Dispatch", ("A1", "A3", "B1", "B2", "B3"), 1, lo)
    yield "Dispatch", [["B1"], ["B3"]], hi, 1 if quick else 4


def shards(tier):
    r = []
    for kind, scripts, bound, parts in scenarios(tier):
        for part in range(parts):
            r.append(["sched", kind, scripts, bound, part, parts])
    for first in FILEOPS:
        r.append(["files", first, 4 if tier == "quick" else 6])
    for a in DERIVE_ARGS:
        r.append(["identity", a, 3 if tier == "quick" else 4])
    return r


def bounds(tier):
    return ("two threads with up to 2 requests each and three threads with 1 request, at most {} preemptions (one less for the scenarios with long runs); "
        "file cache: all histories of up to {} operations; identity: all chains of up to {} derivations with 7 arguments").format(2 if tier == "quick" else 3, 4 if tier == "quick" else 6, 3 if tier == "quick" else 4)


def run_shard(shard, rec):
    if shard[0] == "sched":
        explore(*shard[1:], rec)
    elif shard[0] == "identity":
        env()
        for n in range(shard[2]):
            for rest in itertools.product(DERIVE_ARGS, repeat=n):
                chain = (shard[1] if not isinstance(shard[1], list) else tuple(shard[1]),) + rest
                rec.run(dict(identity=chain), run_identity, chain)
                rec.state(("identity", chain))
    else:
        run_file_caching(rec)
        for n in range(shard[2]):
            for rest in itertools.product(FILEOPS, repeat=n):
                ops = (shard[1],) + rest
                if ops[-1] != "get":
                    continue
                if rec.run(dict(ops=ops), run_files, ops, rec):
                    rec.outcome(ops)
                    rec.state(("files", ops))


def replay(case, rec):
    if "identity" in case:
        env()
        rec.run(case, run_identity, tuple(tuple(a) if isinstance(a, list) else a for a in case["identity"]))
    elif "kind" in case:
        rec.run(case, run_schedule, case["kind"], case["scripts"], case["bound"], case["choices"])
    else:
        rec.run(case, run_files, case["ops"], rec)
