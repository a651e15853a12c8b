"""C05: a waited-for tree or transform is complete and current under all schedules."""
import itertools

from mc import sched
from mc.core import Violation, check, equal

LEVEL = "model_checking"
TECHNIQUE = ("stateless exploration of thread interleavings of the real worker, tree builder and transformer under a controlled scheduler "
    "(switches at every source line and lock operation, preemption bounded)")
RULE = ("every schedule with at most the given number of preemptions of each scenario (a script of the editing thread) is executed on the real code; "
        "blocking and thread ends branch over all threads that can go on; an outcome is a distinct observation sequence of the editing thread")
ASSUMPTIONS = ["a thread can be preempted between any two source lines of parce/work.py, treebuilder.py, transform.py and util.py and at every lock operation, not inside a line",
    "documents are edited from one thread, as the documentation demands", "all threads make progress when scheduled"]

FILES = ("work.py", "treebuilder.py", "transform.py", "util.py")
SKIP = ("caching_dict", "cached_", "object_locker", "Dispatcher", "_Dispatcher", "_Observer.__", "fix_boundaries", "tokens", "Symbol", "Switch", "language_sister", "ItemList", "_allow_")

_env = None


def names(code):
    return not code.co_qualname.startswith(SKIP)


class Env:
    """parce imported under control, and the toy language."""
    def __init__(self):
        sched.install(FILES, names, ("util.py",))
        import parce
        from parce import Language, lexicon
        import parce.action as A
        from parce import Document
        from parce.transform import Transform, Transformer
        from parce.treebuilder import TreeBuilder
        from parce.work import BackgroundWorker, Worker

        class L(Language):
            @lexicon
            def root(cls):
                yield r'\(', A.Delimiter, cls.par
                yield r'a', A.Name

            @lexicon
            def par(cls):
                yield r'\)', A.Delimiter, -1
                yield r'a', A.Text
                yield r'\(', A.Delimiter, cls.par

            @lexicon
            def other(cls):
                yield r'[(a]', A.Number

        def meth(name):
            def m(self, items):
                return (self.tag, name, tuple(i.text if i.is_token else (i.name, i.obj) for i in items))
            return m

        class LT(Transform):
            root, par, other = meth("root"), meth("par"), meth("other")
            def __init__(self, tag):
                self.tag = tag

        self.L, self.LT, self.Document, self.Transformer = L, LT, Document, Transformer
        self.Worker, self.TreeBuilder, self.BackgroundWorker = Worker, TreeBuilder, BackgroundWorker
        from mc import treeutil
        self.treeutil = treeutil
        # compile the lexicons and fill the caches outside of the schedules
        for lex in (L.root, L.other):
            for text in ("a(a(a)a)a", ")"):
                parce.root(lex, text)
                t = self.transformer("w")
                t.transform_text(lex, text)
        self.expect_cache = {}

    def transformer(self, tag):
        t = self.Transformer()
        t.add_transform(self.L, self.LT(tag))
        return t

    def expected(self, lex, text, tag):
        """(canonical tree, open lexicons, transform result) by own code."""
        key = (lex, text, tag)
        if key not in self.expect_cache:
            s = sched.active()
            bound = s.bound if s else None
            if s:
                s.bound = -1    # this is not part of the schedule
            tree, lexicons = self.treeutil.scratch(lex, text)
            names = {id(l): l.name for l in (self.L.root, self.L.par, self.L.other)}
            def tf(node):
                return (tag, names[node[0]], tuple((names[n[0]], tf(n)) if isinstance(n[0], int) and n[0] in names and (len(n) == 1 or isinstance(n[1], tuple)) else n[1] for n in node[1:]))
            self.expect_cache[key] = tree, lexicons, (tf(tree) if lex and tag else None)
            if s:
                s.bound = bound
        return self.expect_cache[key]


def env():
    global _env
    if _env is None:
        _env = Env()
    return _env


EDITS = {
    "i": lambda d: d.insert(0, "(a"),
    "j": lambda d: d.append("a)"),
    "x": lambda d: d.__delitem__(slice(1, 2)),
    "s": lambda d: d.set_text("a(a)a"),
}


class Script:
    """The editing thread: runs the operations and watches what it gets."""
    def __init__(self, ops, transformer, text="(a)a"):
        self.cold = ops[0] == "cold"
        self.e = env()
        self.ops, self.text0, self.with_t = ops[self.cold:], text, transformer
        self.callbacks = []     # [expected, times called]
        self.log = []
        self.version = 0
        self.reads = []         # [changes completed before, changes started before it returned, result] of the other threads
        self.states = []        # (lexicon, text, transformer) after every change

    def __call__(self):
        e = self.e
        self.lex = e.L.root
        self.tag = "A" if self.with_t else None
        self.tno = 0
        t = e.transformer("A") if self.with_t else None
        w = e.BackgroundWorker(e.TreeBuilder(e.L.root), t)
        if not self.cold:
            # the initial text is processed before the threads start
            s = sched.active()
            bound, s.bound = s.bound, -1
            w.run_process = lambda: e.Worker.run_process(w)
        d = self.d = e.Document(e.L.root, self.text0, worker=w)
        if not self.cold:
            del w.run_process
            s.bound = bound
        self.note_state()
        for op in self.ops:
            version = self.version
            self.do(op)
            if self.version != version:
                self.note_state()
        self.do("rw")
        self.do("tw")

    def check_tree(self, root, what):
        d = self.d
        check(root is d.builder().root, what, "returned something else than the root:", root)
        tree, lexicons, tf = self.e.expected(self.lex, d.text(), self.tag)
        got = self.e.treeutil.canon(root)
        if got != tree:
            raise Violation("{}: tree of {!r} is {}".format(what, d.text(), self.e.treeutil.pretty(root)))
        equal(tuple(id(l) for l in d.open_lexicons()), lexicons, what + ": open lexicons")

    def check_transform(self, result, what):
        want = self.e.expected(self.lex, self.d.text(), self.tag)[2]
        equal(result, want, "{} for text {!r}".format(what, self.d.text()))

    def callback(self, kind):
        rec = [None, 0]
        self.callbacks.append(rec)
        version = self.version
        def cb(doc):
            rec[1] += 1
            check(doc is self.d, "callback called with", doc)
            if version == self.version:
                if kind == "tree":
                    root = doc.get_root()
                    check(root is not None, "no tree when the callback is called")
                    self.check_tree(root, "in the callback")
                else:
                    self.check_transform(doc.get_transform(), "transform in the callback")
        return rec, cb

    def note_state(self):
        self.states.append((self.lex, self.d.text(), self.tag))

    def reader(self, tree):
        """What another thread does that waits for the result."""
        lo = len(self.states) - 1
        if tree:
            root = self.d.get_root(True)
            check(root is self.d.builder().root, "get_root(True) in another thread returned", root)
            lo = len(self.states) - 1
        r = self.d.get_transform(True)
        self.reads.append((lo, self.version, r))

    def do(self, op):
        d = self.d
        if op in EDITS:
            self.version += 1
            EDITS[op](d)
        elif op in ("W", "WW"):
            import threading
            threading.Thread(target=self.reader, args=(op == "WW",)).start()
        elif op == "y":
            sched.active().free()
        elif op == "rw":
            self.check_tree(d.get_root(True), "get_root(True)")
        elif op in ("r", "rc"):
            rec, cb = self.callback("tree") if op == "rc" else (None, None)
            root = d.get_root(False, cb)
            self.log.append(root is not None)
            if rec:
                rec[0] = int(root is None)
            if root is not None:
                self.check_tree(root, "get_root()")
        elif op == "tw":
            self.check_transform(d.get_transform(True), "get_transform(True)")
        elif op in ("t", "tc"):
            rec, cb = self.callback("transform") if op == "tc" else (None, None)
            r = d.get_transform(False, cb)
            self.log.append(r is not None)
            if rec:
                rec[0] = int(r is None and self.tag is not None)
            if r is not None:
                self.check_transform(r, "get_transform()")
        elif op == "T":
            self.version += 1
            self.tno += 1
            self.tag = "B{}".format(self.tno)
            d.set_transformer(self.e.transformer(self.tag))
        elif op == "T0":
            self.version += 1
            self.tag = None
            d.set_transformer(None)
        elif op == "X":
            self.version += 1
            self.lex = self.e.L.other if self.lex is self.e.L.root else self.e.L.root
            d.set_root_lexicon(self.lex)
        else:
            raise ValueError(op)

    def finish(self, s):
        """After all threads have ended."""
        if s.problem:
            raise Violation(s.problem)
        for t in s.threads:
            if t.error is not None:
                if isinstance(t.error, Violation):
                    raise t.error
                import traceback
                raise Violation("{} raised {}: {}\n{}".format(t.name, type(t.error).__name__, t.error,
                    "".join(traceback.format_exception(t.error)[-6:])))
        d = self.d
        check(not d.builder().busy and not d.builder().changes, "the tree builder is left busy")
        root = d.get_root()
        check(root is not None, "the worker is left busy")
        self.check_tree(root, "finally")
        self.check_transform(d.get_transform(), "finally: transform")
        for lo, hi, r in self.reads:
            # the result of a moment between the call and the return
            want = [self.e.expected(*st)[2] for st in self.states[lo:hi + 1]]
            check(r in want, "another thread got the transform", r, "instead of one of", want)
        equal(len(self.reads), sum(op.startswith("W") for op in self.ops), "results in other threads")
        for want, n in self.callbacks:
            equal(n, want, "number of calls of a callback")


def run_schedule(ops, transformer, choices, bound, fine):
    script = Script(ops, transformer)
    s = sched.Scheduler(sched.dense(choices), bound, fine)
    s.run(script)
    script.finish(s)


def explore(ops, transformer, bound, part, parts, rec, fine=False):
    script = None
    def make():
        nonlocal script
        script = Script(ops, transformer)
        return script
    env()
    for choices, s in sched.explore(make, bound, part, parts, fine):
        rec.transitions += s.points
        rec.run(dict(ops=ops, transformer=transformer, bound=bound, fine=fine, choices=sched.sparse(choices)), script.finish, s)
        rec.outcome((tuple(ops), tuple(script.log), tuple(map(tuple, script.callbacks)), len(s.threads)))
        rec.note("schedules of bound {}".format(bound))
    rec.state((tuple(ops), transformer))


def replay(case, rec):
    rec.run(case, run_schedule, case["ops"], case["transformer"], case["choices"], case["bound"], case["fine"])


OPS = ("i", "x", "X", "T", "T0", "rw", "rc", "tw", "tc")

def redundant(ops):
    """Scripts that another script covers."""
    if ops[-1] in ("rw", "tw"):
        return True     # every script ends with these
    return any(a == b and a in ("rw", "tw", "T0") for a, b in zip(ops, ops[1:]))


def scripts(n, alphabet=OPS):
    for ops in itertools.product(alphabet, repeat=n):
        if not redundant(ops):
            yield list(ops)


def shards(tier):
    r = []
    def add(ops, transformer, bound, parts=1):
        for part in range(parts):
            r.append([ops, transformer, bound, part, parts])
    def locks(ops, bound, parts=1):
        for part in range(parts):
            r.append([ops, True, bound, part, parts, "locks"])
    def fine(ops):
        r.append([ops, True, 1, 0, 1, True])
    if tier == "quick":
        add(["i"], True, 2, 16)
        for n in (1, 2):
            for ops in scripts(n):
                add(ops, True, 1)
        for ops in (["cold"], ["cold", "i"], ["cold", "T"], ["cold", "T0"], ["cold", "X"], ["cold", "rc", "tc"]):
            add(ops, True, 1)
        for ops in (["i"], ["T"], ["i", "T"], ["T", "i"], ["i", "i"], ["i", "rc"]):
            add(ops, False, 1)
        for ops in (["i", "y", "j"], ["i", "i", "rc"], ["i", "T", "tc"], ["rc", "s", "rc"], ["T", "i", "tc"]):
            add(ops, True, 1, 2)
        locks(["W", "i"], 1, 2)
        locks(["i", "W"], 1, 2)
        locks(["i", "W", "j"], 1, 8)
        locks(["cold", "W", "i"], 1, 8)
        for ops in scripts(2, ("i", "x", "X", "T", "T0", "W", "WW")):
            locks(ops + ["W", "j"], 0)
        fine(["i", "rc", "tc"])
    else:
        add(["i"], True, 3, 64)
        for ops in (["i", "i"], ["i", "T"], ["i", "rc", "tc"], ["T", "tc"]):
            add(ops, True, 2, 64)
        for n in (1, 2):
            for ops in scripts(n):
                fine(ops)
                add(ops, False, 1)
                add(["cold"] + ops, True, 1)
        for ops in scripts(3):
            add(ops, True, 1)
        add(["i", "W", "j"], True, 1, 64)
        locks(["i", "W", "j"], 2, 64)
        for ops in scripts(2, ("i", "x", "X", "T", "T0", "W", "WW")):
            locks(ops + ["W", "j"], 1)
            locks(["cold"] + ops, 1)
    return r


def bounds(tier):
    if tier == "quick":
        return ("all scripts of 1 and 2 operations (edits, lexicon change, transformer change and removal, waiting, callbacks) on a document at rest, some of 3 operations, "
            "and some starting while the first text is processed, and some with another thread waiting for the result meanwhile, at most 1 preemption (besides the free switches at blocking, thread start and end); one edit with at most 2 preemptions")
    return "all scripts of up to 3 operations with at most 1 preemption, scripts of 4 with other threads that wait, six with at most 2, one edit with at most 3"


def run_shard(shard, rec):
    ops, transformer, bound, part, parts, *fine = shard
    explore(ops, transformer, bound, part, parts, rec, fine[0] if fine else False)
