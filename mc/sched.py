"""A controlled scheduler for Python threads: stateless exploration of all
interleavings up to a preemption bound, on the real code.

``install()`` replaces the lock and thread classes of the threading module by
cooperative ones and imports parce afresh, so that every lock, condition and
thread that parce makes is under control.  Threads run one at a time; at every
source line of the watched files and at every lock operation the scheduler
decides which thread goes on.  A run is determined by its list of choices, so
it can be replayed.
"""
import _thread
import gc
import os
import sys
import threading
import time

from .core import REPO, NonTermination

TOOL = 4
MAXPOINTS = 60000

real_lock = _thread.allocate_lock
_current = None         # the active Scheduler
_watch = None           # function: code -> bool


class Abort(BaseException):
    """Raised in the controlled threads when a run is given up."""


class Deadlock(Exception):
    pass


class T:
    """One controlled thread."""
    __slots__ = ("index", "sem", "pred", "done", "error", "name", "timed")
    def __init__(self, index, name):
        self.index, self.name = index, name
        self.sem = real_lock()
        self.sem.acquire()
        self.pred = None        # None: can run; else a function: can it go on
        self.timed = False      # the wait can time out
        self.done = False
        self.error = None


class Scheduler:
    def __init__(self, choices=(), bound=1, fine=False):
        self.fine = fine
        self.choices = choices
        self.bound = bound
        self.trace = []         # (number of options, chosen)
        self.threads = []
        self.byid = {}
        self.preemptions = 0
        self.points = 0
        self.abort = False
        self.problem = None
        self.finished = real_lock()
        self.finished.acquire()
        self.current = None

    # -- from the controlled threads --------------------------------------
    def me(self):
        return self.byid.get(_thread.get_ident())

    def decide(self, n):
        i = len(self.trace)
        c = self.choices[i] if i < len(self.choices) else 0
        if c >= n:
            self.problem = "harness: schedule is not reproducible"
            self.stop()
            raise Abort()
        self.trace.append((n, c))
        return c

    def enabled(self, but=None):
        return [t for t in self.threads if t is not but and not t.done and (t.pred is None or t.pred())]

    def point(self):
        """A place where another thread may take over."""
        if self.abort:
            raise Abort()
        me = self.me()
        if me is None or me is not self.current:
            return
        self.points += 1
        if self.points > MAXPOINTS:
            self.problem = "does not end (more than {} steps)".format(MAXPOINTS)
            self.stop()
            raise Abort()
        if self.preemptions >= self.bound or len(self.threads) == 1:
            return
        others = self.enabled(me)
        if not others:
            return
        c = self.decide(1 + len(others))
        if c:
            self.preemptions += 1
            self.switch(me, others[c - 1])

    def free(self):
        """A place where the switch to another thread is not counted."""
        if self.abort:
            raise Abort()
        me = self.me()
        others = self.enabled(me)
        if others:
            c = self.decide(1 + len(others))
            if c:
                self.switch(me, others[c - 1])

    def switch(self, me, other):
        self.current = other
        other.sem.release()
        me.sem.acquire()
        if self.abort:
            raise Abort()

    def block(self, pred, timed=False):
        """The current thread can't go on until pred() is true."""
        if self.abort:
            raise Abort()
        me = self.me()
        me.pred, me.timed = pred, timed
        try:
            self.leave(me)
        finally:
            me.pred, me.timed = None, False
        return pred()

    def leave(self, me):
        """Let another thread go on, as me can't."""
        others = self.enabled(me)
        if not others:
            # time passes: a timed wait ends
            others = [t for t in self.threads if not t.done and t.timed]
        if not others:
            if any(not t.done for t in self.threads):
                self.problem = "deadlock: " + ", ".join(t.name for t in self.threads if not t.done) + " wait for ever"
            self.stop()
            if not me.done:
                raise Abort()
            return
        c = self.decide(len(others)) if len(others) > 1 else 0
        other = others[c]
        if other is me:
            return
        if me.done:
            self.current = other
            other.sem.release()
        else:
            self.switch(me, other)

    def stop(self):
        """End the run; from the current thread."""
        self.abort = True
        self.current = None
        self.finished.release()

    # -- threads ------------------------------------------------------------
    def spawn(self, func, name):
        t = T(len(self.threads), name)
        self.threads.append(t)
        def run():
            self.byid[_thread.get_ident()] = t
            t.sem.acquire()
            try:
                if not self.abort:
                    func()
            except Abort:
                pass
            except BaseException as e:
                t.error = e
            finally:
                t.done = True
                if not self.abort:
                    try:
                        self.leave(t)
                    except Abort:
                        pass
                ended.release()
        ended = real_lock()
        ended.acquire()
        self.ended.append(ended)
        _thread.start_new_thread(run, ())
        return t

    def run(self, func):
        """Run func in a first controlled thread until all threads have ended."""
        global _current
        self.ended = []
        _current = self
        try:
            t = self.spawn(func, "main")
            self.current = t
            t.sem.release()
            if not self.finished.acquire(True, 120):
                self.problem = self.problem or "no progress for 120 s"
            self.abort = True
            for i in range(len(self.threads)):
                th = self.threads[i]
                if not self.ended[i].acquire(False):
                    try:
                        th.sem.release()
                    except RuntimeError:
                        pass
                    if not self.ended[i].acquire(True, 30):
                        self.problem = self.problem or "a thread can't be ended"
        finally:
            _current = None
        return self


# -- replacements for the threading module ---------------------------------

def active():
    s = _current
    if s is not None and s.me() is not None:
        return s


class CoopLock:
    def __init__(self):
        self._real = real_lock()
        self._held = False

    def acquire(self, blocking=True, timeout=-1):
        s = active()
        if s is None:
            if self._held:
                return False
            return self._real.acquire(blocking, timeout)
        s.point()
        while self._held:
            if not blocking or timeout == 0:
                return False
            if not s.block(lambda: not self._held, timeout > 0):
                return False
        self._held = True
        return True

    def release(self):
        s = active()
        if s is None:
            if self._held:
                self._held = False      # (a run that was given up)
            else:
                self._real.release()
            return
        if s.abort:
            self._held = False
            return
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False
        s.point()

    def locked(self):
        return self._held or self._real.locked()

    __enter__ = acquire

    def __exit__(self, *args):
        self.release()

    def _at_fork_reinit(self):
        self._real = real_lock()
        self._held = False


class CoopRLock:
    def __init__(self):
        self._owner = None
        self._count = 0
        self._real = _thread.RLock()

    def acquire(self, blocking=True, timeout=-1):
        s = active()
        if s is None:
            return self._real.acquire(blocking, timeout)
        me = _thread.get_ident()
        s.point()
        while self._count and self._owner != me:
            if not blocking or timeout == 0:
                return False
            if not s.block(lambda: not self._count, timeout > 0):
                return False
        self._owner = me
        self._count += 1
        return True

    def release(self):
        s = active()
        if s is None:
            self._real.release()
            return
        if s.abort:
            return
        if self._owner != _thread.get_ident() or not self._count:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
        s.point()

    __enter__ = acquire

    def __exit__(self, *args):
        self.release()

    def _is_owned(self):
        if active() is None:
            return self._real._is_owned()
        return self._count > 0 and self._owner == _thread.get_ident()

    def _release_save(self):
        if active() is None:
            return self._real._release_save()
        state = (self._owner, self._count)
        self._owner, self._count = None, 0
        return state

    def _acquire_restore(self, state):
        s = active()
        if s is None:
            return self._real._acquire_restore(state)
        while self._count:
            s.block(lambda: not self._count)
        self._owner, self._count = state

    def _at_fork_reinit(self):
        self.__init__()


RealThread = threading.Thread


class CoopThread(RealThread):
    _ctl = None

    def start(self):
        s = active()
        if s is None:
            return super().start()
        if self._ctl is not None:
            raise RuntimeError("threads can only be started once")
        self._ctl = s.spawn(self.run, "thread {}".format(len(s.threads)))
        s.free()

    def join(self, timeout=None):
        if self._ctl is None:
            return super().join(timeout)
        s = active()
        t = self._ctl
        if s and not t.done:
            s.block(lambda: t.done, timeout is not None)

    def is_alive(self):
        if self._ctl is None:
            return super().is_alive()
        return not self._ctl.done


def _on_line(code, line):
    w = _watch(code)
    if not w:
        return sys.monitoring.DISABLE
    s = _current
    if s is not None:
        if (s.preemptions >= s.bound or s.fine == "locks") and s.points < MAXPOINTS and not s.abort:
            s.points += 1
        elif w is True or s.fine or line == w:
            s.point()


_installed = False

def install(files, names=None, coarse=()):
    """Patch threading, import parce afresh and watch the given files (relative
    to the parce directory). In the coarse files only the begin of a function is
    a switch point, unless the Scheduler is fine. If its fine is "locks", only lock
    operations are switch points."""
    global _installed, _watch
    paths = {os.path.join(os.path.realpath(REPO), "parce", f): f in coarse for f in files}
    cache = {}
    def watch(code):
        try:
            return cache[code]
        except KeyError:
            path = os.path.realpath(code.co_filename)
            r = path in paths and (not names or names(code))
            if r and paths[path]:
                r = min((l for _, _, l in code.co_lines() if l and l > code.co_firstlineno), default=code.co_firstlineno)
            cache[code] = r
            return r
    _watch = watch
    if _installed:
        return
    _installed = True
    threading._allocate_lock = CoopLock
    threading.Lock = CoopLock
    threading.RLock = CoopRLock
    threading.Thread = CoopThread
    for m in [m for m in sys.modules if m == "parce" or m.startswith("parce.")]:
        del sys.modules[m]
    m = sys.monitoring
    m.use_tool_id(TOOL, "mc.sched")
    m.register_callback(TOOL, m.events.LINE, _on_line)
    m.set_events(TOOL, m.events.LINE)
    gc.disable()


def sparse(choices):
    """[[index, choice], ...] of the choices that are not 0."""
    return [[i, c] for i, c in enumerate(choices) if c]


def dense(sp):
    if not sp:
        return ()
    l = [0] * (sp[-1][0] + 1)
    for i, c in sp:
        l[i] = c
    return tuple(l)


def explore(make, bound, part=0, parts=1, fine=False):
    """Yield (choices, scheduler) for every schedule with at most
    `bound` preemptions.

    make() returns a function to run as the main thread. With parts > 1 the
    schedules are divided: those with fewer than two deviations from the default
    schedule are run for every part but yielded for part 0 only; of the
    subtrees below them every parts-th is run.
    """
    n = 0
    count = 0
    split = 2 if bound > 1 else 1
    stack = [((), 0)]
    while stack:
        choices, depth = stack.pop()
        s = Scheduler(choices, bound, fine)
        main = make()
        s.run(main)
        n += 1
        if not n % 64:
            gc.collect()
            gc.freeze()     # what is left is not looked at again
        if depth >= split or part == 0:
            yield [c for k, c in s.trace], s
        if s.problem and s.problem.startswith("harness"):
            continue
        for i in range(len(choices), len(s.trace)):
            k, c = s.trace[i]
            if k < 2:
                continue
            if depth == split - 1:
                count += 1
                if count % parts != part:
                    continue
            base = tuple(x for _, x in s.trace[:i])
            for alt in range(1, k):
                stack.append((base + (alt,), depth + 1))
