"""C16: events reach exactly the connected handlers, in order."""
import contextlib
import itertools

from parce.util import Observable, Switch, Dispatcher

from mc.core import Violation, check, equal

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of connection histories with handlers that connect, disconnect and emit, against a list model"
RULE = ("every connection order, priority and once flag of three handlers x every assignment of actions the handlers perform when "
        "called x emit sequences; every operation history over one observable; an outcome is a distinct call log")
ASSUMPTIONS = ["connecting a handler that is already connected changes nothing",
    "a handler connected while an event is being emitted is called from the next emit on; one disconnected before its turn is not called"]


def bounds(tier):
    return "3 handlers (function, bound method, with observable), 4 connection modes, {} scripts each, 2 emits, nesting depth 2; histories of {} operations on 2 events; switch histories <= {}".format(
        *(("10 (for two of the three)", 5, 8) if tier == "quick" else (10, 6, 10)))


class Model:
    """Reference: per event a list of [handler, once, priority, serial]."""
    def __init__(self):
        self.slots = {}
        self.serial = 0

    def connect(self, ev, h, once=False, prio=0):
        l = self.slots.setdefault(ev, [])
        if not any(s[0] == h for s in l):
            self.serial += 1
            l.append([h, once, prio, self.serial])
            l.sort(key=lambda s: (s[2], s[3]))

    def disconnect(self, ev, h):
        l = self.slots.get(ev, [])
        l[:] = [s for s in l if s[0] != h]

    def disconnect_all(self, ev=None):
        if ev is None:
            for l in self.slots.values():
                del l[:]
        else:
            self.slots.get(ev, [])[:] = []

    def emit(self, ev, call):
        for s in list(self.slots.get(ev, [])):
            cur = self.slots[ev]
            if any(x is s for x in cur):
                if s[1]:
                    cur.remove(s)
                call(s[0])


class Owner:
    def __init__(self, func):
        self.func = func

    def method(self, *args):
        return self.func(*args)

    def method_self(self, obs, *args):
        return self.func(*args, obs)


SCRIPTS = ["none", "d0", "d1", "d2", "c0", "c1", "c2", "o2", "emit", "all"]


def run_script(script, target, emit):
    """Perform a handler's action on the real or the model object."""
    if script == "none":
        return
    if script == "emit":
        emit()
    elif script == "all":
        target.disconnect_all("e")
    elif script[0] == "d":
        target.disconnect("e", int(script[1]))
    elif script[0] == "c":
        target.connect("e", int(script[1]))
    elif script[0] == "o":
        target.connect("e", int(script[1]), True)


class Real:
    """The observable with handlers addressed by number."""
    def __init__(self, log, behave):
        self.o = Observable()
        self.log = log
        self.behave = behave
        self.owner = Owner(lambda *a: self.called(1, a))
        self.owner3 = Owner(lambda *a: self.called(3, a))
        self.h = [None] * 4

    def setup(self):
        def f0(*args):
            return self.called(0, args)

        def f2(obs, *args):
            if obs is not self.o:
                raise Violation("the observable is not the first argument")
            return self.called(2, args)
        self.h[0], self.h[2] = f0, f2
        return self

    def get(self, i):
        return (self.h[0], self.owner.method, self.h[2], self.owner3.method_self)[i]

    def called(self, i, args):
        if i == 3:
            if not args or args[-1] is not self.o:
                raise Violation("the observable is not the first argument")
            args = args[:-1]
        self.log.append((i, args))
        return self.behave(i)

    def connect(self, ev, i, once=False, prio=0):
        self.o.connect(ev, self.get(i), once, i >= 2, prio)

    def disconnect(self, ev, i):
        self.o.disconnect(ev, self.get(i))

    def disconnect_all(self, ev=None):
        self.o.disconnect_all(ev)


MODES = [(False, 0), (True, 0), (False, 1), (False, -1)]


def reentrant(order, modes, scripts, emits=2):
    """Handlers that act on the observable while being called."""
    log, mlog = [], []
    depth = [0]

    def behave(i):
        if depth[0] < 2:
            run_script(scripts[i], r, real_emit)

    def real_emit():
        depth[0] += 1
        try:
            r.o.emit("e", depth[0])
        finally:
            depth[0] -= 1
    r = Real(log, behave).setup()
    m = Model()
    mdepth = [0]

    def mcall(h):
        mlog.append((h, (mdepth[0],)))
        if mdepth[0] < 2:
            run_script(scripts[h], m, memit)

    def memit():
        mdepth[0] += 1
        m.emit("e", mcall)
        mdepth[0] -= 1
    for i in order:
        if modes[i] is not None:
            r.connect("e", i, *modes[i])
            m.connect("e", i, *modes[i])
    for n in range(emits):
        real_emit()
        memit()
        equal(log, mlog, "calls (handler, argument)")
        for i in range(3):
            equal(r.o.is_connected("e", r.get(i)), any(s[0] == i for s in m.slots.get("e", ())), "is_connected({})".format(i))
        equal(bool(r.o.has_connections("e")), bool(m.slots.get("e")), "has_connections")
    return tuple(log)


HOPS = [("connect", "e", 0), ("connect", "e", 1, False, 1), ("connect", "e", 2, True), ("connect", "f", 0, True, -1), ("connect", "e", 3, False, -1),
        ("disconnect", "e", 0), ("disconnect", "e", 1), ("disconnect", "f", 0), ("disconnect", "e", 3), ("all", "e"), ("all", None), ("emit", "e"), ("emit", "f"), ("kill",)]


def history(ops):
    log, mlog = [], []
    r = Real(log, lambda i: None).setup()
    m = Model()
    n = 0
    for op in ops:
        name, *a = op
        if name == "emit":
            n += 1
            r.o.emit(a[0], n, a[0])
            m.emit(a[0], lambda h: mlog.append((h, (n, a[0]))))
        elif name == "all":
            r.disconnect_all(a[0])
            m.disconnect_all(a[0])
        elif name == "kill":
            # the owner of the method goes away: its handler is gone
            r.owner3 = Owner(lambda *x: r.called(3, x))
            for ev in list(m.slots):
                m.disconnect(ev, 3)
        else:
            getattr(r, name)(*a)
            getattr(m, name)(*a)
        equal(log, mlog, "calls")
        for ev in "ef":
            for i in range(4):
                equal(r.o.is_connected(ev, r.get(i)), any(s[0] == i for s in m.slots.get(ev, ())), "is_connected({}, {})".format(ev, i))
            if "kill" not in [o[0] for o in ops]:
                equal(bool(r.o.has_connections(ev)), bool(m.slots.get(ev)), "has_connections({})".format(ev))
    return tuple(log)


def contexts(kinds, raises):
    """Context managers returned by handlers are entered in order and left in reverse order."""
    log = []
    o = Observable()

    def make(i, kind):
        @contextlib.contextmanager
        def cm(*a):
            log.append(("in", i, a))
            try:
                yield
            finally:
                log.append(("out", i))

        def plain(*a):
            log.append(("call", i, a))
            return kind
        return cm if kind == "cm" else plain
    hs = [make(i, k) for i, k in enumerate(kinds)]
    for h in hs:
        o.connect("e", h)
    try:
        with o.emit("e", 7):
            log.append("body")
            if raises:
                raise KeyError
    except KeyError:
        check(raises, "unexpected KeyError")
    else:
        check(not raises, "exception was swallowed")
    want = [("in" if k == "cm" else "call", i, (7,)) for i, k in enumerate(kinds)] + ["body"]
    want += [("out", i) for i, k in reversed(list(enumerate(kinds))) if k == "cm"]
    equal(log, want, "contexts")


class Holder:
    a = Switch()
    b = Switch()


def switch(ops):
    """Nested switches of two instances, and a plain one."""
    h1, h2 = Holder(), Holder()
    get = dict(p=Switch(), a=None, b=None, c=None)
    lookup = lambda k: get["p"] if k == "p" else h1.a if k == "a" else h2.a if k == "b" else h1.b
    depth = dict(p=0, a=0, b=0, c=0)
    for op, k in ops:
        if op == "in":
            lookup(k).__enter__()
            depth[k] += 1
        elif depth[k]:
            r = lookup(k).__exit__(*((None, None, None) if op == "out" else (KeyError, KeyError(), None)))
            check(not r, "exception swallowed")
            depth[k] -= 1
        for x in depth:
            equal(bool(lookup(x)), depth[x] > 0, "switch {} after {}".format(x, ops))
    return tuple(depth.values())


def dispatch(over, extra, key, default):
    """Dispatchers with overridden methods and added keys in subclasses."""
    def fallback(self, key, v):
        return ("default", self, key, v)

    class A:
        d = Dispatcher(fallback) if default else Dispatcher()

        @d(1)
        def one(self, v):
            return ("A.one", self, v)

        @d(2, 3)
        def two(self, v):
            return ("A.two", self, v)

    ns = {}
    if "one" in over:
        ns["one"] = lambda self, v: ("B.one", self, v)
    if "two" in over:
        ns["two"] = lambda self, v: ("B.two", self, v)
    if extra:
        d = Dispatcher(fallback) if default else Dispatcher()
        ns["d"] = d

        def three(self, v):
            return ("B.three", self, v)
        ns["three"] = d(*extra)(three)
    B = type("B", (A,), ns)
    for cls in ((A, B, A) if key % 2 else (B, A, B)):
        i = cls()
        table = {1: "A.one", 2: "A.two", 3: "A.two"}
        if cls is B:
            if "one" in over:
                table[1] = "B.one"
            if "two" in over:
                table[2] = table[3] = "B.two"
            for k in extra:
                table[k] = "B.three"
        got = i.d(key, 5)
        if key in table:
            equal(got, (table[key], i, 5), "dispatch")
            equal(i.d.get(key)(6), (table[key], i, 6), "get")
        else:
            equal(got, ("default", i, key, 5) if default else None, "dispatch default")
            equal(i.d.get(key), None, "get")


FUNCS = dict(reentrant=reentrant, history=history, contexts=contexts, switch=switch, dispatch=dispatch)


def shards(tier):
    q = tier == "quick"
    out = [dict(k="re", order=list(o), s0=s, tier=tier) for o in itertools.permutations(range(3)) for s in SCRIPTS]
    out += [dict(k="hist", n=5 if q else 6, first=i) for i in range(len(HOPS))]
    out += [dict(k="misc", n=8 if q else 10)]
    return out


def run_shard(s, rec):
    def case(f, *args):
        rec.transitions += 1
        r = rec.run(dict(f=f, args=list(args)), FUNCS[f], *args)
        rec.outcome((f, r))
        rec.state((f, repr(args)))
    if s["k"] == "re":
        for modes in itertools.product([None] + MODES, repeat=3):
            if modes[0] is None and s["s0"] != "none":
                continue
            for s1 in SCRIPTS:
                if modes[1] is None and s1 != "none":
                    continue
                for s2 in SCRIPTS:
                    if modes[2] is None and s2 != "none" and "c2" not in (s["s0"], s1) and "o2" not in (s["s0"], s1):
                        continue
                    if s["tier"] == "quick" and [s["s0"], s1, s2].count("none") < 1 and (modes[0] != modes[1] or modes[2] != (False, 0)):
                        continue
                    case("reentrant", s["order"], modes, [s["s0"], s1, s2])
    elif s["k"] == "hist":
        for n in range(s["n"]):
            for t in itertools.product(HOPS, repeat=n):
                if t and t[-1][0] not in ("emit", "all", "disconnect"):
                    continue
                case("history", [HOPS[s["first"]]] + list(t))
        rec.sample(dict(history=[HOPS[s["first"]]] + list(t)))
    else:
        for n in range(5):
            for kinds in itertools.product(["cm", None, 3], repeat=n):
                for r in (False, True):
                    case("contexts", kinds, r)
        for n in range(5):
            for ops in itertools.product([(o, k) for o in ("in", "out", "exc") for k in "pabc"], repeat=n):
                case("switch", ops)
        for n in range(5, s["n"] + 1):
            for ops in itertools.product([(o, k) for o in ("in", "out") for k in "ab"], repeat=n):
                if n < 7 or sum(o == "in" for o, k in ops) * 2 >= n and ops[0] == ("in", "a") and (n < 8 or ops[1] == ("in", "b")):
                    case("switch", ops)
        for over in ((), ("one",), ("two",), ("one", "two")):
            for extra in ((), (1,), (3, 4), (5,)):
                for key in range(1, 7):
                    for default in (False, True):
                        case("dispatch", over, extra, key, default)


def replay(case, rec):
    a = case["args"]
    if case["f"] == "reentrant":
        a[1] = [m and tuple(m) for m in a[1]]
    rec.run(case, FUNCS[case["f"]], *a)
