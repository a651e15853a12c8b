"""C26: standard actions, dispatchers and sister classes resolve along their hierarchies."""
import copy
import itertools
import sys
import types

import parce.action
from parce.standardaction import StandardAction
from parce import util

from mc.core import Violation, check, equal

LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration: creation histories of action hierarchies x pairs, class hierarchies with dispatchers x access orders x keys, module layouts of sister classes; against plain path, method table and name lookups"
RULE = ("every history of creating actions up to a length and every pair of the actions, every hierarchy of up to three (four in a diamond) classes and every assignment of dispatchers, keys and overriding methods to them, "
    "in every order of first access; an outcome is a distinct answer")
ASSUMPTIONS = ["a new dispatcher without default method in a subclass may inherit the default method or have none", "keys are hashable, method names are those of the class"]


# -- standard actions -------------------------------------------------------------

COUNT = [0]


def resolve(path, style):
    """Get the action for the path in one of the ways."""
    if style == "attr":
        a = StandardAction(path[0])
        for n in path[1:]:
            a = getattr(a, n)
    else:
        a = None
        for n in path:
            a = StandardAction(n, a)
    return a


def action_checks(known):
    """known: dict path -> action; all pairs are compared with the paths."""
    for p, a in known.items():
        equal([x for x in a], [known.get(p[:i], x) for i, x in zip(range(len(p), 0, -1), a)], "iteration of {}".format(p))
        equal(len(list(a)), len(p), "depth of {}".format(p))
        check(next(iter(a)) is a, "iteration starts with the action itself", p)
        equal(repr(a), ".".join(p), "repr")
        for style in ("attr", "call"):
            check(resolve(p, style) is a, "the same name gives the same action", p)
        check(copy.copy(a) is a and copy.deepcopy([a])[0] is a, "a copy is the same action", p)
        for n in {n for q in known for n in q} | {"Zz"}:
            equal(n in a, n in p, "{!r} in {}".format(n, p))
        try:
            a._nothing
        except AttributeError:
            pass
        else:
            raise Violation("an underscore attribute of {} exists".format(p))
        check(bool(a), "an action is true")
    for p, a in known.items():
        for q, b in known.items():
            equal(a is b, p == q, "identity of {} and {}".format(p, q))
            equal(a in b, p[:len(q)] == q, "{} in {}".format(p, q))
            n = 0
            while n < min(len(p), len(q)) and p[n] == q[n]:
                n += 1
            c = a & b
            if n:
                check(c is resolve(p[:n], "call"), "{} & {}: got {}".format(p, q, c))
            else:
                check(c is None, "{} & {}: got {}".format(p, q, c))
    return repr(sorted(known))


def action_case(paths, styles, base=None):
    COUNT[0] += 1
    tops = {n: "T{}{}".format(COUNT[0], n) for n in "AB"}
    known = {}
    for p, s in zip(paths, styles):
        p = (tops[p[0]], *p[1:])
        known[p] = resolve(p, s)
    action_checks(known)
    return repr(paths)


def bundled_actions():
    known = {}
    for v in vars(parce.action).values():
        if isinstance(v, StandardAction):
            p = tuple(repr(v).split("."))
            known[p] = v
    return known


def bundled_case(i):
    known = bundled_actions()
    keys = sorted(known)
    part = {k: known[k] for k in keys}
    sub = dict(part)
    for k in keys[i::8]:
        sub[k + ("Definition",)] = known[k].Definition
        sub[k + ("Invalid", "Definition")] = known[k].Invalid.Definition
    return action_checks(sub)


PATHS = [p for n in (1, 2, 3) for p in itertools.product("AB", repeat=n)]


# -- dispatchers --------------------------------------------------------------------

KEYS = (1, "k")
# what a class has: (dispatcher: None, "plain", "default"; keys for f; keys for g; overrides)
def class_menu(first):
    out = []
    for disp in (("plain", "default") if first else (None, "plain", "default")):
        for fk in ((), (1,), (1, "k")):
            for gk in ((), ("k",), (1,)):
                if disp is None and (fk or gk):
                    continue
                if set(fk) & set(gk):
                    continue
                for override in ("", "f", "fg") if not first else ("fg",):
                    out.append((disp, fk, gk, override))
    return out


def make_class(name, bases, spec):
    disp, fk, gk, override = spec
    ns = {}
    d = None
    if disp == "plain":
        d = util.Dispatcher()
    elif disp == "default":
        def dispatch(self, key, *args, **kwargs):
            return (name, "default", key, args, kwargs)
        d = util.Dispatcher(dispatch)
    if d is not None:
        ns["dispatch"] = d
    def method(m, keys):
        def func(self, *args, **kwargs):
            return (name, m, args, kwargs)
        func.__name__ = m
        if keys:
            func = d(*keys)(func)
        ns[m] = func
    for m, keys in (("f", fk), ("g", gk)):
        if m in override or keys:
            method(m, keys)
    return type(name, bases, ns)


def specs_mro(cls, info):
    return [(c, info[c.__name__]) for c in cls.__mro__ if c.__name__ in info]


def dispatch_expected(cls, info, key):
    """(class and method name) the key leads to, "default"/None; and the possible classes of the default."""
    mro = specs_mro(cls, info)
    name = None
    for c, (disp, fk, gk, override) in mro:
        if disp is not None:
            if key in fk:
                name = "f"
            elif key in gk:
                name = "g"
            if name:
                break
    if name:
        for c, (disp, fk, gk, override) in mro:
            if name in override or (fk if name == "f" else gk):
                return [(c.__name__, name)]
        raise AssertionError
    first = True
    out = []
    for c, (disp, fk, gk, override) in mro:
        if disp == "default":
            out.append((c.__name__, "default"))
            return out
        if disp == "plain" and first:
            out.append(None)
        first = first and disp is None
    return out or [None]


SHAPES = {
    "chain2": [("P", ()), ("Q", ("P",))],
    "chain3": [("P", ()), ("Q", ("P",)), ("R", ("Q",))],
    "mixin": [("P", ()), ("Q", ()), ("R", ("P", "Q"))],
    "diamond": [("P", ()), ("Q", ("P",)), ("R", ("P",)), ("S", ("Q", "R"))],
}


def dispatch_case(shape, specs, order):
    classes, info = {}, {}
    for (name, bases), spec in zip(SHAPES[shape], specs):
        classes[name] = make_class(name, tuple(classes[b] for b in bases) or (object,), spec)
        info[name] = spec
    log = []
    names = [n for n, _ in SHAPES[shape]]
    for n in order:
        cls = classes[names[n]]
        obj = cls()
        for key in (1, "k", "other"):
            want = dispatch_expected(cls, info, key)
            got = obj.dispatch(key, 5, x=6)
            allowed = []
            for w in want:
                if w is None:
                    allowed.append(None)
                elif w[1] == "default":
                    allowed.append((w[0], "default", key, (5,), {"x": 6}))
                else:
                    allowed.append((*w, (5,), {"x": 6}))
            check(got in allowed, "dispatch({!r}) of {} gave {!r}, expected {!r}".format(key, cls.__name__, got, allowed))
            m = obj.dispatch.get(key)
            w = want[0]
            if w is None or w[1] == "default":
                check(m is None, "get({!r}) of {}".format(key, cls.__name__))
            else:
                check(m is not None and m.__self__ is obj, "get() gives a bound method", key)
                equal(m(7), (*w, (7,), {}), "get({!r})".format(key))
            log.append(want)
        d = obj.dispatch.default
        want = dispatch_expected(cls, info, "other")
        if d is None:
            check(None in want, "no default method", cls.__name__)
        else:
            equal(d("z", 1), (want[-1][0], "default", "z", (1,), {}), "default")
    return repr(log)


# -- sister classes, lists -------------------------------------------------------------

class Base:
    pass


def sister_case(modules, sisters, try_parents):
    """modules: module of each of three languages; sisters: per language None, "yes" (in its own module), "no" (no subclass), "elsewhere", "instance"."""
    from parce import Language
    mods = {}
    for m in "ab":
        mods[m] = types.ModuleType("c26_" + m)
        sys.modules["c26_" + m] = mods[m]
    try:
        langs, base = [], Language
        for name, m, s in zip(("L1", "L2", "L3"), modules, sisters):
            base = type(Language)(name, (base,), {"__module__": "c26_" + m})
            setattr(mods[m], name, base)
            langs.append(base)
            cls = type(name + "Sister", (Base,), {})
            other = mods["b" if m == "a" else "a"]
            if s == "yes":
                setattr(mods[m], name + "Sister", cls)
            elif s == "no":
                setattr(mods[m], name + "Sister", type(name + "Sister", (), {}))
            elif s == "elsewhere":
                setattr(other, name + "Sister", cls)
            elif s == "instance":
                setattr(mods[m], name + "Sister", cls())
        out = []
        for i, l in enumerate(langs):
            want = None
            for j in range(i, -1, -1) if try_parents else [i]:
                if sisters[j] == "yes":
                    want = getattr(mods[modules[j]], "L{}Sister".format(j + 1))
                    break
            got = util.language_sister_class(l, "{}Sister", Base, try_parents)
            check(got is want, "sister class of {}: got {}, expected {}".format(l.__name__, got, want))
            out.append(want and want.__name__)
        return repr(out)
    finally:
        del sys.modules["c26_a"], sys.modules["c26_b"]


def nested(n, depth):
    """All nested lists/tuples with n leaves."""
    def forests(n, d):
        if n == 0:
            yield ()
            return
        for k in range(1, n + 1):
            for first in items(k, d):
                for rest in forests(n - k, d):
                    yield (first, *rest)
    def items(k, d):
        if k == 1:
            yield 0
        if d:
            for f in forests(k, d - 1):
                yield f
                yield list(f)
    return forests(n, depth)


def flatten(o):
    return [x for i in o for x in flatten(i)] if type(o) in (list, tuple) else [o]


def unroll_case(o):
    for obj in (o, list(o), (o, ()), [[], o, []]):
        equal(list(util.unroll(obj)), flatten(obj), "unroll({!r})".format(obj))
    equal(list(util.unroll("ab")), ["ab"], "unroll of a string")
    return repr(o)


def split_case(l):
    want = [list(x) for x in "".join(l).split(",")]
    equal([list(x) for x in util.split_list(list(l), ",")], want, "split_list({!r})".format(l))
    equal([list(x) for x in util.split_list(tuple(l), ",")], want, "split_list({!r})".format(l))
    return repr(want)


# -- driver --------------------------------------------------------------------------------

def shards(tier):
    n = 4 if tier == "quick" else 5
    out = [["actions", n, i] for i in range(len(PATHS))]
    out += [["bundled", i] for i in range(8)]
    for shape in SHAPES:
        out += [["dispatch", shape, tier, i] for i in range(len(class_menu(True)))]
    out += [["sister"], ["lists", 5 if tier == "quick" else 7]]
    return out


def bounds(tier):
    n = 4 if tier == "quick" else 5
    return ("all histories of creating {} of the 14 actions of up to 3 levels over two names, by attribute or by call, all pairs; all bundled actions and their derivatives; all chains of 2 and 3 classes, "
        "mixins{} with {} specifications per class, every order of first access; sister classes of three languages in two modules; nested lists of up to {} items").format(
        n, " and diamonds (smaller menu)", len(class_menu(False)), 5 if tier == "quick" else 7)


def run_shard(s, rec):
    if s[0] == "actions":
        _, n, i = s
        for rest in itertools.permutations([p for j, p in enumerate(PATHS) if j != i], n - 1):
            paths = (PATHS[i], *rest)
            # the ways alternate; all assignments for the short histories
            for styles in (itertools.product(("attr", "call"), repeat=n) if n <= 3 else (("attr", "call") * n, ("call", "attr") * n)):
                r = rec.run(dict(kind="actions", paths=paths, styles=styles[:n]), action_case, paths, styles[:n])
                rec.transitions += n
                rec.state(paths)
                rec.outcome(r)
    elif s[0] == "bundled":
        rec.outcome(rec.run(dict(kind="bundled", i=s[1]), bundled_case, s[1]))
    elif s[0] == "dispatch":
        _, shape, tier, i = s
        classes = SHAPES[shape]
        menus = []
        for k, (name, bases) in enumerate(classes):
            m = class_menu(not bases)
            if shape in ("diamond", "mixin", "chain3") and tier == "quick" or shape == "diamond":
                m = m if k == 0 else [x for x in m if x in (
                    (None, (), (), ""), (None, (), (), "f"), (None, (), (), "fg"), ("plain", (), (), ""), ("plain", (1,), (), "f"), ("plain", (1,), ("k",), ""), ("plain", (), (1,), ""), ("plain", (1, "k"), (), "fg"),
                    ("plain", (1,), (), "fg"), ("plain", (), ("k",), "fg"), ("plain", (), (1,), "fg"),
                    ("default", (), (), ""), ("default", (1,), (), ""), ("default", (), (1,), "fg"))]
            menus.append(m)
        if i >= len(menus[0]):
            return
        menus[0] = [menus[0][i]]
        n = len(classes)
        orders = list(itertools.permutations(range(n))) if n < 4 else [(0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2), (2, 0, 3, 1)]
        for specs in itertools.product(*menus):
            for order in orders:
                r = rec.run(dict(kind="dispatch", shape=shape, specs=specs, order=order), dispatch_case, shape, specs, order)
                rec.transitions += n
                rec.outcome((shape, r))
            rec.state((shape, specs))
    elif s[0] == "sister":
        for modules in itertools.product("ab", repeat=3):
            for sisters in itertools.product((None, "yes", "no", "elsewhere", "instance"), repeat=3):
                for tp in (False, True):
                    r = rec.run(dict(kind="sister", modules=modules, sisters=sisters, try_parents=tp), sister_case, modules, sisters, tp)
                    rec.transitions += 1
                    rec.outcome(("sister", r))
    else:
        for n in range(s[1] + 1):
            for o in nested(n, 3 if n < 5 else 2):
                rec.outcome(("unroll", rec.run(dict(kind="unroll", obj=repr(o)), unroll_case, o)))
                rec.transitions += 1
            for l in itertools.product("ab,", repeat=n):
                rec.outcome(("split", rec.run(dict(kind="split", list=l), split_case, l)))
                rec.transitions += 1


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, list) else x


def replay(c, rec):
    k = c["kind"]
    if k == "actions":
        rec.run(c, action_case, tup(c["paths"]), c["styles"])
    elif k == "bundled":
        rec.run(c, bundled_case, c["i"])
    elif k == "dispatch":
        rec.run(c, dispatch_case, c["shape"], tup(c["specs"]), c["order"])
    elif k == "sister":
        rec.run(c, sister_case, c["modules"], c["sisters"], c["try_parents"])
    elif k == "unroll":
        rec.run(c, unroll_case, eval(c["obj"]))
    else:
        rec.run(c, split_case, c["list"])
