"""C24: the validator finds run-away and malformed rules; introspection is complete."""
import contextlib
import functools
import io
import itertools
import re

import parce
from parce import Language, lexicon, default_action, default_target, skip
from parce.lexicon import Lexicon
from parce.lexer import Lexer
from parce.standardaction import StandardAction
import parce.action as A

from mc.core import Violation, check, equal

LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of the pushdown system of every small set of default targets, plus enumeration of rule menus and languages, compared with the validator, the introspection functions and the real lexer"
RULE = ("every language of two or three lexicons with default targets out of all sequences of pops, pushes and repeats up to a length; every sequence of rules of a menu of "
        "well-formed and malformed rules; every language of the C14 menu of single rules and every bundled language with short texts; an outcome is a distinct verdict or set")
ASSUMPTIONS = ["a default target without any effect may be called an error or not", "actions computed by user functions are not known to the introspection"]

NAMES = "ABC"


def quiet(f, *args):
    with contextlib.redirect_stdout(io.StringIO()) as out:
        r = f(*args)
    return r, out.getvalue()


# -- default targets ---------------------------------------------------------

def step(state, target):
    """The lexicon stack after a default target (never leaving the lowest one is up to the caller)."""
    state = list(state)
    cur = state[-1]
    for t in target:
        if isinstance(t, int):
            if t < 0:
                del state[t:]
            else:
                state.extend([cur] * t)
        else:
            state.append(t)
    return tuple(state)


def explore(defs, start, root):
    """What following default targets from the lexicon does: "away", "round", "ends" or "leaves".

    With root True the lowest lexicon is never left (but re-entered, as the lexer does).
    """
    state = (start,)
    seen = set()
    noop = False
    while True:
        target = defs[state[-1]]
        if target is None:
            return "ends", noop
        if state in seen:
            return "round", noop
        seen.add(state)
        if len(state) > 40:
            return "away", noop
        new = clamp(state, target) if root else step(state, target)
        if not new:
            return "leaves", noop
        if new == state:
            noop = True
        state = new


def clamp(state, target):
    """As step(), but the lowest lexicon stays when more than the others are popped."""
    pop, push = 0, []
    for t in target:
        if isinstance(t, int):
            if t < 0:
                if -t <= len(push):
                    del push[t:]
                else:
                    pop += -t - len(push)
                    push = []
            else:
                push += [state[-1]] * t
        else:
            push.append(t)
    keep = max(1, len(state) - pop)
    return state[:keep] + tuple(push)


class Limited(list):
    def extend(self, items):
        list.extend(self, items)
        if len(self) > 300:
            raise OverflowError


def default_language(targets):
    ns = {}
    for name, target in zip(NAMES, targets):
        def rules(cls, name=name, target=target):
            yield "a" + name.lower() + "?", A.Name
            if target is not None:
                yield (default_target, *(t if isinstance(t, int) else getattr(cls, t) for t in target))
        rules.__name__ = name
        ns[name] = lexicon(rules)
    return type(Language)("L", (Language,), ns)


def run_defaults(targets):
    from parce.validate import validate_language, LexiconValidator
    L = default_language(targets)
    defs = dict(zip(NAMES, targets))
    names = NAMES[:len(targets)]
    away = [n for n in names if explore(defs, n, False)[0] == "away"]
    noop = any(explore(defs, n, r)[1] for n in names for r in (False, True))
    noop = noop or any(t is not None and step(tuple(names) * 2 + (n,), t) == tuple(names) * 2 + (n,) for n, t in defs.items())
    ok, out = quiet(validate_language, L)
    if away:
        check(ok is False, "run-away default targets from {} not reported".format(away))
        check("error" in out, "no error printed")
    elif not noop:
        check(ok is True, "default targets that end are reported: {}".format(out.strip()))
        check("error" not in out, "error printed", out)
    # the lexer agrees
    for n in names:
        for text in ("", "x", "xa", "axa"):
            lexer = Lexer([getattr(L, n)])
            lexer.lexicons = Limited(lexer.lexicons)
            try:
                k = sum(len(e.lexemes) for e in lexer.events(text))
                ran = False
            except OverflowError:
                ran = True
            if ran:
                check(not ok, "a language that validates runs away in {} with text {!r}".format(n, text))
            elif text:
                want = explore(defs, n, True)[0]
                check(want != "away" or text in ("a", "aa"), "lexer did not run away from {} in text {!r}, model says {}".format(n, text, want))
    return ok, tuple(away), "warning" in out


# -- rules -------------------------------------------------------------------

def M(name, make, bad=False, warn=False, special=None):
    return name, make, bad, warn, special


@functools.cache
def menu():
    from parce.rule import bygroup, select, call, ifgroup, ifarg, using, MATCH, TEXT, ARG, derive, arg, ifmember, dselect, target, words
    return [
        M("plain", lambda c: ("a", A.Name)),
        M("target", lambda c: ("b", A.Name, c.B, -1, 2)),
        M("tuple", lambda c: ["c", A.Name, -1]),
        M("groups", lambda c: ("(d)(e)", bygroup(A.Name, A.Text), c.B)),
        M("select", lambda c: ("f", select(call(len, TEXT), A.Name, (A.Text, -1)))),
        M("skip", lambda c: ("g", skip, -1)),
        M("derive", lambda c: ("h", A.Name, derive(c.B, TEXT))),
        M("using", lambda c: ("i", using(c.B), 1)),
        M("words", lambda c: (words(["jx", "jy"]), A.Name)),
        M("dselect", lambda c: ("k", dselect(TEXT, {"k": A.Name}, A.Text), -1)),
        M("arg", lambda c: (arg(default="l"), ifarg(A.Name, A.Text))),
        M("number", lambda c: ("m", A.Name, target(call(len, TEXT), c.B))),
        M("comment", lambda c: ("5 # (", A.Name), bad=lambda flags: not flags & re.VERBOSE),
        M("inline", lambda c: ("6(?x: # (\n)", A.Name)),
        M("verbose", lambda c: ("7#\n(", A.Name), bad=lambda flags: True),
        M("act", lambda c: (default_action, A.Name), special="default"),
        M("tgt", lambda c: (default_target, c.B), special="default"),
        M("empty", lambda c: ("n*", A.Name, -1), warn=True),
        M("none", lambda c: (None, A.Name), warn=True),
        M("repeat", lambda c: ("o", A.Name), warn="o"),
        M("bad regex", lambda c: ("p(", A.Name), True),
        M("bad group", lambda c: (r"(q)\2", A.Name), True),
        M("bad type", lambda c: (5, A.Name), True),
        M("no tuple", lambda c: "r", True),
        M("short", lambda c: ("s",), True),
        M("str target", lambda c: ("t", A.Name, "B"), True),
        M("none target", lambda c: ("u", A.Name, None), True),
        M("later target", lambda c: ("v", A.Name, c.B, 1.5), True),
        M("action target", lambda c: ("w", A.Name, A.Text), True),
        M("skip target", lambda c: ("x", skip, "B"), True),
        M("select target", lambda c: ("y", A.Name, select(call(len, TEXT), c.B, "B")), True),
        M("select deep", lambda c: ("z", select(call(len, TEXT), A.Name, (A.Text, select(call(len, TEXT), -1, (c.B, None))))), True),
        M("after select", lambda c: ("1", select(call(len, TEXT), A.Name, A.Text), -1, "B"), True),
        M("groups target", lambda c: ("(2)(3)", bygroup(A.Name, A.Text), c.B, "B"), True),
        M("using target", lambda c: ("4", using(c.B), "B"), True),
        M("bad default", lambda c: (default_target, "B"), True, special="default"),
    ]


def run_rules(seq, flags=0):
    from parce.validate import validate_language, LexiconValidator
    by = {m[0]: m for m in menu()}
    by = {n: m[:2] + (m[2](flags) if callable(m[2]) else m[2],) + m[3:] for n, m in by.items()}
    ms = [by[n] for n in seq]

    def root(cls):
        for m in ms:
            yield m[1](cls)

    def B(cls):
        yield "b", A.Name, -1
    L = type(Language)("L", (Language,), dict(root=lexicon(re_flags=flags)(root), B=lexicon(B)))
    bad = any(m[2] for m in ms) or sum(m[4] == "default" for m in ms) > 1
    warn = any(m[3] is True for m in ms) or any(a == b for a, b in itertools.combinations(seq, 2)
        if not by[a][2] or a in ("bad regex", "bad group", "bad type")) and len(set(s for s in seq if by[s][4] is None)) < sum(by[s][4] is None for s in seq)
    v = LexiconValidator(L.root)
    r = v.validate()
    equal(r, not bad, "verdict (errors {})".format(sorted(v.errors)))
    equal(bool(v.errors), bad, "errors")
    if not bad:
        equal(bool(v.warnings), warn, "warnings {}".format(sorted(v.warnings)))
    r2 = v.validate()
    equal(r2, r, "second verdict")
    ok, out = quiet(validate_language, L)
    equal(ok, not bad, "verdict on the language")
    equal(sorted(l for l in out.splitlines() if " error: " in l), sorted(e.splitlines()[0] for e in v.errors), "printed errors")
    # a language that validates parses
    if not bad:
        for text in ("", "abcde", "fghi jxjy", "klmnoo"):
            lexer = Lexer([L.root])
            lexer.lexicons = Limited(lexer.lexicons)
            for e in lexer.events(text):
                pass
    return bad, len(v.errors), len(v.warnings)


# -- introspection -----------------------------------------------------------

def fits(rule, variation):
    """True if the evaluated rule is one of the given variations."""
    from parce.ruleitem import a_number
    if len(rule) != len(variation):
        return False
    for a, b in zip(rule, variation):
        if b is a_number:
            if not isinstance(a, int):
                return False
        elif isinstance(a, Lexicon):
            if not isinstance(b, Lexicon) or a != b:
                return False
        elif a != b:
            return False
    return True


def flatten(tree):
    """All the paths through a decision tree."""
    paths = [()]
    for item in tree:
        if isinstance(item, frozenset):
            paths = [p + q for p in paths for t in item for q in flatten(t)]
        elif type(item) in (tuple, list):
            paths = [p + q for p in paths for q in flatten(item)]
        else:
            paths = [p + (item,) for p in paths]
    return paths


class Match:
    """A match object as the lexicon sees it: the rule's pattern is a group of a larger pattern."""
    def __init__(self, m):
        self.m = m
        self.lastindex = 0

    def __getattr__(self, name):
        return getattr(self.m, name)


def closure(lang, languages):
    todo, seen = [lang], {lang}
    while todo:
        for l in languages(todo.pop()):
            if l not in seen:
                seen.add(l)
                todo.append(l)
    return seen


def walk(node):
    for n in list.__iter__(node):
        yield n
        if n.is_context:
            yield from walk(n)


def run_cover(rules, default, mode, sub, n):
    from mc.checks import c14
    from parce import introspect
    L, lex, ref, start = c14.build(rules, default, mode, sub)
    names = sorted({k for c in L.mro() for k, v in vars(c).items() if type(v).__name__ == "LexiconDescriptor"})
    got = introspect.lexicons(L)
    equal(sorted(l.name for l in got), names, "names of all lexicons")
    check(all(isinstance(l, Lexicon) and l is getattr(L, l.name) for l in got), "lexicons")
    actions = introspect.standardactions(L)
    check(all(isinstance(a, StandardAction) for a in actions), "actions")
    out = set()
    for text in c14.texts(c14.ALPHABET, n):
        for l in got + [lex]:
            lexer = Lexer([l])
            lexer.lexicons = Limited(lexer.lexicons)
            try:
                for e in lexer.events(text):
                    for pos, txt, action in e.lexemes:
                        out.add(action)
                        check(action in actions, "action {} of text {!r} in {} is not in {}".format(action, text, l, sorted(map(str, actions))))
                    for p in e.target.push if e.target else ():
                        check(p.language is L, "language")
            except OverflowError:
                check(False, "runs away")
    return tuple(sorted(map(str, out)))


def run_variations(label):
    """Evaluating a rule gives one of the variations foretold, for every argument and match."""
    from mc.checks import c14
    from parce.ruleitem import variations, variations_tree, evaluate_rule, pre_evaluate_rule, Item
    from parce import introspect
    L, lex, ref, start = c14.build((label,), "none", "direct", 0)
    k = 0
    for argument in (None, "a", "b", "abc"):
        l = lex if argument is None else lex(argument)
        for rule in l:
            full = pre_evaluate_rule(rule, argument)
            rest = tuple(full[1:])
            vs = list(variations(rest))
            tree = [p for p in flatten(variations_tree(rest))]
            for t in vs:
                check(not any(isinstance(i, Item) and list(i.variations()) for i in t), "variation {} is dynamic".format(t))
            equal(sorted(map(repr, set(vs))), sorted(map(repr, set(tree))), "variations and decision tree")
            for text in c14.texts(c14.ALPHABET, 3):
                m = re.compile("(?:%s)" % full[0]).match(text) if isinstance(full[0], str) else None
                if not m or not m.group():
                    continue
                # groups are found as in the compiled lexicon, with lastindex at the rule's own group
                got = list(evaluate_rule(rest, Match(m)))
                for v in variations(got):
                    k += 1
                    check(any(fits(v, w) for w in vs), "rule {} with argument {!r} and text {!r} gives {}, not foretold in {}".format(rest, argument, text, v, vs))
    trees = list(introspect.decision_tree(lex)), list(introspect.decision_tree(lex, True))
    equal(len(trees[0]), len(list(lex)), "number of rules")
    equal(len(trees[1]), len(list(lex)), "number of rules")
    return label


def run_bundled(qn, texts_):
    from parce.registry import registry
    from parce import introspect
    from parce.validate import validate_language
    lex = registry.lexicon(qn)
    L = lex.language
    known = {}
    def get(lang):
        if lang not in known:
            langs = closure(lang, introspect.languages)
            acts = introspect.standardactions(lang)
            delegated = set().union(*(introspect.standardactions(l) for l in langs))
            known[lang] = (introspect.languages(lang), acts, delegated)
        return known[lang]
    for text in texts_:
        for n in walk(parce.root(lex, text)):
            lang = n.parent.lexicon.language
            langs, acts, delegated = get(lang)
            if n.is_context:
                l2 = n.lexicon.language
                check(l2 is lang or l2 in langs, "{!r}: language {} not in languages of {}".format(text, l2, lang))
            elif isinstance(n.action, StandardAction):
                ok = n.action in acts or n.action in delegated
                check(ok, "{!r}: action {} not in those of {}".format(text, n.action, lang))
    return len(known)


# -- hierarchies and transforms ----------------------------------------------

def run_hierarchy(shape):
    """shape: for every class a pair (indices of the bases, names it defines)."""
    from parce import introspect
    classes = []
    def body(cls):
        yield "a", A.Name
    for i, (bases, names) in enumerate(shape):
        ns = {}
        for n in names:
            f = lambda cls: iter([("a", A.Name)])
            f.__name__ = n
            ns[n] = lexicon(f)
        try:
            classes.append(type(Language)("C%d" % i, tuple(classes[b] for b in bases) or (Language,), ns))
        except TypeError:
            return "no mro"
    for c in classes:
        want = sorted({n for k, (b, names) in enumerate(shape) for n in names if issubclass(c, classes[k])})
        got = introspect.lexicons(c)
        equal([l.name for l in got], want, "lexicons of a class")
        for l in got:
            check(l is getattr(c, l.name) and l.language is c, "lexicon", l)
            owner = next(k for k in c.mro() if l.name in vars(k))
            check(l.descriptor is vars(owner)[l.name], "definition of", l)
    return len(want)


def run_transform(lexs, methods):
    from parce.transform import Transform
    from parce.validate import validate_transform
    ns = {}
    for n in lexs:
        f = lambda cls: iter([("a", A.Name)])
        f.__name__ = n
        ns[n] = lexicon(f)
    L = type(Language)("L", (Language,), ns)
    T = type("LTransform", (Transform,), {n: (None if kind == "none" else lambda self, items: items) for n, kind in methods.items()})
    ok, out = quiet(validate_transform, T(), L)
    missing = [n for n in lexs if n not in methods]
    equal(ok, not missing, "verdict")
    for n in lexs:
        equal(("lexicon: L." + n) in out, n in missing or methods.get(n) == "none", "lexicon {} mentioned in {!r}".format(n, out))
    return tuple(missing)


# -- driver ------------------------------------------------------------------

def options(names, n, items=None):
    items = items or [-1, -2, 1, 2] + list(names)
    for i in range(1, n + 1):
        yield from itertools.product(items, repeat=i)


def shards(tier):
    quick = tier == "quick"
    out = [["two", i, 12, 3 if not quick else 2] for i in range(12)]
    out += [["three", i, 24, quick] for i in range(24)]
    out += [["rules", i, 16, 2 if quick else 3] for i in range(16)]
    from mc.checks import c14
    out += [["cover", l, 3 if quick else 4] for l in c14.LABELS]
    from mc.checks import c02
    out += [["bundled", qn, name, 2 if quick else 3] for qn, name in c02.entries()]
    out += [["hierarchy"], ["transform"]]
    return out


def bounds(tier):
    q = tier == "quick"
    return ("all default targets of up to {} items for two lexicons and of up to {} for three; all sequences of up to {} of 33 rules; all single rules of C14 x defaults x composition modes with texts "
        "up to {}; 26 bundled languages with up to {} fragments; all hierarchies of three classes; all transforms for three lexicons").format(
        2 if q else 3, "1 (and 2 of a smaller choice)" if q else 2, 2 if q else 3, 3 if q else 4, 2 if q else 3)


def run_shard(s, rec):
    kind = s[0]
    def case(c, f, *args):
        rec.transitions += 1
        rec.state(repr(c))
        r = rec.run(dict(c), f, *args)
        rec.outcome((kind, r))
    if kind == "two":
        opts = [None] + list(options("AB", s[3]))
        for x in opts[s[1]::s[2]]:
            for y in opts:
                case(dict(targets=[x, y]), run_defaults, (x, y))
    elif kind == "three":
        opts = [None] + list(options("ABC", 1 if s[3] else 2))
        if s[3]:
            opts += [t for t in options("ABC", 2, [-1] + list("ABC")) if len(t) == 2]
        for x in opts[s[1]::s[2]]:
            for y in opts:
                for z in opts:
                    if {x, y, z} - {None} and (not s[3] or sum(len(t or ()) for t in (x, y, z)) < 6):
                        case(dict(targets=[x, y, z]), run_defaults, (x, y, z))
    elif kind == "rules":
        names = [m[0] for m in menu()]
        seqs = [t for i in range(s[3] + 1) for t in itertools.product(names, repeat=i)]
        for t in seqs[s[1]::s[2]]:
            for flags in (0, int(re.VERBOSE)):
                case(dict(rules=t, flags=flags), run_rules, t, flags)
    elif kind == "cover":
        from mc.checks import c14
        case(dict(variations=s[1]), run_variations, s[1])
        for d in c14.DEFAULTS:
            for mode in c14.MODES:
                for sub in range(len(c14.SUBS)):
                    case(dict(cover=[s[1]], default=d, mode=mode, sub=sub, n=s[2]), run_cover, (s[1],), d, mode, sub, s[2])
    elif kind == "bundled":
        from mc.checks import c02
        frags = list(dict.fromkeys(c02.GENERIC + c02.SPECIFIC.get(s[2], [])))
        pool = list(dict.fromkeys(c02.SPECIFIC.get(s[2], []) + c02.SMALL.get(s[2], [])))
        for f in frags:
            ts = [f] + [f + g for g in frags] + ([f + g + h for g in frags for h in frags] if s[3] > 2 else [f + g + h for g in pool[:12] for h in pool[:12]])
            case(dict(bundled=s[1], texts=ts), run_bundled, s[1], ts)
    elif kind == "hierarchy":
        subsets = [(), ("x",), ("y",), ("x", "y")]
        for n0, n1, n2 in itertools.product(subsets, repeat=3):
            for b1 in ((), (0,)):
                for b2 in ((), (0,), (1,), (0, 1), (1, 0)):
                    case(dict(shape=[[(), n0], [b1, n1], [b2, n2]]), run_hierarchy, (((), n0), (b1, n1), (b2, n2)))
    elif kind == "transform":
        for k in range(1, 4):
            lexs = "xyz"[:k]
            for kinds in itertools.product(("method", "none", "missing"), repeat=3):
                case(dict(lexs=lexs, kinds=kinds), run_transform, list(lexs), {n: q for n, q in zip("xyz", kinds) if q != "missing"})


def replay(c, rec):
    tup = lambda t: None if t is None else tuple(t)
    if "targets" in c:
        rec.run(c, run_defaults, tuple(map(tup, c["targets"])))
    elif "rules" in c:
        rec.run(c, run_rules, tuple(c["rules"]), c["flags"])
    elif "variations" in c:
        rec.run(c, run_variations, c["variations"])
    elif "cover" in c:
        rec.run(c, run_cover, tuple(c["cover"]), c["default"], c["mode"], c["sub"], c["n"])
    elif "bundled" in c:
        rec.run(c, run_bundled, c["bundled"], c["texts"])
    elif "shape" in c:
        rec.run(c, run_hierarchy, tuple((tuple(a), tuple(b)) for a, b in c["shape"]))
    else:
        rec.run(c, run_transform, list(c["lexs"]), {n: q for n, q in zip("xyz", c["kinds"]) if q != "missing"})
