"""C14: lexicon rules mean the same however they are compiled."""
import itertools
import operator
import re

import parce
from parce import Language, lexicon, default_action, default_target, skip
from parce.action import Text, Name, Keyword, Comment, Number
from parce.lexer import Lexer
from parce.lexicon import Lexicon
from parce.rule import (ARG, MATCH, TEXT, anyof, arg, bygroup, call, chars, derive, dselect, findmember,
    gselect, ifarg, ifeq, ifgroup, ifmember, ifneq, pattern, select, target, using, words)

from mc.core import Violation, check, equal
from mc.treeutil import check_tree

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small languages over a menu of rules x all short texts against a reference lexer that evaluates the rules one by one"
RULE = ("every language of a root lexicon (<= 2 rules of the menu x default rule x flags) and a second lexicon (from a menu), every text over the "
        "alphabet up to a length; the reference matches each rule separately and keeps its own stack; an outcome is a distinct event list")
ASSUMPTIONS = ["a rule that can match the empty text has a target", "a lexicon has at most one default rule, as the validator demands",
    "texts on which a language comes back in the same state without advancing are only checked for termination and well-formedness"]

ALPHABET = "abc"
R, S, O = "root", "sub", "other"


def T_(action, i=0):
    return lambda m, a: [(m.start(i), m.group(i), action)]


def G_(*actions):
    """Reference of bygroup with plain actions (None: skip)."""
    return lambda m, a: [(m.start(i), m.group(i), act) for i, act in enumerate(actions, 1) if act is not None and m.group(i)]


def tgt(*targets):
    return lambda m, a: list(targets)


def if_(cond, yes, no):
    return lambda m, a: (yes if cond(m, a) else no)(m, a)


class Rule:
    """real(cls): the rule; pat(arg): the pattern; lex(m, arg): [(pos, text, action)]; tg(m, arg): [int | (name, arg)]"""
    def __init__(self, label, real, pat, lex, tg=tgt()):
        self.label, self.real, self.lex, self.tg = label, real, lex, tg
        self.pat = pat if callable(pat) else lambda a: pat


def using_sub(i=0):
    """reference of using(cls.sub): flattened tokens of lexing with sub (filled in by the Reference)"""
    return lambda m, a: [("using", m.start(i), m.group(i))] if m.group(i) else []


def cat(*fs):
    return lambda m, a: [x for f in fs for x in f(m, a)]


sub = (S, None)

RULES = [
    Rule("a", lambda c: ("a", Text), "a", T_(Text)),
    Rule("b>sub", lambda c: ("b", Name, c.sub), "b", T_(Name), tgt(sub)),
    Rule("ab>-1", lambda c: ("ab", Keyword, -1), "ab", T_(Keyword), tgt(-1)),
    Rule("[ab]", lambda c: ("[ab]", Text), "[ab]", T_(Text)),
    Rule("a|bc>sub,sub", lambda c: ("a|bc", Name, c.sub, c.sub), "a|bc", T_(Name), tgt(sub, sub)),
    Rule("(a)(b)?", lambda c: ("(a)(b)?", bygroup(Text, Name)), "(a)(b)?", G_(Text, Name)),
    Rule("(a)(b?)>1", lambda c: ("(a)(b?)", bygroup(Keyword, skip), 1), "(a)(b?)", G_(Keyword, None), tgt(1)),
    Rule("(?=b)>-1", lambda c: ("(?=b)", Text, -1), "(?=b)", T_(Text), tgt(-1)),
    Rule("(?=c)>sub", lambda c: ("(?=c)", Text, c.sub), "(?=c)", T_(Text), tgt(sub)),
    Rule("\\x63>-1,sub", lambda c: (r"\x63", Comment, -1, c.sub), r"\x63", T_(Comment), tgt(-1, sub)),
    Rule("b+ select", lambda c: ("b+", select(call(len, TEXT), Text, Name, (Keyword, c.sub), (Comment, -1), Number)), "b+",
        lambda m, a: [(m.start(), m.group(), [Text, Name, Keyword, Comment, Number][len(m.group())])],
        lambda m, a: {2: [sub], 3: [-1]}.get(len(m.group()), [])),
    Rule("ifgroup", lambda c: ("(a)|(b)", ifgroup(1, (Text, c.sub), (Name, -1))), "(a)|(b)",
        lambda m, a: [(m.start(), m.group(), Text if m.group(1) is not None else Name)],
        lambda m, a: [sub] if m.group(1) is not None else [-1]),
    Rule("gselect", lambda c: ("(a)|(b)|(c)", gselect(Text, None, (Name, 1), default=(Keyword, 0))), "(a)|(b)|(c)",
        lambda m, a: [(m.start(), m.group(), Text if m.group(1) else Name if m.group(3) else Keyword)],
        lambda m, a: [1] if m.group(3) else []),
    Rule("c using", lambda c: ("[bc]+", using(c.sub)), "[bc]+", using_sub()),
    Rule("bygroup using", lambda c: ("(a)(bc?)?", bygroup(Name, using(c.sub)), c.sub), "(a)(bc?)?", cat(G_(Name), using_sub(2)), tgt(sub)),
    Rule("dselect", lambda c: ("[abc]", dselect(TEXT, {"a": (Keyword, c.sub), "b": (Name, -1)}, Text)), "[abc]",
        lambda m, a: [(m.start(), m.group(), {"a": Keyword, "b": Name}.get(m.group(), Text))],
        lambda m, a: {"a": [sub], "b": [-1]}.get(m.group(), [])),
    Rule("derive", lambda c: ("[ab]", Name, derive(c.sub, TEXT)), "[ab]", T_(Name), lambda m, a: [(S, m.group())]),
    Rule("target", lambda c: ("[ab]+", Text, target(call(lambda t: [(0, t), (1, None), -1, 0, 1][len(t) % 5], TEXT), c.sub, c.other)), "[ab]+", T_(Text),
        lambda m, a: [[(S, m.group()), (O, None), -1, 0, 1][len(m.group()) % 5]]),
    Rule("c>-2", lambda c: ("c", Text, -2), "c", T_(Text), tgt(-2)),
    Rule("findmember", lambda c: (".", findmember(TEXT, [("a", Keyword), ("ab", (Name, 0))], (Text, c.sub))), ".",
        lambda m, a: [(m.start(), m.group(), {"a": Keyword, "b": Name}.get(m.group(), Text))],
        lambda m, a: [] if m.group() in "ab" else [sub]),
    Rule("arg", lambda c: (arg(), Keyword, -1), lambda a: re.escape(a) if isinstance(a, str) else None, T_(Keyword), tgt(-1)),
    Rule("arg2", lambda c: (arg(prefix="c", suffix="?", default="b"), Comment), lambda a: "c" + re.escape(a) + "?" if isinstance(a, str) else "b", T_(Comment)),
    Rule("ifarg", lambda c: (ifarg("a", "c"), Name, c.sub), lambda a: "a" if a else "c", T_(Name), tgt(sub)),
    Rule("pattern", lambda c: (pattern(ifeq(ARG, "a", "b", "a")), ifeq(ARG, None, Text, Keyword), ifneq(ARG, "b", (), -1)), lambda a: "b" if a == "a" else "a",
        lambda m, a: [(m.start(), m.group(), Text if a is None else Keyword)], lambda m, a: [-1] if a == "b" else []),
    Rule("bygroup select", lambda c: ("(.)(b)", bygroup(ifeq(TEXT, "a", Name, Comment), ifmember(MATCH[1], "ab", Text, skip))), "(.)(b)",
        lambda m, a: [(m.start(), m.group(1), Name if m.group(1) == "a" else Comment)] + ([(m.start(2), m.group(2), Text)] if m.group(1) in "ab" else [])),
    Rule("match slice", lambda c: ("(b*)(c)", ifeq(MATCH[1][0:1], "b", Keyword, Number), ifeq(TEXT[-1], "c", c.sub)), "(b*)(c)",
        lambda m, a: [(m.start(), m.group(), Keyword if m.group(1)[:1] == "b" else Number)], tgt(sub)),
    Rule("c>0", lambda c: ("c", Comment, 0), "c", T_(Comment)),
    Rule("a other", lambda c: ("a", Comment, c.other), "a", T_(Comment), tgt((O, None))),
    Rule("b skip>sub", lambda c: ("b", skip, c.sub), "b", lambda m, a: [], tgt(sub)),
    Rule("words", lambda c: (words(["ab", "abc", "ca"]), Keyword), "abc|ab|ca", T_(Keyword)),
    Rule("a>3", lambda c: ("a", Comment, c.sub, c.other, c.sub), "a", T_(Comment), tgt(sub, (O, None), sub)),
    Rule("b>-1,2", lambda c: ("b", Name, -1, c.sub, c.other), "b", T_(Name), tgt(-1, sub, (O, None))),
    Rule("chars", lambda c: (chars("ab", False), Number, -1, 1), "[^ab]", T_(Number), tgt(-1, (R, "self"))),
]
RULES = {r.label: r for r in RULES}

# default rules: (real, kind, lex(text, arg) | targets)
DEFAULTS = {
    "none": (None, None, None),
    "action": (lambda c: (default_action, Number), "action", lambda t, a: Number),
    "dyn action": (lambda c: (default_action, ifeq(TEXT, "c", Name, Comment)), "action", lambda t, a: Name if t == "c" else Comment),
    "skip": (lambda c: (default_action, skip), "action", lambda t, a: None),
    "arg action": (lambda c: (default_action, ifeq(ARG, "a", Name, Comment)), "action", lambda t, a: Name if a == "a" else Comment),
    ">-1": (lambda c: (default_target, -1), "target", [-1]),
    ">sub": (lambda c: (default_target, c.sub), "target", [sub]),
    ">-1,other": (lambda c: (default_target, -1, c.other), "target", [-1, (O, None)]),
}

# second lexicon: list of rule labels + default + consume
SUBS = [
    (("c>-2",), "none", False),
    (("ab>-1", "c>0"), "action", False),
    (("arg", "[ab]"), ">-1", False),
    (("arg2", "c>-2"), "dyn action", True),
    (("dselect",), ">-1,other", False),
    (("pattern", "arg"), "arg action", False),
    (("a",), ">-1", True),
    (("(a)(b?)>1", "c>-2"), "skip", True),
    (("ifarg", "b>sub"), ">-1", False),
    (("derive", "c>-2"), "none", False),
    ((), "action", True),
    ((), ">-1", False),
    ((), "none", False),
    (("\\x63>-1,sub",), "action", False),
    (("target",), "arg action", False),
]
OTHERS = ((("c>-2", "a"), ">-1", False), (("b skip>sub", "(a)(b)?"), "action", True))

#: how the rules of the root lexicon come about
MODES = ["direct", "include", "inherit", "anyof", "derived", "icase", "verbose"]


class Circular(Exception):
    pass


class Reference:
    """The documented meaning, one rule at a time."""
    def __init__(self, defs):
        self.defs = defs        # name -> (rules, default, consume, flags)

    def step(self, stack, text, pos):
        """Next (pos, text, lexemes, targets, name-of-current) or None at the end."""
        name, a = stack[-1]
        rules, default, consume, flags = self.defs[name]
        comp = []
        seen = set()
        for r, extra in rules:
            p = r.pat(a)
            if p is not None and p not in seen:
                seen.add(p)
                comp.append((re.compile(p, flags), r, extra))
        kind = DEFAULTS[default][1]
        for s in range(pos, pos + 1 if kind == "target" else len(text) + 1):
            for rx, r, extra in comp:
                m = rx.match(text, s)
                if m:
                    tg = r.tg(m, a) + list(extra or ())
                    return s, m.group(), r.lex(m, a), tg
        if kind == "target" and pos < len(text):
            return pos, "", [], DEFAULTS[default][2]
        return None

    def run(self, start, text):
        """Return (events, stack); an event is (pop, pushed, lexemes)."""
        stack = [start]
        pos = 0
        events = []
        pend = [0, []]      # pending pop and push
        still = set()
        while True:
            name, a = stack[-1]
            default = self.defs[name][1]
            kind = DEFAULTS[default][1]
            r = self.step(stack, text, pos)
            upto = r[0] if r else len(text)
            if kind == "action" and upto > pos:
                t = text[pos:upto]
                act = DEFAULTS[default][2](t, a)
                if act is not None:
                    self.emit(events, pend, [(pos, t, act)])
            if r is None:
                return events, stack
            pos, t, lexemes, tg = r
            lexemes = self.expand(lexemes)
            # resolve the targets on the stack
            new = list(stack)
            cur = stack[-1]
            if tg:
                pops, pushes = 0, []
                for x in tg:
                    if isinstance(x, int):
                        if x > 0:
                            pushes.extend([cur] * x)
                        for _ in range(-x):
                            if pushes:
                                pushes.pop()
                            else:
                                pops += 1
                    else:
                        pushes.append(cur if x == (R, "self") else x)
                pops = min(pops, len(stack) - 1)
                if pops or pushes:
                    new = stack[:len(stack) - pops] + pushes
                moved = True
                consumed = bool(pushes) and self.defs[pushes[-1][0]][2]
            else:
                pops, pushes, consumed = 0, [], False
            if t:
                if not consumed:
                    self.emit(events, pend, lexemes)
                self.move(pend, pops, pushes)
                if consumed:
                    self.emit(events, pend, lexemes)
                still = set()
                pos += len(t)
            else:
                self.move(pend, pops, pushes)
                key = (pos, tuple(new))
                if key in still or len(new) > 30 or (pops == 0 and not pushes):
                    raise Circular()
                still.add((pos, tuple(stack)))
                still.add(key)
            stack = new

    def expand(self, lexemes):
        out = []
        for l in lexemes:
            if l[0] == "using":
                events, stack = self.run((S, None), l[2])
                for pop, push, lex in events:
                    out.extend((l[1] + p, t, act) for p, t, act in lex)
            elif l[1]:
                out.append(l)
        return out

    def move(self, pend, pops, pushes):
        for _ in range(pops):
            if pend[1]:
                pend[1].pop()
            else:
                pend[0] += 1
        pend[1].extend(pushes)

    def emit(self, events, pend, lexemes):
        if lexemes:
            events.append((pend[0], tuple(pend[1]), tuple(lexemes)))
            pend[0] = 0
            pend[1] = []


def build(rootrules, default, mode, subi):
    """Return (root Lexicon, Reference, start state)."""
    flags = {"icase": re.IGNORECASE, "verbose": re.VERBOSE}.get(mode, 0)
    def body(labels, dflt):
        def rules(cls):
            for l in labels:
                yield RULES[l].real(cls)
            d = DEFAULTS[dflt][0]
            if d:
                yield d(cls)
        return rules
    def named(f, name):
        f.__name__ = name
        return f
    subl, subd, subc = SUBS[subi]
    othl, othd, othc = OTHERS[subi % 2]
    ns = dict(sub=lexicon(consume=subc)(named(body(subl, subd), S)), other=lexicon(consume=othc)(named(body(othl, othd), O)))
    plain = lambda labels: [(RULES[l], None) for l in labels]
    defs = {S: (plain(subl), subd, subc, 0), O: (plain(othl), othd, othc, 0)}
    start = (R, None)
    rules = plain(rootrules)
    meta = type(Language)
    if mode in ("direct", "icase", "verbose", "derived"):
        ns["root"] = lexicon(re_flags=flags)(named(body(rootrules, default), R))
        L = meta("L", (Language,), ns)
        if mode == "derived":
            start = (R, "a")
    elif mode == "include":
        # the rules live in another lexicon and are included
        ns["inc"] = lexicon(named(body(rootrules, default), "inc"))
        def root(cls):
            yield from cls.inc
        ns["root"] = lexicon(root)
        L = meta("L", (Language,), ns)
        start = (R, "b")
    elif mode == "inherit":
        # the base class has another sub lexicon
        base = dict(ns)
        base["root"] = lexicon(named(body(rootrules, default), R))
        base["sub"] = lexicon(named(body(("b>sub",), "action"), S))
        B = meta("B", (Language,), base)
        L = meta("L", (B,), dict(sub=ns["sub"]))
    elif mode == "anyof":
        ns["inc"] = lexicon(named(body(rootrules, default), "inc"))
        def root(cls):
            yield from anyof(cls.inc, cls.other)
            d = DEFAULTS[default][0]
            if d:
                yield d(cls)
        ns["root"] = lexicon(root)
        L = meta("L", (Language,), ns)
        rules = [(RULES[l], [(O, None)]) for l in rootrules if l in NO_TARGET]
    defs[R] = (rules, default, False, flags)
    lex = L.root if start[1] is None else L.root(start[1])
    return L, lex, Reference(defs), start


# rules without a target item
NO_TARGET = {"a", "[ab]", "(a)(b)?", "c>0", "words", "arg2", "bygroup select", "c using", "ifgroup", "gselect", "dselect", "findmember", "b+ select"}


def name_of(L, lex):
    check(isinstance(lex, Lexicon) and lex.language is L, "lexicon of another language", lex)
    return (lex.name, lex.arg)


def run_text(L, lex, ref, start, text, rec):
    rec.transitions += 1
    lexer = Lexer([lex])
    try:
        want, stack = ref.run(start, text)
    except Circular:
        rec.note("circular")
        n = 0
        for e in lexer.events(text):
            n += 1
        check_tree(parce.root(lex, text), text)
        return
    got = []
    for e in lexer.events(text):
        t = e.target
        got.append(((-t.pop, tuple(name_of(L, l) for l in t.push)) if t else (0, ())) + (tuple(e.lexemes),))
    equal(got, want, "events of {!r}".format(text))
    equal([name_of(L, l) for l in lexer.lexicons], stack, "open lexicons after {!r}".format(text))
    rec.outcome(repr(want))


def texts(alphabet, n):
    for i in range(n + 1):
        for t in itertools.product(alphabet, repeat=i):
            yield "".join(t)


def run_lang(rootrules, default, mode, subi, n, rec):
    L, lex, ref, start = build(rootrules, default, mode, subi)
    rec.state((rootrules, default, mode, subi))
    alpha = "aBc" if mode == "icase" else ALPHABET
    for text in texts(alpha, n):
        case = dict(rules=rootrules, default=default, mode=mode, sub=subi, text=text)
        rec.run(case, run_text, L, lex, ref, start, text, rec)


LABELS = list(RULES)

# patterns that differ under the flags, for the literal search
LITERALS = ["a b", "a#b", "a\\ b", "\\.", "a", "A", "\\#", "a\\nb", "ab", "\\x41", "a\tb"]


def run_literals(pat, flags, second, rec):
    """One or two literal-looking patterns under flags, with every kind of default."""
    for dname in ("none", "action", "dyn action", ">-1"):
        def root(cls):
            yield pat, Name
            if second:
                yield second, Keyword
            d = DEFAULTS[dname][0]
            if d:
                yield d(cls)
        L = type(Language)("L", (Language,), dict(root=lexicon(re_flags=flags)(root)))
        rx = [(re.compile(p, flags), act) for p, act in ((pat, Name), (second, Keyword)) if p]
        for text in texts("aA b#\n." if not second else "aAb #", 4 if not second else 4):
            def one():
                rec.transitions += 1
                want = []
                pos = 0
                kind = DEFAULTS[dname][1]
                while pos < len(text):
                    best = None
                    for s in range(pos, pos + 1 if kind == "target" else len(text)):
                        for r, act in rx:
                            m = r.match(text, s)
                            if m and m.group():
                                best = m, act
                                break
                        if best:
                            break
                    upto = best[0].start() if best else len(text)
                    if upto > pos:
                        if kind == "action":
                            t = text[pos:upto]
                            want.append((pos, t, DEFAULTS[dname][2](t, None)))
                        elif kind == "target":
                            # popping root is not possible: goes on at the next position
                            pos += 1
                            continue
                    if not best:
                        break
                    want.append((best[0].start(), best[0].group(), best[1]))
                    pos = best[0].end()
                got = [x for e in Lexer([L.root]).events(text) for x in e.lexemes]
                equal(got, want, "tokens of {!r}".format(text))
                rec.outcome(repr(want))
            rec.run(dict(literal=pat, flags=int(flags), second=second, default=dname, text=text), one)


def bounds(tier):
    return ("{} rules, {} defaults, {} second lexicons, {} ways to compose the root lexicon; root lexicons of 0..2 rules, texts over {!r} up to length {} "
        "(1 rule: {}); {} literal patterns x flags").format(len(RULES), len(DEFAULTS), len(SUBS), len(MODES), ALPHABET, *((3, 4) if tier == "quick" else (4, 5)), len(LITERALS))


def shards(tier):
    out = []
    n1, n2 = (4, 3) if tier == "quick" else (5, 4)
    for l in LABELS:
        out.append(["one", l, n1])
        out.append(["two", l, n2, tier])
    out.append(["none", n1])
    for p in LITERALS:
        out.append(["lit", p])
    return out


def run_shard(shard, rec):
    if shard[0] == "one":
        for d in DEFAULTS:
            for mode in MODES:
                for s in range(len(SUBS)):
                    run_lang((shard[1],), d, mode, s, shard[2], rec)
    elif shard[0] == "none":
        for d in DEFAULTS:
            for mode in MODES:
                for s in range(len(SUBS)):
                    run_lang((), d, mode, s, shard[1], rec)
    elif shard[0] == "two":
        quick = shard[3] == "quick"
        for k, l2 in enumerate(LABELS):
            if l2 == shard[1]:
                continue
            for di, d in enumerate(DEFAULTS):
                for mi, mode in enumerate(MODES):
                    for s in range(len(SUBS)):
                        if quick and (k + di + mi + s) % 7:
                            continue    # a fixed covering subset in the quick tier
                        run_lang((shard[1], l2), d, mode, s, shard[2], rec)
    else:
        for flags in (0, re.IGNORECASE, re.VERBOSE, re.IGNORECASE | re.VERBOSE, re.MULTILINE, re.DOTALL):
            for second in (None, "b", "A."):
                if second and second == shard[1]:
                    continue
                run_literals(shard[1], flags, second, rec)


def replay(case, rec):
    if "literal" in case:
        run_literals(case["literal"], case["flags"], case["second"], rec)
    else:
        rules = tuple(case["rules"])
        L, lex, ref, start = build(rules, case["default"], case["mode"], case["sub"])
        rec.run(case, run_text, L, lex, ref, start, case["text"], rec)
