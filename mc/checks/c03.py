"""C03: changes arriving during a build are never lost."""
import itertools

from parce.treebuilder import TreeBuilder
import parce.lexer

from mc import langs
from mc.core import Violation
from mc.checks.c01 import compare, get_root
from mc.edits import strings, apply, local_edits, global_edits

LEVEL = "model_checking"
TECHNIQUE = "stateless exploration: every arrival point of later changes inside a build of the real tree builder"
RULE = ("a case is a text, a first change and one or two later changes, each arriving at one of the points "
        "(before every lexer event and at every stage of the build process) of the execution; all points are enumerated; "
        "an outcome is a distinct resulting tree")
ASSUMPTIONS = ["a change arrives between two events of the lexer or between two stages (finer arrival points are "
               "equivalent, because the builder looks for changes once per event; C05 explores real threads)"]


def bounds(tier):
    return "12 toy languages; far and near edit menus; 2 changes at every arrival point, 3 changes on short texts"


class Driver:
    """Runs a builder with changes injected at given points."""
    def __init__(self, lexicon, text, plan):
        # plan: list of (point, change); change = (start, removed, ins) | ("root", name)
        self.lexicon, self.text = lexicon, text
        self.plan = list(plan)
        self.point = 0
        self.b = TreeBuilder(lexicon)
        self.roots = None

    def deliver(self, change):
        if change[0] == "root":
            self.lexicon = dict(langs.alt_roots())[change[1]]
            self.b.rebuild(self.text, self.lexicon)
        else:
            new = apply(self.text, change)
            self.text = new
            self.b.rebuild(new, False, change[0], change[1], len(change[2]))

    def at_point(self):
        while self.plan and self.plan[0][0] <= self.point:
            self.deliver(self.plan.pop(0)[1])
        self.point += 1

    def run(self, first):
        """First changes are pending when the process starts."""
        self.b.rebuild(self.text)
        global _current
        finished = []
        self.b.connect("finished", lambda: finished.append(1))
        self.b.busy = True      # the protocol: whoever sets busy runs the process
        for c in first:
            self.deliver(c)
        _current = self
        try:
            for stage in self.b.process():
                if stage == "done":
                    _current = None
                    # the builder has become idle; nothing may arrive now
                else:
                    self.at_point()
        finally:
            _current = None
        if len(finished) != 1:
            raise Violation("finished was emitted {} times".format(len(finished)))
        return self.point


_current = None
_orig_events = parce.lexer.Lexer.events


def _events(self, text, pos=0):
    for e in _orig_events(self, text, pos):
        if _current is not None:
            _current.at_point()
        yield e


parce.lexer.Lexer.events = _events


def one(lexicon, text, first, plan, rec=None):
    d = Driver(lexicon, text, plan)
    points = d.run(first)
    if d.plan:
        return -1   # the point was never reached: not a case
    compare(d.b, d.lexicon, d.text, rec)
    # and the builder is still usable afterwards
    d.b.rebuild(d.text + "a", False, len(d.text), 0, 1)
    compare(d.b, d.lexicon, d.text + "a")
    return points


def case(rec, lang, lexicon, text, first, plan):
    rec.transitions += 1 + len(plan)
    return rec.run(dict(lang=lang, text=text, first=[list(c) for c in first],
        plan=[[p, list(c)] for p, c in plan]), one, lexicon, text, first, plan, rec)


LONG = {
    "nest": ["a a a a a a a a a a a a ( a a a a a a a a a a ) a a a a a a a a a a a a",
             "(a [a a a a a a (a a a a a a a) a a a a] a a) a a a a a a a a a a a a a "],
    "consume": ['aaaaaaaaaaaa"a"aaaaaaaaaaaaa{aaaaaaaa}aaa', '{a"a"a{a"a"}aaaaaaa"a"{a"a"}a}a"a"a"a"aaaaaaa'],
    "groups": ["a=ba=ba=bbbbb<aa=bbb/>a=ba=ba=ba=bbbbbbb", "<aa=bbbbbb<aa=bbbba=b/>bbba=b/>a=ba=bbbbbbbb"],
    "groupconsume": ["bbbbbbbbbbb<abbbbbb/>bbbbb<abb<abb/>b/>bbbbbbbbb"],
    "heredoc": ["abababababab<abbbbbabababababa", "<ab<ba<bbabbbb<ababaababbabababab"],
    "defaults": ["a;b;c;a;b{a.b;c;a}a;a.b.c;a{a;}a;b;c;a;b;", "a{b{c.a;b;c;a;b;c;}a;b;c;a;b;c;}a.b;c;"],
    "look": ["xyxyxyxyxyxyx!yxxxxxxxyxyxyxyxxxx!y"],
    "comment": ["a/a/a/a/*a*/a/'a'/a/a/a/a/*aa*/a/a/a/a'a'/a/a"],
    "skipper": ["aaaaaaa(a(a)a)a)a)aaaabbaaaa(a]aaaaaaaasasaaa"],
    "tags": ["<a>x<b>x</b>x</a>a<b><a>a</a></b>a<a>b</a>a<b>a</b>"],
    "using": ["a1a1a1(a1)a1a(1)a1a=a1a1a1(aa)1a1a1a"],
    "line": ["#a\naa\naaa\n#aa\na\naaaaa\naaa\n#a\na"],
}


def far_edits(text, al, dense):
    n = len(text)
    spots = sorted({0, n // 4, n // 2, (3 * n) // 4, n} | ({1, n // 3, n - 1} if dense else set()))
    ins = [al[0], al[-1]] if not dense else list(al)
    out = []
    for p in spots:
        for i in ins:
            out.append((p, 0, i))
        for r in ((1, n // 3) if not dense else (1, 3, n // 3)):
            if p + r <= n:
                out.append((p, r, ""))
                if r == 1 or dense:
                    out.append((p, r, al[1]))
    return out


def shards(tier):
    out = []
    for name in langs.PLANS:
        for t in range(len(LONG[name])):
            for part in range(3):
                out.append(dict(kind="far", lang=name, text=t, part=part, parts=3, tier=tier))
        out.append(dict(kind="pending", lang=name, tier=tier))
        out.append(dict(kind="near", lang=name, tier=tier))
        out.append(dict(kind="three", lang=name, tier=tier))
    out.append(dict(kind="roots", tier=tier))
    return out


def run_shard(s, rec):
    thorough = s["tier"] == "thorough"
    if s["kind"] == "roots":
        names = [n for n, _ in langs.alt_roots()]
        texts = ["", "<ab(a)b", "(a a a a a a a a a a a a<ba(a)b"]
        for r0, text in itertools.product(names, texts):
            lex = dict(langs.alt_roots())[r0]
            n = len(text)
            firsts = [(0, 0, "("), (n, 0, "a"), (n // 2, min(1, n - n // 2), "b")] + [("root", r) for r in names]
            for f in firsts:
                n1 = len(text) if f[0] == "root" else len(apply(text, f))
                seconds = [("root", r) for r in names] + [(0, 0, "<"), (n1, 0, "a")]
                for sec in seconds:
                    k = 0
                    while True:
                        r = case(rec, "@" + r0, lex, text, [f], [(k, sec)])
                        if r is None or r < 0:
                            break
                        k += 1
                    # both pending from the start
                    case(rec, "@" + r0, lex, text, [f, sec], [])
        return
    p = langs.PLANS[s["lang"]]
    lex, al = p["root"], p["alphabet"]
    lang = s["lang"]
    if s["kind"] == "far":
        text = LONG[lang][s["text"]]
        firsts = far_edits(text, al, thorough)
        rec.sample(dict(lang=lang, text=text, first=firsts[0], second="every far edit at every point"))
        for i, e1 in enumerate(firsts):
            if i % s["parts"] != s["part"]:
                continue
            t1 = apply(text, e1)
            for e2 in far_edits(t1, al, thorough):
                rec.state((lang, text, e1, e2))
                case(rec, lang, lex, text, [e1, e2], [])
                k = 0
                while True:
                    r = case(rec, lang, lex, text, [e1], [(k, e2)])
                    if r is None or r < 0:
                        break
                    k += 1
    elif s["kind"] == "pending":
        # two or three changes pending before the process starts (change merging)
        texts = [LONG[lang][0][:12]] + LONG[lang][:1]
        for text in texts:
            if len(text) <= 14:
                firsts = list(global_edits(text, ["", al[0]] if not thorough else ["", al[0], al[-1] + al[0]]))
                for e1 in firsts:
                    t1 = apply(text, e1)
                    for e2 in global_edits(t1, ["", al[1]]):
                        case(rec, lang, lex, text, [e1, e2], [])
            else:
                firsts = far_edits(text, al, False)
                for e1 in firsts:
                    t1 = apply(text, e1)
                    for e2 in far_edits(t1, al, False):
                        t2 = apply(t1, e2)
                        rec.state((lang, text, e1, e2))
                        for e3 in far_edits(t2, al, False)[::1 if thorough else 2]:
                            case(rec, lang, lex, text, [e1, e2, e3], [])
    elif s["kind"] == "near":
        for pre in (p["prefixes"] if thorough else p["prefixes"][:3]):
            for suf in (p["suffixes"] if thorough else p["suffixes"][:1] + p["suffixes"][-1:]):
                text = pre + al[0] + suf
                lo, hi = len(pre), len(pre) + 1
                ins = ["", *al] if thorough else ["", *al[:4]]
                for e1 in local_edits(text, lo, hi, 1, ins):
                    t1 = apply(text, e1)
                    for e2 in local_edits(t1, lo - 1, hi + 1, 1, ins):
                        rec.state((lang, text, e1, e2))
                        k = 0
                        while True:
                            r = case(rec, lang, lex, text, [e1], [(k, e2)])
                            if r is None or r < 0:
                                break
                            k += 1
    elif s["kind"] == "three":
        text = LONG[lang][0]
        if not thorough:
            text = text[:26]
        es = far_edits(text, al, False)[:: 1 if thorough else 3]
        for e1 in es:
            t1 = apply(text, e1)
            for e2 in far_edits(t1, al, False)[:: 1 if thorough else 3]:
                t2 = apply(t1, e2)
                for e3 in far_edits(t2, al, False)[:: 2 if thorough else 4]:
                    rec.state((lang, text, e1, e2, e3))
                    k = 0
                    while True:
                        r = case(rec, lang, lex, text, [e1], [(k, e2)])
                        if r is None or r < 0:
                            break
                        for k2 in (k, k + 1, k + 2, k + 5, k + 11, k + 13) if not thorough else range(k, k + 40):
                            r = case(rec, lang, lex, text, [e1], [(k, e2), (k2, e3)])
                            if r is None or r < 0:
                                break
                        k += 1 if thorough else 3


def replay(case_, rec):
    name = case_["lang"]
    lex = dict(langs.alt_roots())[name[1:]] if name.startswith("@") else get_root(name)
    rec.run(case_, one, lex, case_["text"], [tuple(c) for c in case_["first"]],
        [(p, tuple(c)) for p, c in case_["plan"]])
