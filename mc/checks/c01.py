"""C01: incremental update == parse from scratch."""
from parce.treebuilder import TreeBuilder

from mc import langs
from mc.core import Violation
from mc.edits import strings, apply, inverse, local_edits, global_edits
from mc.treeutil import canon, scratch, pretty

LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all edit transitions on the real tree builder"
RULE = ("states = (language, text) reached; a transition hands one edit to the real TreeBuilder; "
        "every edit in the bound is applied to every text in the bound and then reverted "
        "(histories without reset); an outcome is a distinct resulting tree")
ASSUMPTIONS = ["languages look ahead at most as far as the ten tokens the builder re-checks",
               "a tree equal to the from-scratch tree has the same future (histories are additionally chained without resets)"]


def bounds(tier):
    m, i = (2, 1) if tier == "quick" else (3, 2)
    return ("12 toy languages x paddings; middle part <= {} chars over 3-6 letters; edits at all positions around it, "
            "removing <= 3, inserting every string <= {} chars; plus every (start, removed) pair of the padded text; "
            "chained edit pairs; root lexicon changes; bundled languages with fragment alphabets".format(m, i))


def open_ids(b):
    return tuple(id(l) for l in b.lexicons)


_memo = {}

def expected(lexicon, text):
    key = (id(lexicon), text)
    try:
        return _memo[key]
    except KeyError:
        if len(_memo) > 200000:
            _memo.clear()
        r = _memo[key] = scratch(lexicon, text)
        return r


def compare(b, lexicon, text, rec=None):
    got = canon(b.root)
    want, lex = expected(lexicon, text)
    if got != want:
        from parce.treebuilder import build_tree
        raise Violation("tree differs for {!r}: incremental {} from scratch {}".format(
            text, pretty(b.root), pretty(build_tree(lexicon, text))))
    if open_ids(b) != lex:
        raise Violation("open lexicons differ for {!r}: {!r}".format(text, b.lexicons))
    if b.busy or b.changes:
        raise Violation("builder not idle")
    if rec is not None:
        rec.outcome((want, lex))


def run_history(lexicon, text, history, rec=None):
    """Fresh builder; history items: [start, removed, ins] | ["root", name] | ["set", text]."""
    b = TreeBuilder(lexicon)
    b.rebuild(text)
    compare(b, lexicon, text, rec)
    roots = dict(langs.alt_roots())
    for e in history:
        if e[0] == "root":
            lexicon = roots[e[1]]
            b.rebuild(text, lexicon)
        elif e[0] == "set":
            text = e[1]
            b.rebuild(text)
        else:
            new = apply(text, e)
            b.rebuild(new, False, e[0], e[1], len(e[2]))
            text = new
        compare(b, lexicon, text, rec)


def get_root(name):
    if name in langs.PLANS:
        return langs.PLANS[name]["root"]
    if name in ROOTS:
        return dict(langs.alt_roots())[name]
    import parce
    return parce.find(name)


ROOTS = ("par", "doc", "doc-a", "doc-b", "string")


class Walker:
    """Applies edits and their inverses to one builder without resetting it."""
    def __init__(self, name, lexicon, text, rec):
        self.name, self.lexicon, self.text, self.rec = name, lexicon, text, rec
        self.history = []
        self.b = TreeBuilder(lexicon)
        self.b.rebuild(text)
        compare(self.b, lexicon, text, rec)
        rec.state((name, text))

    def step(self, e):
        new = apply(self.text, e)
        self.history.append(e)
        self.b.rebuild(new, False, e[0], e[1], len(e[2]))
        self.rec.transitions += 1
        old, self.text = self.text, new
        if self.rec.state((self.name, new)):
            pass
        compare(self.b, self.lexicon, new, self.rec)

    def there_and_back(self, e):
        inv = inverse(self.text, e)
        self.step(e)
        self.step(inv)


def explore(name, lexicon, text, edits, rec):
    w = None
    def fresh():
        nonlocal w
        w = Walker(name, lexicon, text, rec)
    rec.run(dict(lang=name, text=text, history=[]), fresh)
    if w is None:
        return
    for e in edits:
        n = len(rec.violations)
        if len(w.history) > 400:
            w = Walker(name, lexicon, text, rec)
        try:
            rec.run(dict(lang=name, text=text, history=[list(e), list(inverse(text, e))]), w.there_and_back, e)
        finally:
            if len(rec.violations) > n:
                # does the short history reproduce it? otherwise record all
                case, msg = rec.violations[-1]
                try:
                    run_history(lexicon, text, case["history"])
                except Exception:
                    pass
                else:
                    case["history"] = [list(x) for x in w.history]
        if len(rec.violations) > n:
            w = Walker(name, lexicon, text, rec)


#: fragment alphabets for bundled languages: (prefixes, fragments, suffixes)
BUNDLED = {
    "json": (["", '{"a": [1, 2, {"b": 1, "c": 2}, 3, 4, 5, '], ['{', '}', '[', '"', '\\', ':', ',', ' ', '1', 'a', 'true'], ["", '1, "a"]}', '"}']),
    "css": (["", 'h1 { color: red; a: b; c: d; e: f; }\n', 'a{b:c;d:e;f:g;h:'], ['{', '}', ':', ';', '"', '/*', '*/', 'a', '.', '#', '@media', '(', ')', '!important', ' '], ["", ' b {c: d}', '"} /* */ a{}']),
    "xml": (["", '<a><b c="d">e</b><f g="h" i="j">k &amp; l'], ['<', '>', '/', 'a', '=', '"', '<!--', '-->', '&', ';', '<![CDATA[', ']]>', ' '], ["", '</f></a>', '"/> b <c>d</c>']),
    "ini": (["", '[a]\nb = c\nd = e\nf = g\nh = i\n'], ['[', ']', '=', '\n', ';', '\\', 'a', ' ', '#', ':'], ["", 'x=y\n', '\n[z]\na=b']),
    "toml": (["", 'a = 1\nb = "c"\nd = [1, 2, 3]\n[e]\nf = {g = 1}\n'], ['[', ']', '=', '\n', '"', '"""', "'", '{', '}', 'a', '1', '.', ' ', '#', ','], ["", 'x=1\n', '"\n[z]\na=2']),
    "csv": (["", 'a,b,c,d\ne,f,g,h\ni,j,k,l\n'], [',', '"', '""', '\n', 'a', ' '], ["", 'x,y\n', '",z\n"a"']),
    "scheme": (["", '(a (b "c" 1) #t (d e f g h i j) '], ['(', ')', '"', ';', '\n', 'a', '1', "#|", "|#", "'", '#', ' '], ["", 'a b)', '" |# c)']),
    "bash": (["", 'a=b; if c; then d; fi; e f g h; '], ['$', '(', ')', '{', '}', '"', "'", '`', 'a', ' ', '\n', '#', '<<EOF\n', 'EOF\n'], ["", 'x y', '"; done)']),
    "lilypond": (["", '{ c d e f g a b c d e f g a } '], ['{', '}', '<', '>', '"', '%', '\n', 'c', '4', '\\', 'relative', '#', '(', ')', ' '], ["", ' d e }', '" %} f }']),
    "python": (["", 'def a(b, c):\n    return b + c * d\n\nx = '], ['(', ')', '"', "'", '"""', '\n', '    ', 'a', '1', '#', ':', 'def ', '\\', '{', 'f"'], ["", 'y = 1\n', '"""\nz = [a]\n']),
    "html": (["", '<html><body><p a="b">c</p><style>a{b:c}</style>'], ['<', '>', '/', 'p', 'script', '"', '=', 'a', '<!--', '-->', ' ', '{', '}'], ["", '</p>', '</script></body>']),
    "tex": (["", '\\a{b} $c + d$ \\begin{e} f \\end{e} g h '], ['\\', '{', '}', '$', '[', ']', '%', '\n', 'a', '\\begin{x}', '\\end{x}', ' '], ["", 'y}', '$ z \\end{x}']),
    "javascript": (["", 'var a = function(b) { return c + d; }; e = f; '], ['(', ')', '{', '}', '"', '`', '${', '/', '/*', '*/', '\n', 'a', ';', '\\', ' '], ["", 'x;', '"; } /* */ y']),
    "c": (["", '#include <a.h>\nint b(int c) { return d + e; }\n'], ['(', ')', '{', '}', '"', "'", '/*', '*/', '//', '\n', 'a', '#', '\\', ';', ' '], ["", 'x;', '"; } */ y']),
    "tcl": (["", 'set a [b "c $d"] ; proc e {f} { g h } ; '], ['{', '}', '[', ']', '"', '$', '\\', '#', '\n', 'a', ';', ' '], ["", 'x', '"} ] y']),
    "troff": (["", '.a b c\n.TH x y z\ndef \\fBg\\fR h\n'], ['.', '\\', '\n', '"', 'a', "'", ' ', 'f', 'B', '('], ["", 'x\n', '"\n.b\n']),
    "texinfo": (["", '@a{b} c @code{d} @node e, f\n'], ['@', '{', '}', '\n', 'a', 'c ', 'verb', '|', ' ', 'ignore\n', '@end ignore\n'], ["", 'x}\n', '| y\n']),
}


def shards(tier):
    out = []
    for name, p in langs.PLANS.items():
        for i in range(len(p["prefixes"])):
            for j in range(len(p["suffixes"])):
                out.append(dict(kind="toy", lang=name, prefix=i, suffix=j, tier=tier))
        out.append(dict(kind="global", lang=name, tier=tier))
        out.append(dict(kind="pairs", lang=name, tier=tier))
    for k in (range(4) if tier == "quick" else range(8)):
        out.append(dict(kind="look", part=k, parts=4 if tier == "quick" else 8, tier=tier))
    out.append(dict(kind="roots", tier=tier))
    for name, (pre, frag, suf) in BUNDLED.items():
        for i in range(len(pre)):
            for j in range(len(suf)):
                out.append(dict(kind="bundled", lang=name, prefix=i, suffix=j, tier=tier))
    # long shards first
    out.sort(key=lambda s: {"look": 0, "pairs": 1, "global": 2, "roots": 3, "bundled": 4, "toy": 5}[s["kind"]])
    return out


def run_shard(s, rec):
    thorough = s["tier"] == "thorough"
    if s["kind"] == "toy":
        p = langs.PLANS[s["lang"]]
        pre, suf = p["prefixes"][s["prefix"]], p["suffixes"][s["suffix"]]
        al = p["alphabet"]
        n = 3 if thorough else (3 if len(al) <= 3 else 2)
        inserts = list(strings(al, 2 if thorough else 1)) + [x for x in p["inserts"]]
        inserts = list(dict.fromkeys(inserts))
        rec.sample(dict(lang=s["lang"], text=pre + al[:2] + suf, edits="all local edits", inserts=inserts[:6]))
        for mid in strings(al, n):
            text = pre + mid + suf
            lo, hi = len(pre) - 1, len(pre) + len(mid) + 1
            explore(s["lang"], p["root"], text, local_edits(text, lo, hi, 2 if not thorough else 3, inserts), rec)
    elif s["kind"] == "global":
        p = langs.PLANS[s["lang"]]
        inserts = ["", *p["alphabet"], *p["inserts"]] if thorough else ["", *p["alphabet"][:3], *p["inserts"][:1]]
        for pre in p["prefixes"]:
            for suf in p["suffixes"]:
                text = pre + suf
                explore(s["lang"], p["root"], text, global_edits(text, inserts), rec)
    elif s["kind"] == "pairs":
        # chained edits on one builder: every ordered pair of edits on short texts
        p = langs.PLANS[s["lang"]]
        al = p["alphabet"]
        inserts = ["", *al]
        pres = p["prefixes"] if thorough else p["prefixes"][:1] + p["prefixes"][2:3]
        for pre in pres:
            for mid in strings(al, 2 if thorough else 1):
                text = pre + mid
                for e1 in local_edits(text, len(pre) - 1, len(text), 1, inserts):
                    t1 = apply(text, e1)
                    def go():
                        w = Walker(s["lang"], p["root"], text, rec)
                        w.step(e1)
                        for e2 in local_edits(t1, len(pre) - 1, len(t1), 1, inserts):
                            w.there_and_back(e2)
                    def go2():
                        # find the failing pair
                        go()
                    n = len(rec.violations)
                    for e2 in [None]:
                        rec.run(dict(lang=s["lang"], text=text, first=list(e1), chain=True), go2)
    elif s["kind"] == "look":
        # all texts of one length over {x, y, !}: lookahead over several tokens
        n = 10 if not thorough else 13
        root = langs.Look.root
        import itertools
        pad = "xxxxx"
        for k, t in enumerate(itertools.product("x!", repeat=n)):
            if k % s["parts"] != s["part"]:
                continue
            text = pad + "".join(t) + "yx"
            explore("look", root, text, local_edits(text, len(text) - 6, len(text), 1, ["", "x", "!"]), rec)
    elif s["kind"] == "roots":
        roots = langs.alt_roots()
        texts = ["", "a", "<ab(a)b", "<a<ba(a)b\"a", "(a a a a a a a a a a a a<b"]
        names = [n for n, _ in roots]
        import itertools
        for r0 in names:
            for text in texts:
                for r1, r2 in itertools.product(names, repeat=2):
                    for e in [(0, 0, "a"), (len(text), 0, "b"), (0, min(1, len(text)), "<")]:
                        for hist in ([["root", r1], list(e)], [["root", r1], list(e), ["root", r2], [0, 0, "("]],
                                     [list(e), ["root", r1], ["root", r2]], [["root", r1], ["set", text + "a"], list(e)]):
                            rec.run(dict(lang="@" + r0, text=text, history=hist), run_history,
                                dict(roots)[r0], text, hist, rec)
                            rec.transitions += len(hist)
                            rec.state((r0, text, repr(hist)))
    elif s["kind"] == "bundled":
        import parce
        pre, frag, suf = BUNDLED[s["lang"]]
        pre, suf = pre[s["prefix"]], suf[s["suffix"]]
        root = parce.find(s["lang"])
        n = 2 if thorough else 1
        import itertools
        for l in range(n + 1):
            for t in itertools.product(frag, repeat=l):
                text = pre + "".join(t) + suf
                lo, hi = len(pre), len(pre) + sum(map(len, t))
                explore(s["lang"], root, text, local_edits(text, lo, hi, 1, ["", *frag]), rec)


def replay(case, rec):
    if case.get("chain"):
        name = case["lang"]
        p = langs.PLANS[name]
        text, e1 = case["text"], tuple(case["first"])
        def go():
            t1 = apply(text, e1)
            w = Walker(name, p["root"], text, rec)
            w.step(e1)
            for e2 in local_edits(t1, 0, len(t1), 1, ["", *p["alphabet"]]):
                w.there_and_back(e2)
        rec.run(case, go)
        return
    name = case["lang"]
    lex = dict(langs.alt_roots())[name[1:]] if name.startswith("@") else get_root(name)
    rec.run(case, run_history, lex, case["text"], case["history"])
