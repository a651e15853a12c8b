"""C17: formatted output keeps the text and formats exactly the right ranges."""
import functools
import html.parser
import itertools

from mc.core import Violation, check, equal

LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration: all texts x all regions x formatter configurations on the real code, against a per-character reading of the token tree"
RULE = ("all texts over a small alphabet up to a length in two languages embedding each other, every region (start, end) and every formatter configuration; "
        "bundled languages and themes on all short texts of special characters; all histories of adding, removing and copying themes; an outcome is a distinct list of formats")
ASSUMPTIONS = ["text outside of tokens may get no format, or the base or unparsed format of a theme in use", "Python 3.12"]

ALPHABET = "(a)[]b "
NEST = "([<)a"
MARKUP = "<&>\"'a;\n"


@functools.cache
def langs():
    from parce import Language, lexicon
    import parce.action as A

    class Outer(Language):
        @lexicon
        def root(cls):
            yield r"\(", A.Delimiter, Inner.par
            yield from cls.common()

        @classmethod
        def common(cls):
            yield r"a", A.Name
            yield r"b", A.Text

        @lexicon(consume=True)
        def sub(cls):
            yield r"\]", A.Delimiter.Bracket, -1
            yield r"\(", A.Delimiter, Inner.par
            yield from cls.common()

    class Inner(Language):
        @lexicon
        def par(cls):
            yield r"\)", A.Delimiter, -1
            yield r"\[", A.Delimiter.Bracket, Outer.sub
            yield r"a+", A.Name
            yield r"b", A.Comment

    class Markup(Language):
        @lexicon
        def root(cls):
            yield r"[<>]", A.Delimiter
            yield r"&+", A.Escape
            yield r"\"", A.String, cls.string
            yield r"a", A.Name

        @lexicon
        def string(cls):
            yield r"\"", A.String, -1
            yield r"[^\"]+", A.String
    return Outer, Inner, Markup


@functools.cache
def nesting():
    """Two languages with two lexicons each that all embed each other."""
    from parce import Language, lexicon
    import parce.action as A

    def rules():
        yield r"\(", A.Name, P.root
        yield r"\[", A.Text, Q.root
        yield r"<", A.Name, P.other
        yield r"\)", A.Delimiter, -1
        yield r"a", A.Name

    class P(Language):
        @lexicon
        def root(cls):
            yield from rules()

        @lexicon(consume=True)
        def other(cls):
            yield from rules()

    class Q(Language):
        @lexicon
        def root(cls):
            yield from rules()
    return P, Q


class Fmt(tuple):
    """A format that can be added: ('t', action) after a base."""
    def __add__(self, other):
        return Fmt(tuple.__add__(self, other))


class StubTheme:
    """Gives a format to every action but the named ones."""
    def __init__(self, name, none=(), unparsed=False):
        self.name, self.none, self.has_unparsed = name, none, unparsed

    def __repr__(self):
        return self.name

    def baseformat(self, role="window", state="default"):
        return Fmt(((self.name, "base", role, state),))

    def textformat(self, action):
        r = repr(action)
        if r == "_Unparsed":
            return Fmt(((self.name, "unparsed"),)) if self.has_unparsed else Fmt(())
        if r in self.none:
            return Fmt(())
        return Fmt(((self.name, r),))


def factory(f):
    return f or None


#: (default theme, add base), (inner theme, add base), (outer theme, add base)
CONFIGS = {
    "one": ((("T", (), False), False), None, None),
    "one-none": ((("T", ("Text", "Name"), False), False), None, None),
    "one-unparsed": ((("T", ("Text",), True), False), None, None),
    "one-base": ((("T", ("Text", "Name"), False), True), None, None),
    "one-base-unparsed": ((("T", ("Text",), True), True), None, None),
    "inner": ((("T", ("Text",), False), False), (("I", ("Name",), False), False), None),
    "inner-base": ((("T", ("Text",), False), True), (("I", ("Name",), False), True), None),
    "inner-unparsed": ((("T", (), True), False), (("I", ("Comment",), True), False), None),
    "outer": ((("T", (), False), False), None, (("O", ("Delimiter",), False), False)),
    "both": ((("T", (), False), False), (("I", (), False), False), (("O", (), True), False)),
    "nodefault": (None, (("I", (), False), False), None),
    "simple": "simple",
    "nest-q": ((("T", (), False), False), "Q", (("I", (), False), False)),
    "nest-p": ((("T", (), False), False), "P", (("I", ("Text",), True), True)),
}


@functools.cache
def formatter(config):
    from parce.formatter import Formatter, SimpleFormatter
    spec = CONFIGS[config]
    if spec == "simple":
        return SimpleFormatter(), {}
    Outer, Inner, _ = langs()
    f = Formatter(None, factory)
    model = {}
    if isinstance(spec[1], str):
        pairs = [(None, spec[0]), (dict(zip("PQ", nesting()))[spec[1]], spec[2])]
    else:
        pairs = zip((None, Inner, Outer), spec)
    for lang, s in pairs:
        if s:
            theme = StubTheme(*s[0])
            f.add_theme(theme, lang, s[1])
            model[lang] = theme, s[1]
    return f, model


def root_lexicon(config):
    return nesting()[0].root if config.startswith("nest") else langs()[0].root


def expected_token(config, model, t):
    """The format of the characters of a token."""
    if config == "simple":
        return repr(t.action).lower().replace(".", " ")
    if None not in model:
        return None
    theme, base = model.get(t.parent.lexicon.language) or model[None]
    fmt = theme.textformat(t.action)
    if base:
        fmt = theme.baseformat() + fmt
    return fmt or None


def gap_formats(model):
    """What text without token may get."""
    r = {None}
    for theme, base in model.values():
        if base:
            r.add(theme.baseformat())
        if theme.has_unparsed:
            r.add(Fmt(((theme.name, "unparsed"),)))
    return r


class Ctx:
    def __init__(self):
        self.log = []
    def start(self, fc):
        self.log.append(("start", fc))
    def switch(self, fc):
        self.log.append(("switch", fc))
    def done(self):
        self.log.append(("done",))


def all_tokens(tree):
    for n in tree:
        if n.is_context:
            yield from all_tokens(n)
        else:
            yield n


def run_ranges(text, config, start, end, tree=None):
    import parce
    if tree is None:
        tree = parce.root(root_lexicon(config), text)
    f, model = formatter(config)
    ctx = Ctx()
    ranges = list(f.format_ranges(tree, start, end, ctx))
    stop = len(text) if end is None else min(end, len(text))
    limit = len(text) if end is None else end
    prev = start
    chars = {}
    for r in ranges:
        check(prev <= r.pos < r.end, "range out of order or empty:", r, "in", ranges)
        check(r.end <= limit, "range after the end:", r)
        check(r.textformat is not None, "range without format")
        prev = r.end
        for p in range(r.pos, r.end):
            chars[p] = r.textformat
    gaps = gap_formats(model)
    want = {}
    toks = []
    for t in all_tokens(tree):
        if t.end > start and t.pos < limit and start < limit:
            toks.append(t)
            w = expected_token(config, model, t)
            for p in range(max(t.pos, start), min(t.end, limit)):
                want[p] = w
    for p in range(start, stop):
        if p in want:
            equal(chars.get(p), want[p], "format at {}".format(p))
        else:
            check(chars.get(p) in gaps, "format at", p, "without token:", chars.get(p))
            if len(model) == 1 and None in model and toks and (end is not None or p < toks[-1].pos):
                # between tokens, or up to the requested end
                theme, base = model[None]
                w = Fmt(((theme.name, "unparsed"),)) if theme.has_unparsed else theme.baseformat() if base else None
                equal(chars.get(p), w, "format without token at {}".format(p))
    # the text with formats
    pieces = list(f.format_text(text, tree, start, end))
    equal("".join(x for x, _ in pieces), text[start:end], "text of format_text")
    p = start
    for x, fmt in pieces:
        for i in range(len(x)):
            equal(fmt, chars.get(p), "format of format_text at {}".format(p))
            p += 1
    # the format context
    if toks:
        log = ctx.log
        check(log and log[0][0] == "start" and log[-1] == ("done",), "format context calls:", [l[0] for l in log])
        check(all(l[0] == "switch" for l in log[1:-1]), "format context calls:", [l[0] for l in log])
        if len(model) > 1 and None in model:
            caches = f.format_caches()
            check(log[0][1] is caches[None], "format context not started with the default theme")
            seq = [l[1] for l in log[:-1]]
            for a, b in zip(seq, seq[1:]):
                check(a is not b, "format context switched to the same theme")
            need = []
            for t in toks:
                fc = caches.get(t.parent.lexicon.language) or caches[None]
                if not need or need[-1] is not fc:
                    need.append(fc)
            i = 0
            for fc in need:
                while i < len(seq) and seq[i] is not fc:
                    i += 1
                check(i < len(seq), "format context not switched to the theme of a token")
        elif config != "nodefault":
            equal(len(log), 2, "format context calls")
    return tuple(ranges)


# -- HTML -------------------------------------------------------------------

class Reader(html.parser.HTMLParser):
    """Reads characters with the attribute of the span they are in."""
    def __init__(self, attr):
        super().__init__(convert_charrefs=True)
        self.attr = attr
        self.stack = []
        self.out = []

    def handle_starttag(self, tag, attrs):
        equal(tag, "span", "tag in the output")
        equal([a for a, _ in attrs], [self.attr], "attributes in the output")
        check(not self.stack, "nested span")
        self.stack.append(attrs[0][1])

    def handle_endtag(self, tag):
        equal(tag, "span", "end tag in the output")
        check(self.stack, "end tag without begin")
        self.stack.pop()

    def handle_data(self, data):
        fmt = self.stack[-1] if self.stack else None
        self.out.extend((c, fmt) for c in data)

    def handle_startendtag(self, *a):
        raise Violation("unexpected tag {}".format(a))
    handle_comment = handle_decl = handle_pi = unknown_decl = lambda self, *a: check(False, "unexpected markup", a)


@functools.cache
def html_formatter(kind):
    from parce.out.html import HtmlFormatter, SimpleHtmlFormatter
    import parce
    if kind == "simple":
        return SimpleHtmlFormatter()
    if kind == "stub":
        # formats with characters that need escaping
        class Q(StubTheme):
            pass
        return HtmlFormatter(StubTheme("T<\"&'>", ("Name",)), lambda f: "/".join("|".join(p) for p in f) or None)
    return HtmlFormatter(parce.theme_by_name(kind))


def run_html(lex, text, kind, start, end, full=False):
    import parce
    from parce import Document, Cursor
    from parce.treebuilder import TreeBuilder
    from parce.work import Worker
    d = Document(lex, text, worker=Worker(TreeBuilder(lex)))
    f = html_formatter(kind)
    c = Cursor(d, start, end)
    out = f.html(c)
    r = Reader("class" if kind == "simple" else "style")
    r.feed(out)
    r.close()
    check(not r.stack, "span not closed")
    sel = text[start:end]
    equal("".join(ch for ch, _ in r.out), sel, "text of the HTML")
    check("<" not in out.replace("<span", "").replace("</span>", "") or full is None, "unescaped < in", out)
    import re
    for m in re.finditer("&", out):
        check(re.match("&(amp|lt|gt|quot|#39|#x27);", out[m.start():]), "unescaped & in", out)
    fmts = [None] * len(text)
    for t in all_tokens(d.get_root(True)):
        if kind == "simple":
            w = repr(t.action).lower().replace(".", " ")
        elif kind == "stub":
            w = "/".join("|".join(p) for p in StubTheme("T<\"&'>", ("Name",)).textformat(t.action)) or None
        else:
            w = style(kind, t.action)
        for p in range(t.pos, t.end):
            fmts[p] = w
    equal([fm for _, fm in r.out], fmts[start:end], "formats in the HTML")
    if full:
        whole = f.full_html(c, "latin1")
        check(whole.count(">" + out + "</pre>") >= 1, "full_html does not contain the html:", whole)
        check('<meta charset="latin1"/>' in whole, "charset in full_html")
    return out


@functools.cache
def style(kind, action):
    """The inline style of an action, written by own code."""
    import parce
    props = parce.theme_by_name(kind).textformat(action).css_properties()
    return " ".join("{}: {};".format(k, props[k]) for k in sorted(props)) or None


# -- themes -------------------------------------------------------------------

THEMEOPS = ["add:None:A", "add:None:B:base", "add:Inner:B", "add:Inner:A:base", "rm:None", "rm:Inner", "copy"]

def run_themes(ops):
    import parce
    import parce.action as A
    from parce.formatter import Formatter
    Outer, Inner, _ = langs()
    L = {"None": None, "Inner": Inner}
    themes = {"A": StubTheme("A", ("Text",)), "B": StubTheme("B", (), True)}
    f = Formatter(None, factory)
    model = {}
    for op in ops:
        what, *a = op.split(":")
        if what == "add":
            f.add_theme(themes[a[1]], L[a[0]], len(a) > 2)
            model[L[a[0]]] = themes[a[1]], len(a) > 2
        elif what == "rm":
            try:
                f.remove_theme(L[a[0]])
                check(L[a[0]] in model, "removed a theme that is not there")
            except KeyError:
                check(L[a[0]] not in model, "theme not removed")
            model.pop(L[a[0]], None)
        else:
            g = Formatter(themes["B"], factory)
            g.add_theme(themes["A"], Outer)
            g.copy_themes(f)
            f = g
        for lang in (None, Inner, Outer):
            theme, base = model.get(lang, (None, False))
            check(f.get_theme(lang) is theme, "theme of", lang)
            for act in (A.Text, A.Name):
                w = None
                if theme:
                    w = theme.textformat(act)
                    if base:
                        w = theme.baseformat() + w
                equal(f.textformat(act, lang), w or None, "textformat of {} in {}".format(act, lang))
            for role, state in (("window", "default"), ("selection", "focus")):
                equal(f.baseformat(role, state, lang), theme.baseformat(role, state) if theme else None, "baseformat")
    return tuple(sorted((str(k), v[0].name, v[1]) for k, v in model.items()))


def texts(alphabet, n):
    for i in range(n + 1):
        for t in itertools.product(alphabet, repeat=i):
            yield "".join(t)


def regions(n):
    yield 0, None
    for s in range(n + 1):
        if s:
            yield s, None
        for e in range(s, n + 2):
            yield s, e


BUNDLED = ["default", "dark", "simple", "stub"]

def shards(tier):
    quick = tier == "quick"
    n = 5 if quick else 6
    r = []
    for config in ("nest-q", "nest-p"):
        for first in NEST:
            for second in NEST:
                r.append(["nest", config, first + second, n])
    for config in CONFIGS:
        if config.startswith("nest"):
            continue
        for first in ALPHABET:
            if n > 5:
                for second in ALPHABET:
                    r.append(["ranges", config, first + second, n - 2])
            else:
                r.append(["ranges", config, first, n - 1])
    for kind in BUNDLED:
        for first in MARKUP:
            r.append(["html", kind, first, 3 if quick else 4])
    r.append(["short"])
    r.append(["lang"])
    r.append(["themes", 4 if quick else 5])
    return r


def bounds(tier):
    n = 5 if tier == "quick" else 6
    return ("texts of up to {} of 7 characters in two languages that embed each other x all regions (up to one beyond the end) x {} formatter configurations; texts of up to {} brackets in two languages with three lexicons that embed each other x 6 regions x 2 configurations; HTML of all texts of up to {} of 8 special characters "
        "x all regions x {} formatters, the bundled languages on short texts; histories of up to {} theme operations").format(n, len(CONFIGS) - 2, n + 2, n - 1, len(BUNDLED), n - 1)


def run_shard(shard, rec):
    import parce
    if shard[0] == "ranges":
        _, config, first, n = shard
        for rest in texts(ALPHABET, n):
            do_text(first + rest, config, rec)
    elif shard[0] == "nest":
        _, config, first, n = shard
        for rest in texts(NEST, n):
            do_text(first + rest, config, rec)
    elif shard[0] == "short":
        for config in CONFIGS:
            do_text("", config, rec)
            for a in ALPHABET:
                do_text(a, config, rec)
    elif shard[0] == "html":
        _, kind, first, n = shard
        for rest in texts(MARKUP, n):
            text = first + rest
            rec.state(("html", text))
            for s, e in regions(len(text)):
                if e is not None and e > len(text):
                    continue
                out = rec.run(dict(lang=None, text=text, kind=kind, start=s, end=e), run_html, langs()[2].root, text, kind, s, e, s == 0)
                rec.outcome((kind, out))
    elif shard[0] == "lang":
        for name in ("xml", "css", "json", "python", "html", "lilypond"):
            lex = parce.find(name)
            for text in texts("<a&\"{", 4):
                for kind in ("default", "simple"):
                    rec.state(("html", name, text))
                    out = rec.run(dict(lang=name, text=text, kind=kind, start=0, end=None), run_html, lex, text, kind, 0, None)
                    rec.outcome((kind, out))
    else:
        for n in range(1, shard[1] + 1):
            for ops in itertools.product(THEMEOPS, repeat=n):
                rec.outcome(rec.run(dict(ops=ops), run_themes, ops))
                rec.state(ops)


def do_text(text, config, rec):
    import parce
    tree = parce.root(root_lexicon(config), text)
    rec.state((config, text))
    n = len(text)
    for s, e in regions(n) if not config.startswith("nest") else sorted({(0, None), (0, n - 1), (0, max(n - 2, 0)), (1, None), (2, None), (1, n - 1)}, key=str):
        out = rec.run(dict(text=text, config=config, start=s, end=e), run_ranges, text, config, s, e, tree)
        rec.outcome((config, out))


def replay(case, rec):
    import parce
    if "config" in case:
        rec.run(case, run_ranges, case["text"], case["config"], case["start"], case["end"])
    elif "kind" in case:
        lex = parce.find(case["lang"]) if case["lang"] else langs()[2].root
        rec.run(case, run_html, lex, case["text"], case["kind"], case["start"], case["end"], case["start"] == 0)
    else:
        rec.run(case, run_themes, case["ops"])
