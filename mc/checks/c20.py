"""C20: indenting changes only leading whitespace, to what the nesting calls for."""
import functools
import itertools

from mc.core import Violation, check, equal

LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration: texts of lines that open and close levels x regions x settings, indented by the real code (with an own event source, and with the bundled languages), against a stack of levels"
RULE = ("every text of the bound with every line range; checked are the text, the indents by a stack of levels, indenting again, indenting single lines, more and less indent, stripping; "
        "an outcome is a distinct resulting text")
ASSUMPTIONS = ["auto_indent() is compared with indent() on texts that do not close more than was opened, for lines after the first",
    "a line is in the region when it starts there"]

WS = ["", "  ", "\t ", "     "]
#: contents made from: open, close, other, open aligned; and special lines
SPECIAL = ["!x", "!{", "@x", "@{", "", "x-  "]


def contents(n):
    return ["".join(p) for k in range(n + 1) for p in itertools.product("{}x", repeat=k)] + ["(x", "x{(", "){", "x)"] + [s for s in SPECIAL if s]


def events(text):
    """Events of a line in our little language."""
    from parce import indent as I
    ev = []
    body = text.strip(" \t")
    if body == "":
        ev.append(I.BLANK)
    if body.startswith("!"):
        ev += [I.NO_INDENT, I.NO_STRIP]
        body = body[1:]
    if body.startswith("@"):
        ev.append((I.PREFER_INDENT, "   "))
        body = body[1:]
    for i, c in enumerate(body):
        if c == "{":
            ev.append(I.INDENT)
        elif c in "})":
            ev.append(I.DEDENT)
        elif c == "(":
            ev += [I.INDENT, (I.ALIGN, " " * (i + 1))]
        else:
            ev.append(I.NO_DEDENT)
    return ev


@functools.cache
def indenter_class():
    from parce.indent import AbstractIndenter
    class TestIndenter(AbstractIndenter):
        def indent_events(self, block, prev_indents=()):
            return iter(events(block.text()))
    return TestIndenter


class Line:
    """Model of a line: what it closes at its start, later, and opens."""
    def __init__(self, text, opens=None):
        self.text = text
        self.body = text.lstrip()
        self.ws = text[:len(text) - len(self.body)]
        if opens is not None:
            self.start, self.end, self.opens = opens
            self.blank = self.fixed = self.prefer = False
            return
        body = text.strip(" \t")
        self.blank = body == ""
        self.fixed = body.startswith("!")
        if self.fixed:
            body = body[1:]
        self.prefer = body.startswith("@")
        if self.prefer:
            body = body[1:]
        self.start = self.end = 0
        self.opens = []
        leading = True
        for i, c in enumerate(body):
            if c in "})":
                if leading:
                    self.start += 1
                elif self.opens:
                    self.opens.pop()
                else:
                    self.end += 1
            else:
                leading = False
                if c == "{":
                    self.opens.append(None)
                elif c == "(":
                    self.opens.append(" " * (i + 1))


def model(lines, first, last, unit, blank_lines):
    """The lines with their new whitespace (lines first to last may be changed)."""
    levels = [""]
    out = []
    for i, l in enumerate(lines):
        for _ in range(l.start):
            if len(levels) > 1:
                levels.pop()
        ws = l.ws
        if not l.fixed and (blank_lines or not l.blank):
            if i < first:
                if not l.prefer and not l.blank:
                    levels[-1] = ws
            elif i <= last:
                ws = "   " if l.prefer else levels[-1]
        out.append(ws + l.body)
        for _ in range(l.end):
            if len(levels) > 1:
                levels.pop()
        for o in l.opens:
            levels.append(levels[-1] + (unit if o is None else o))
    return out


def balanced(lines):
    """True if no line closes more than is open."""
    depth = 0
    for l in lines:
        depth -= l.start
        if depth < 0:
            return False
        depth -= l.end
        if depth < 0:
            return False
        depth += len(l.opens)
    return True


def offsets(texts):
    pos = 0
    for t in texts:
        yield pos
        pos += len(t) + 1


def cursor_for(doc, texts, first, last, variant):
    """A cursor that contains the start of exactly the lines first..last."""
    from parce import Cursor
    off = list(offsets(texts))
    start = off[first]
    if variant and first:
        # begins inside the line before
        start = off[first - 1] + 1 if len(texts[first - 1]) else start
    if variant and last == len(texts) - 1:
        end = None
    elif texts[last] == "" and last > first:
        return None     # would end where the line starts
    else:
        end = off[last] + (min(1, len(texts[last])) if variant else len(texts[last]))
    return Cursor(doc, start, end)


def plain_doc(text):
    from parce.document import Document
    return Document(text)


def tree_doc(lexicon, text):
    from parce import Document
    from parce.treebuilder import TreeBuilder
    from parce.work import Worker
    return Document(lexicon, text, None, None, Worker(TreeBuilder(lexicon)))


def setup(texts, unit, blank_lines, lang):
    if lang is None:
        ind = indenter_class()()
        doc = plain_doc("\n".join(texts))
        lines = [Line(t) for t in texts]
    else:
        from parce.indent import Indenter
        ind = Indenter()
        doc = tree_doc(lexicon(lang), "\n".join(texts))
        lines = lang_lines(lang, texts)
    ind.indent_string = unit
    ind.indent_blank_lines = blank_lines
    return ind, doc, lines


def same_but_whitespace(got, texts):
    equal([t.lstrip() for t in got], [t.lstrip() for t in texts], "text of the lines")


def run_indent(texts, first, last, variant, unit="  ", blank_lines=True, lang=None):
    """indent() of a region."""
    ind, doc, lines = setup(texts, unit, blank_lines, lang)
    c = cursor_for(doc, texts, first, last, variant)
    if c is None or variant and first and c.pos != list(offsets(texts))[first] and lines[first - 1].text == "":
        return None
    ind.indent(c)
    got = doc.text().split("\n")
    same_but_whitespace(got, texts)
    want = model(lines, first, last, unit, blank_lines)
    equal(got, want, "indented lines {}-{}".format(first, last))
    # again
    c = cursor_for(doc, got, first, last, False) or cursor_for(doc, got, first, last, True)
    if c is None:
        return got
    ind.indent(c)
    equal(doc.text().split("\n"), got, "indented again")
    if got != list(texts):
        # one step to undo
        doc.undo()
        equal(doc.text().split("\n"), list(texts), "after undo")
    return got


def run_auto(texts, unit="  ", blank_lines=True, lang=None):
    """auto_indent() of each line of an indented text agrees with indent()."""
    from parce import Cursor
    ind, doc, lines = setup(texts, unit, blank_lines, lang)
    if not balanced(lines):
        # may not do anything but change leading whitespace of one line
        before = doc.text().split("\n")
        for i in range(len(texts)):
            off = list(offsets(before))
            ind.auto_indent(Cursor(doc, off[i]))
            after = doc.text().split("\n")
            same_but_whitespace(after, before)
            equal([a for n, a in enumerate(after) if n != i], [b for n, b in enumerate(before) if n != i], "other lines")
            before = after
        return None
    ind.indent(Cursor(doc, 0, None))
    good = doc.text().split("\n")
    off = list(offsets(good))
    for i in range(len(good)):
        if not blank_lines and lines[i].blank:
            continue
        for at in {off[i], off[i] + len(good[i])}:
            ind.auto_indent(Cursor(doc, at))
            equal(doc.text().split("\n"), good, "auto_indent() of line {} that was right".format(i))
        if i and not lines[i].fixed:
            for ws in (" ", "", "\t    "):
                bad = doc.text()[off[i]:off[i] + len(good[i])]
                n = len(bad) - len(bad.lstrip())
                doc[off[i]:off[i] + n] = ws
                ind.auto_indent(Cursor(doc, off[i]))
                equal(doc.text().split("\n"), good, "auto_indent() of line {} with indent {!r}".format(i, ws))
    return good


def run_more(texts, first, last, unit, lang=None):
    """increase_indent() and decrease_indent(); strip_trailing_blanks()."""
    ind, doc, lines = setup(texts, unit, True, lang)
    c = cursor_for(doc, texts, first, last, False)
    if c is None:
        return None
    ind.increase_indent(c)
    got = doc.text().split("\n")
    region = range(first, last + 1)
    want = [unit + t if i in region and not lines[i].fixed else t for i, t in enumerate(texts)]
    equal(got, want, "more indent")
    c = cursor_for(doc, got, first, last, False)
    ind.decrease_indent(c)
    equal(doc.text().split("\n"), list(texts), "more and less indent")
    c = cursor_for(doc, texts, first, last, False)
    ind.decrease_indent(c)
    got = doc.text().split("\n")
    want = [t if i not in region or lines[i].fixed else t[len(unit):] if t.startswith(unit) else lines[i].body for i, t in enumerate(texts)]
    equal(got, want, "less indent")
    ind, doc, lines = setup(texts, unit, True, lang)
    c = cursor_for(doc, texts, first, last, False)
    ind.strip_trailing_blanks(c)
    equal(doc.text().split("\n"), [t.rstrip() if i in region and not lines[i].fixed else t for i, t in enumerate(texts)], "without trailing blanks")
    return want


# ------------------------------------------------------------ real languages
#: language -> pieces: (text of one or more lines, (closes at the start, later, opened) for each)
PIECES = {
    "css": [
        ("a {", [(0, 0, 1)]), ("}", [(1, 0, 0)]), ("b: c;", [(0, 0, 0)]), ("", [(0, 0, 0)]), ("  ", [(0, 0, 0)]), ("d { e: f }", [(0, 0, 0)]), ("/* { */", [(0, 0, 0)]),
        ("/* {\n   } */", [(0, 0, 0), (0, 0, 0)]), ("@media x {", [(0, 0, 1)]), ("} }", [(2, 0, 0)]), ("g: \"{\";", [(0, 0, 0)]), ("} h {", [(1, 0, 1)]),
    ],
    "lilypond": [
        ("{", [(0, 0, 1)]), ("}", [(1, 0, 0)]), ("c4", [(0, 0, 0)]), ("", [(0, 0, 0)]), ("  ", [(0, 0, 0)]), ("m = << {", [(0, 0, 2)]), ("} >>", [(2, 0, 0)]), (">>", [(1, 0, 0)]),
        ("c4 }", [(0, 1, 0)]), ("c4 } {", [(0, 1, 1)]), ("% {", [(0, 0, 0)]), ("%{ {\n  } %}", [(0, 0, 0), (0, 0, 0)]), ("\"{\"", [(0, 0, 0)]), ("{ c4 }", [(0, 0, 0)]), ("\\relative { {", [(0, 0, 2)]),
    ],
}


@functools.cache
def lexicon(lang):
    import parce
    return parce.find(lang)


def lang_lines(lang, texts):
    """Line models; the texts are those of pieces, with other whitespace."""
    table = {tuple(l.strip() for l in t.split("\n")): ev for t, ev in PIECES[lang]}
    r = []
    i = 0
    while i < len(texts):
        for n in (2, 1):
            key = tuple(t.strip() for t in texts[i:i + n])
            if len(key) == n and key in table:
                break
        for t, (start, end, opened) in zip(texts[i:i + n], table[key]):
            r.append(Line(t, (start, end, [None] * opened)))
        i += n
    return r


BRACKETS = {"{": "{", "}": "}", "m = << {": "<{", "} >>": "}>", ">>": ">", "c4 }": "}", "c4 } {": "}{", "\\relative { {": "{{"}

def matching(lang, pieces):
    """True if every level is closed by the bracket that belongs to it."""
    stack = []
    if lang == "css":
        # no declarations directly in @media
        for p in pieces:
            text = PIECES[lang][p][0]
            if text in ("b: c;", 'g: "{";') and stack[-1:] == ["@"]:
                return False
            for c in text.split() if "/*" not in text and '"' not in text else ():
                if c == "{":
                    stack.append(text[0])
                elif c == "}" and stack:
                    stack.pop()
        return True
    for p in pieces:
        for c in BRACKETS.get(PIECES[lang][p][0], ""):
            if c in "{<":
                stack.append(c)
            elif not stack or stack.pop() + c not in ("{}", "<>"):
                return False
    return True


def lang_texts(lang, pieces, ws):
    r = []
    for k, p in enumerate(pieces):
        for l in PIECES[lang][p][0].split("\n"):
            r.append(ws[k % len(ws)] + l if l.strip() else l)
    return r


WSPATTERNS = [("",), ("  ", "\t", ""), ("    ", " ")]


# ------------------------------------------------------------------- shards
def go(rec, runner, **case):
    out = rec.run(dict(case, runner=runner.__name__), lambda: runner(**case))
    rec.outcome(repr(out))


def shards(tier):
    quick = tier == "quick"
    r = []
    n2 = len(contents(2))
    for i in range(n2):
        for k in (1, 2, 3):
            r.append(["plain", k, i, quick])
        r.append(["regions", 3, i, quick])
    if not quick:
        for i in range(n2):
            for j in range(n2):
                r.append(["plain", 4, [i, j], quick])
    for lang in PIECES:
        for i in range(len(PIECES[lang])):
            r.append(["lang", lang, 3, i, quick])
            if not quick:
                for j in range(len(PIECES[lang])):
                    r.append(["lang", lang, 4, [i, j], quick])
    return r


def bounds(tier):
    return "texts of up to {} lines from {} contents (opening and closing up to {} levels, aligned, fixed and special lines) x whitespace patterns x units x all line ranges; Css and LilyPond texts of up to {} pieces from {} and {}".format(
        3 if tier == "quick" else 4, len(contents(2)), 2, 3 if tier == "quick" else 4, len(PIECES["css"]), len(PIECES["lilypond"]))


def run_shard(shard, rec):
    what = shard[0]
    if what == "plain":
        _, count, first, quick = shard
        cs = contents(2)
        start = [cs[i] for i in (first if isinstance(first, list) else [first])]
        for rest in itertools.product(cs, repeat=count - len(start)):
            for ws in WSPATTERNS if count < 4 else WSPATTERNS[1:2]:
                texts = [ws[i % len(ws)] + t for i, t in enumerate(tuple(start) + rest)]
                go(rec, run_indent, texts=texts, first=0, last=count - 1, variant=True)
                go(rec, run_auto, texts=texts, blank_lines=False)
                if count < 3 or not quick:
                    go(rec, run_auto, texts=texts, unit="\t")
            rec.state(tuple(texts))
    elif what == "regions":
        _, count, first, quick = shard
        cs = contents(2 if not quick else 1) + ["{{", "}}"]
        for rest in itertools.product(cs, repeat=count - 1):
            for ws in WSPATTERNS:
                texts = [ws[i % len(ws)] + t for i, t in enumerate((contents(2)[first],) + rest)]
                for a in range(count):
                    for b in range(a, count):
                        for variant in (False, True):
                            for blank_lines in (True, False):
                                go(rec, run_indent, texts=texts, first=a, last=b, variant=variant, blank_lines=blank_lines)
                        for unit in ("  ", "\t") if ws != ("",) else ("   ",):
                            go(rec, run_more, texts=texts, first=a, last=b, unit=unit)
                rec.state(tuple(texts))
    else:
        _, lang, count, first, quick = shard
        pieces = PIECES[lang]
        first = first if isinstance(first, list) else [first]
        for n in range(count - len(first) + 1) if count < 4 else [count - len(first)]:
            for rest in itertools.product(range(len(pieces)), repeat=n):
                for ws in WSPATTERNS[:1 if count == 4 else 3]:
                    texts = lang_texts(lang, tuple(first) + rest, ws)
                    if not balanced(lang_lines(lang, texts)) or not matching(lang, tuple(first) + rest):
                        continue
                    go(rec, run_indent, texts=texts, first=0, last=len(texts) - 1, variant=True, lang=lang)
                    go(rec, run_auto, texts=texts, lang=lang)
                    if n < 2:
                        for a in range(len(texts)):
                            for b in range(a, len(texts)):
                                go(rec, run_indent, texts=texts, first=a, last=b, variant=False, lang=lang, unit="\t")
                                go(rec, run_more, texts=texts, first=a, last=b, unit=" ", lang=lang)
                rec.state(tuple(texts))


def replay(case, rec):
    case = dict(case)
    runner = globals()[case.pop("runner")]
    rec.run(case, lambda: runner(**case))
