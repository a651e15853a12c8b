"""C23: a document reports exactly the tokens at a position, in a selection or in a block."""
import functools
import itertools

from mc.core import Violation, check, equal

LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration: all texts x all edits x all positions, selections and blocks on the real documents, against plain enumeration of the tokens of the parsed text"
RULE = ("all texts over a small alphabet up to a length in a language with nested contexts, tokens over several lines, gaps and unparsed text; every position, region and block, "
        "on the document as loaded and after every edit of a set; an outcome is a distinct answer list")
ASSUMPTIONS = ["after the last token of a line, not touching it, token() may return nothing or that token; at the start of a line it may or may not return a token that ends just before",
    "an empty region denotes the tokens that have characters on both sides of it or none"]

ALPHABET = "a(<>) \n"
EDITS = [None, (0, 0, "a"), (0, 1, ""), (1, 1, "("), (1, 2, "\n"), (2, 2, "<"), (0, 2, ">"), (-1, None, ""), (-1, None, "\n\na"), (1, 3, "a a")]


@functools.cache
def lang():
    from parce import Language, lexicon
    import parce.action as A

    class L(Language):
        @lexicon
        def root(cls):
            yield r"a+", A.Name
            yield r"\(", A.Delimiter, cls.par
            yield r"<[^>]*>?", A.String

        @lexicon
        def par(cls):
            yield r"\)", A.Delimiter, -1
            yield r"\(", A.Delimiter, cls.sub
            yield r"a(\n)?", A.Text

        @lexicon(consume=True)
        def sub(cls):
            yield r"a", A.Text
            yield r"\)", A.Delimiter, -1
    return L


def document(text):
    from parce import Document
    from parce.treebuilder import TreeBuilder
    from parce.work import Worker
    lex = lang().root
    return Document(lex, text, worker=Worker(TreeBuilder(lex)))


def flat(node):
    for n in list.__iter__(node):
        if n.is_context:
            yield from flat(n)
        else:
            yield n


def names(toks):
    return [None if t is None else (t.pos, t.text) for t in toks]


def same(got, want, what):
    got, want = list(got), list(want)
    if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
        raise Violation("{}: {} instead of {}".format(what, names(got), names(want)))


def run_text(text, edit):
    from parce import Cursor
    d = document(text)
    if edit is not None:
        s, e, new = edit
        d[s:e] = new
        text = "{}{}{}".format(text[:slice(s, e).indices(len(text))[0]], new, text[max(slice(s, e).indices(len(text))[:2]):])
        equal(d.text(), text, "text after the edit")
    toks = list(flat(d.get_root(True)))
    for t in toks:
        equal(t.text, text[t.pos:t.pos + len(t.text)], "text of a token")
    import parce
    equal([(t.pos, t.text, t.action) for t in toks], [(t.pos, t.text, t.action) for t in flat(parce.root(lang().root, text))], "tokens after the edit")
    spans = [(t, t.pos, t.pos + len(t.text)) for t in toks]
    out = []
    n = len(text)
    # lines
    lines, p = [], 0
    for part in text.split("\n"):
        lines.append((p, p + len(part)))
        p += len(part) + 1
    for pos in range(n + 1):
        ls, le = next(l for l in lines if l[0] <= pos <= l[1])
        touching = [t for t, s, e in spans if s <= pos < e] or [t for t, s, e in spans if e == pos][-1:]
        right = [t for t, s, e in spans if pos < s <= le][:1]
        left = [t for t, s, e in spans if ls < e < pos][-1:]
        if touching:
            ok = touching[:1]
            if touching[0].end == pos == ls:
                ok = ok + (right or [None])     # that token is on the previous line
        elif right:
            ok = right
        else:
            ok = [None] + left
        for got, what in ((d.token(pos), "token({})".format(pos)), (Cursor(d, pos).token(), "token of a cursor at {}".format(pos))):
            if not any(got is t for t in ok):
                raise Violation("{} of {!r} is {}, not {}".format(what, text, got, ok))
        out.append(None if got is None else got.pos)
        for end in list(range(pos, n + 1)) + [None]:
            stop = n if end is None else end
            want = [t for t, s, e in spans if s < stop and e > pos]
            got = list(Cursor(d, pos, end).tokens())
            if pos == stop and not got:
                continue
            same(got, want, "tokens of the region {}:{} of {!r}".format(pos, end, text))
        out.append(len(got))
    k = 0
    for b, (ls, le) in zip(d.blocks(), lines, strict=True):
        want = [t for t, s, e in spans if s < le and e > ls]
        got = b.tokens()
        check(isinstance(got, tuple), "tokens of a block")
        if ls != le or got:
            same(got, want, "tokens of block {} of {!r}".format(k, text))
        k += 1
    check(Cursor(d, 0, None).select_all().text() == text, "text of all")
    return tuple(out)


def texts(n):
    for i in range(n + 1):
        for t in itertools.product(ALPHABET, repeat=i):
            yield "".join(t)


# -- ranges as such ----------------------------------------------------------

def run_compare():
    """Comparison of cursors and blocks."""
    from parce import Cursor
    d, d2 = document("a\na"), document("a\na")
    cs = [Cursor(doc, p, e) for doc in (d, d2) for p in range(4) for e in [None] + list(range(p, 4))]
    cs += list(d.blocks()) + list(d2.blocks())
    for x in cs:
        for y in cs:
            comparable = type(x) is type(y) and x.document() is y.document()
            eq = comparable and (x.pos, x.end) == (y.pos, y.end)
            equal(x == y, eq, "{!r} == {!r}".format(x, y))
            equal(x != y, not eq, "{!r} != {!r}".format(x, y))
            if comparable:
                equal((x < y, x > y, x <= y, x >= y), (x.pos < y.pos, x.pos > y.pos, x.pos <= y.pos, x.pos >= y.pos), "order of {!r} and {!r}".format(x, y))
        check(bool(x), "truth of", x)
        equal(x.text(), x.document().text()[x.pos:x.end], "text of a range")


def shards(tier):
    n = 5 if tier == "quick" else 6
    return [["compare"], ["short"]] + [["texts", a + b, n - 2] for a in ALPHABET for b in ALPHABET]


def bounds(tier):
    return "texts of up to {} of {} characters x {} edits x all positions, regions and blocks; all pairs of 28 cursors and 4 blocks".format(5 if tier == "quick" else 6, len(ALPHABET), len(EDITS) - 1)


def run_shard(shard, rec):
    if shard[0] == "compare":
        rec.run(dict(compare=1), run_compare)
        rec.state("compare")
        return
    for text in (texts(1) if shard[0] == "short" else (shard[1] + t for t in texts(shard[2]))):
        for edit in EDITS:
            if edit and len(text) > 4 and edit[0] > 0:
                continue
            rec.outcome(rec.run(dict(text=text, edit=edit), run_text, text, edit))
            rec.state((text, edit))


def replay(case, rec):
    if "compare" in case:
        rec.run(case, run_compare)
    else:
        rec.run(case, run_text, case["text"], case["edit"])
