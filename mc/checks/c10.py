"""C10: blocks partition the text into its lines."""
import itertools

import parce
from parce.document import Document, Cursor, Block

from mc.core import Violation, check, equal

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of texts, separators, positions, numbers and regions against str.split"
RULE = ("every text up to n characters over an alphabet with the separator, every position, number and region; an outcome is a distinct "
        "(text, separator, answers)")
ASSUMPTIONS = ["the block separator does not overlap itself", "a position strictly inside a separator belongs to the block before it (the end-of-block search is not asked there)"]

SEPS = {"\n": "a\n ", "\r\n": "a\r\n", "|": "a| ", "ab": "abc", "\u2028": "a\u2028\n", "--+": "-+a"}


def bounds(tier):
    return "6 separators, texts <= {} characters over 3 characters, all positions 0..n+1, all numbers, all regions, all cursors".format(7 if tier == "quick" else 9)


def lines(text, sep):
    out, pos = [], 0
    for l in text.split(sep):
        out.append((pos, pos + len(l)))
        pos += len(l) + len(sep)
    return out


def one(text, sep, full=True):
    d = Document(text)
    d.block_separator = sep
    L = lines(text, sep)
    n = len(text)

    def same(b, i, what):
        if i is None:
            check(b is None, what, "gives a block, expected None")
            return
        check(b is not None, what, "gives None")
        check(type(b) is Block and b.document() is d, what, "gives no block of this document")
        if (b.pos, b.end) != L[i] or b.block_number != i:
            raise Violation("{}: block {} at {}:{}, expected {} at {}:{}".format(what, b.block_number, b.pos, b.end, i, *L[i]))
        equal(len(b), b.end - b.pos, what + " len")
        equal(b.text(), text[b.pos:b.end], what + " text")
        equal(b.is_first(), i == 0, what + " is_first")
        equal(b.is_last(), i == len(L) - 1, what + " is_last")

    def index(p):
        for i in range(len(L) - 1, -1, -1):
            if p >= L[i][0]:
                return i

    equal(d.block_count(), len(L), "block_count")
    for k in range(-len(L) - 2, len(L) + 2):
        i = k if k >= 0 else len(L) + k
        b = d.find_block_by_number(k)
        same(b, i if 0 <= i < len(L) else None, "find_block_by_number({})".format(k))
        if b:
            same(b.next_block(), i + 1 if i + 1 < len(L) else None, "next_block of {}".format(k))
            same(b.previous_block(), i - 1 if i else None, "previous_block of {}".format(k))
    # stepping with numbers not yet computed and with numbers known
    for p in range(n + 2):
        i = index(p)
        same(d.find_block(p), i, "find_block({})".format(p))
        b = d.find_block(p)
        for j in range(i + 1, len(L) + 1):
            b = b.next_block()
            same(b, j if j < len(L) else None, "next_block from {}".format(p)) if j % 2 or b is None else None
        b, trail = d.find_block(p), []
        while b:
            trail.append(b)
            b = b.previous_block()
        equal([(b.pos, b.end) for b in trail], L[i::-1], "previous blocks from {}".format(p))
        equal([b.block_number for b in trail], list(range(i, -1, -1)), "previous block numbers from {}".format(p))
        equal(d.find_start_of_block(p), L[i][0], "find_start_of_block({})".format(p))
        c = Cursor(d, p)
        equal((c.pos, c.end), (p, p), "cursor")
        same(c.block(), i, "Cursor.block")
        check(c.move_start_of_block() is c, "returns self")
        equal((c.pos, c.end), (L[i][0],) * 2, "move_start_of_block from {}".format(p))
        if p <= L[i][1] or p > n:
            e = L[i][1]
            equal(d.find_end_of_block(p), e, "find_end_of_block({})".format(p))
            c.select(p)
            check(c.move_end_of_block() is c, "returns self")
            equal((c.pos, c.end), (e, e), "move_end_of_block from {}".format(p))
    equal([(b.pos, b.end) for b in d.blocks()], L, "blocks()")
    if not full:
        return len(L)
    bl = list(d.blocks())
    for (i, a), (j, b) in itertools.product(enumerate(bl), repeat=2):
        equal((a == b, a != b, a < b, a > b, a <= b, a >= b), (i == j, i != j, i < j, i > j, i <= j, i >= j), "comparing blocks {} {}".format(i, j))
    for s in range(n + 1):
        equal([(b.pos, b.end) for b in d.blocks(s)], L[index(s):], "blocks({})".format(s))
        for e in list(range(s, n + 2)) + [None]:
            end = n + 1 if e is None else e
            i = index(s)
            want = [L[i]] + [l for l in L[i + 1:] if l[0] < end]
            got = list(d.blocks(s, e))
            equal([(b.pos, b.end) for b in got], want, "blocks({}, {})".format(s, e))
            equal([b.block_number for b in got], list(range(i, i + len(want))), "numbers of blocks({}, {})".format(s, e))
            if e is not None and e > n:
                continue
            c = Cursor(d, s, e)
            equal([(b.pos, b.end) for b in c.blocks()], want, "Cursor.blocks")
            equal(c.selection(), (s, n if e is None else e), "selection")
            equal(c.has_selection(), s < (n if e is None else e), "has_selection")
            sel = text[s:e]
            for chars in (None, "a", " a"):
                for m in ("lstrip", "rstrip", "strip"):
                    c = Cursor(d, s, e)
                    check(getattr(c, m)(chars) is c, "returns self")
                    equal(c.text(), getattr(sel, m)(chars), "{}({!r}) of {}:{}".format(m, chars, s, e))
                    if m == "lstrip":
                        equal(c.end, e, "end after lstrip")
                    if m == "rstrip":
                        equal(c.pos, s, "pos after rstrip")
                        check(c.end is e if c.text() == sel else c.end == s + len(c.text()), "end after rstrip")
            c = Cursor(d, s, e).select_start_of_block()
            equal((c.pos, c.end), (L[i][0], e), "select_start_of_block")
            c = Cursor(d, s, e)
            if e is None:
                equal(c.select_end_of_block().end, None, "select_end_of_block")
            elif e <= L[index(e)][1]:
                c.select_end_of_block()
                equal((c.pos, c.end), (s, L[index(e)][1]), "select_end_of_block")
            c = Cursor(d, s, e).select_none()
            equal((c.pos, c.end), (s, s), "select_none")
            c.select_all()
            equal((c.pos, c.end, c.text()), (0, None, text), "select_all")
            c.select(s, e)
            equal((c.pos, c.end), (s, e), "select")
    return len(L)


def edited(text, sep, s, e, new):
    """Blocks asked for after an edit describe the new text."""
    d = Document(text)
    d.block_separator = sep
    list(d.blocks())
    d.find_block(s).block_number
    d[s:e] = new
    t = text[:s] + new + text[e:]
    L = lines(t, sep)
    equal([(b.pos, b.end, b.block_number) for b in d.blocks()], [(a, b, i) for i, (a, b) in enumerate(L)], "blocks after edit")
    equal(d.block_count(), len(L), "block_count after edit")
    b = d.find_block_by_number(len(L) - 1)
    equal((b.pos, b.end), L[-1], "last block after edit")


def shards(tier):
    n = 7 if tier == "quick" else 9
    return [dict(sep=s, n=n, first=f) for s in SEPS for f in [None] + list(SEPS[s])] + [dict(sep=s, n=3, first="edit") for s in SEPS]


def run_shard(s, rec):
    al = SEPS[s["sep"]]
    if s["first"] == "edit":
        for n in range(s["n"] + 1):
            for t in itertools.product(al, repeat=n):
                text = "".join(t)
                for a in range(n + 1):
                    for b in range(a, n + 1):
                        for new in ("", s["sep"], "x" + s["sep"], s["sep"] * 2, "x"):
                            rec.transitions += 1
                            rec.run(dict(f="edited", args=[text, s["sep"], a, b, new]), edited, text, s["sep"], a, b, new)
        return
    texts = [""] if s["first"] is None else (s["first"] + "".join(t) for k in range(s["n"]) for t in itertools.product(al, repeat=k))
    for text in texts:
        rec.transitions += 1
        rec.state((s["sep"], text))
        r = rec.run(dict(f="one", args=[text, s["sep"], len(text) < 6]), one, text, s["sep"], len(text) < 6 or s["n"] > 7 and len(text) < 8)
        rec.outcome((s["sep"], text, r))
    rec.sample(dict(sep=s["sep"], text=text))


def replay(case, rec):
    rec.run(case, dict(one=one, edited=edited)[case["f"]], *case["args"])
