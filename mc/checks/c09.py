"""C09: cursors keep denoting the same text through edits."""
import itertools

import parce
from parce.document import Document, Cursor
from parce.work import Worker
from parce.treebuilder import TreeBuilder

from mc.core import Violation, check, equal

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of cursor sets and single or grouped edits, undo and redo, against a position model"
RULE = ("every group of non-overlapping edits of a text of n characters x every cursor (alone, in pairs, and all at once), followed by undo "
        "and redo; an outcome is a distinct (changes, cursor, new position)")
ASSUMPTIONS = ["where two grouped edits touch each other, a position at or next to their common border may be assigned to either of them",
    "a start exactly at the end of replaced text goes to the start of the change, as the code documents by deleting and inserting"]

TEXT = "abcdefgh"


def bounds(tier):
    return ("texts of n characters, all cursors (pos, end or open): single edits n <= {}, groups of 2 n <= {}, 3 n <= {}, 4 n <= {}, each with all cursors "
        "together; every single cursor and every pair of cursors with every pair of edits for n <= {}; undo and redo of groups; sequences of 3 single edits n = {}").format(
        *((8, 6, 5, 4, 4, 3) if tier == "quick" else (8, 7, 6, 5, 5, 4)))


def norm(edits):
    """Sorted effective changes, those at the same start combined."""
    out = {}
    for s, e, t in edits:
        if s in out:
            e0, t0 = out[s]
            out[s] = max(e, e0), t0 + t
        else:
            out[s] = e, t
    return [(s, e, t) for s, (e, t) in sorted(out.items())]


def move(p, end, s, e, n):
    """One position after one change s..e -> n characters."""
    if not end:
        if p <= s:
            return p
        return s if p <= e else p + n - (e - s)
    if p is None or p < s:
        return p
    return s + n if p <= e else p + n - (e - s)


def expected(p, end, changes):
    """The set of acceptable new positions for p (an end if end)."""
    if p is None:
        return {None}
    # from left to right
    off, q = 0, p
    for s, e, t in changes:
        q = move(q, end, s + off, e + off, len(t))
        off += len(t) - (e - s)
    out = {q}
    touching = any(a[1] == b[0] for a, b in zip(changes, changes[1:]))
    if touching:
        # from right to left
        q = p
        for s, e, t in reversed(changes):
            q = move(q, end, s, e, len(t))
        out.add(q)
        # every change on its own
        off = 0
        for s, e, t in changes:
            if (not end and s < p <= e) or (end and s <= p <= e):
                out.add(off + (s if not end else s + len(t)))
            off += len(t) - (e - s)
        # as one change
        s0, e0 = changes[0][0], changes[-1][1]
    return out


def apply(text, changes):
    out, tail = [], 0
    for s, e, t in changes:
        out.append(text[tail:s] + t)
        tail = e
    return "".join(out) + text[tail:]


def reverse(text, changes):
    out, off = [], 0
    for s, e, t in changes:
        out.append((s + off, s + off + len(t), text[s:e]))
        off += len(t) - (e - s)
    return out


def separate(changes):
    return all(a[1] < b[0] for a, b in zip(changes, changes[1:]))


def perform(d, curs, changes, func, what):
    before = [(c.pos, c.end) for c in curs]
    want = apply(d.text(), changes)
    func()
    equal(d.text(), want, what + " text")
    for (p, e), c in zip(before, curs):
        wp, we = expected(p, False, changes), expected(e, True, changes)
        if c.pos not in wp or c.end not in we:
            raise Violation("{}: after {!r} the cursor ({}, {}) is at ({}, {}), expected {!r}".format(
                what, changes, p, e, c.pos, c.end, (sorted(wp), sorted(we, key=repr))))
    return tuple((c.pos, c.end) for c in curs)


def edit(d, edits):
    if len(edits) == 1:
        s, e, t = edits[0]
        d[s:e] = t
    else:
        with d:
            for s, e, t in edits:
                d[s:e] = t


def grouped(n, edits, cursors, undo, order=0):
    d = Document(TEXT[:n])
    curs = [Cursor(d, p, e) for p, e in (cursors if not order else reversed(cursors))]
    changes = norm(edits)
    out = perform(d, curs, changes, lambda: edit(d, edits), "edit")
    if undo and separate(changes):
        old = TEXT[:n]
        rev = reverse(old, changes)
        if separate(rev):
            perform(d, curs, rev, d.undo, "undo")
            perform(d, curs, changes, d.redo, "redo")
            perform(d, curs, rev, d.undo, "undo")
    return out


def sequence(n, seq, cursors):
    d = parce.Document(None, TEXT[:n], worker=Worker(TreeBuilder()))
    curs = [Cursor(d, p, e) for p, e in cursors]
    done = []
    for s, e, t in seq:
        old = d.text()
        l = len(old)
        s, e = min(s, l), min(e, l)
        if old[s:e] == t:
            continue
        perform(d, curs, [(s, e, t)], lambda: d.__setitem__(slice(s, e), t), "edit")
        done.append(reverse(old, [(s, e, t)]))
    for rev in reversed(done):
        perform(d, curs, rev, d.undo, "undo")
    return tuple((c.pos, c.end) for c in curs)


FUNCS = dict(grouped=grouped, sequence=sequence)


def all_cursors(n):
    return [(p, e) for p in range(n + 1) for e in list(range(p, n + 1)) + [None]]


def groups(n, k, lens):
    """All sequences of k non-overlapping changes in a text of n characters (adjacent allowed)."""
    def rec(start, k, last):
        if k == 0:
            yield ()
            return
        for s in range(start, n + 1):
            if s == last:
                continue
            for e in range(s, n + 1):
                for l in lens:
                    if e > s or l:
                        for r in rec(e, k - 1, s):
                            yield ((s, e, "XYZ"[:l]),) + r
    yield from rec(0, k, -1)


def shards(tier):
    q = tier == "quick"
    N = ([8, 6, 5, 4, 4, 3] if q else [8, 7, 6, 5, 5, 4])
    out = [dict(f="g", n=n, k=1, lens=[0, 1, 2, 3], mode="all", part=0, parts=1) for n in range(N[0] + 1)]
    for k in (2, 3, 4):
        for n in range(N[k - 1] + 1):
            parts = 8 if n == N[k - 1] else 2 if n == N[k - 1] - 1 else 1
            if not q:
                parts *= 4
            for part in range(parts):
                out.append(dict(f="g", n=n, k=k, lens=[0, 1, 3] if k == 2 or n < 5 else [0, 2], mode="all", part=part, parts=parts))
    for n in range(1, N[4] + 1):
        for mode in ("one", "two"):
            for part in range(8 if q else 24):
                out.append(dict(f="g", n=n, k=2, lens=[0, 2], mode=mode, part=part, parts=8 if q else 24))
    for part in range(8 if q else 32):
        out.append(dict(f="s", n=N[5], k=3, part=part, parts=8 if q else 32))
    return out


def run_shard(sh, rec):
    n = sh["n"]
    curs = all_cursors(n)
    i = 0

    def case(f, *args):
        rec.transitions += len(args[2]) * len(args[1])
        r = rec.run(dict(f=f, args=list(args)), FUNCS[f], *args)
        rec.state((f, n, args[1]))
        rec.outcome((f, n, args[1], r))

    if sh["f"] == "s":
        eds = [(s, e, t) for s in range(n + 1) for e in range(s, n + 1) for t in ("", "X", "YY")]
        for seq in itertools.product(eds, repeat=sh["k"]):
            i += 1
            if i % sh["parts"] == sh["part"]:
                case("sequence", n, seq, curs)
        return
    for g in groups(n, sh["k"], sh["lens"]):
        i += 1
        if i % sh["parts"] != sh["part"]:
            continue
        if i == 1:
            rec.sample(dict(n=n, changes=g, cursors=curs[:4]))
        if sh["mode"] == "all":
            case("grouped", n, g, curs, True)
            if len(g) > 1:
                # made in another order; with an insertion before a replacement at the same place
                case("grouped", n, g[::-1], curs, False)
                s, e, t = g[-1]
                if e > s:
                    case("grouped", n, g + ((s, s, "Q"),), curs, False)
        elif sh["mode"] == "one":
            for c in curs:
                case("grouped", n, g, [c], True)
        else:
            for c in itertools.combinations(curs, 2):
                case("grouped", n, g, list(c), False, i % 2)


def replay(case, rec):
    f, a = case["f"], case["args"]
    a[1] = [tuple(e) for e in a[1]]
    rec.run(case, FUNCS[f], *a)
