"""C07: document edits behave as on a string and are applied atomically."""
import itertools
import re

import parce
from parce.mutablestring import MutableString
from parce.document import Document, Cursor
from parce.work import Worker
from parce.treebuilder import TreeBuilder

from mc.core import Violation, check, equal

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of edit operations and edit contexts on small documents against a string model"
RULE = ("every single edit (all indices, slices, texts), every sequence of edits in every arrangement of (nested) edit contexts "
        "with and without an exception, every replace/re_sub/translate/trim over every region; an outcome is a distinct "
        "(document, operation, resulting text)")
ASSUMPTIONS = ["slices with a step are not part of the interface",
    "replacements in one edit context that start at the same position and both remove text may be merged or refused",
    "where a regular expression looks beyond the region's borders (word boundary, end of line), both readings are allowed"]


def bounds(tier):
    return ("single edits: texts <= {0} characters, all keys in -{1}..{1}; edit contexts: texts of <= 4, all sequences of <= {2} edits x 5 arrangements; "
        "{3} of 14 operations in one edit context on all texts <= {4}; sequences of {2} operations; replace etc.: all texts <= {4} over 'ab \\n', all regions").format(
        *((4, 6, 3, 2, 4) if tier == "quick" else (5, 7, 4, 3, 5)))


class MS(MutableString):
    """Records the text_changed() calls like Document's event."""
    def __init__(self, text):
        super().__init__(text)
        self.log = []

    def text_changed(self, position, removed, added):
        self.log.append((position, removed, added))


def make(kind, text):
    if kind == "ms":
        return MS(text)
    if kind == "doc":
        d = Document(text)
    else:
        d = parce.Document(None, text, worker=Worker(TreeBuilder()))
    d.log = []
    d.nochange = []
    d.rev0 = d.revision()
    d.connect("text_change", lambda p, r, a: d.log.append((p, r, a)))
    d.connect("text_changed", lambda: d.nochange.append(1))
    return d


def verify(d, old, want, loglen=0, rev=None, what=""):
    """Text, length and reported change are right after an operation."""
    equal(d.text(), want, what + " text")
    equal(len(d), len(want), what + " len")
    equal(str(d), want, what + " str()")
    if want == old:
        # an edit that does not alter the text may be reported as change or not at all
        check(len(d.log) - loglen <= 1, what, "too many reports", d.log)
    else:
        equal(len(d.log) - loglen, 1, what + " number of reported changes")
    if len(d.log) > loglen:
        p, r, a = d.log[-1]
        check(0 <= p <= len(old) and r >= 0 and a >= 0 and p + r <= len(old) and p + a <= len(want), what, "bad report", d.log[-1])
        equal(len(old) - r + a, len(want), what + " report lengths")
        check(old[:p] == want[:p] and old[p + r:] == want[p + a:], what, "report {!r} does not describe {!r} -> {!r}".format(d.log[-1], old, want))
    if rev is not None:
        n = d.revision() - d.rev0
        equal(n, len(d.log), what + " revision steps")
        equal(len(d.nochange), len(d.log), what + " text_changed events")


def strset(text, key, new):
    """The result of text[key] = new, as for a list of characters."""
    l = list(text)
    if isinstance(key, slice):
        l[key] = list(new)
    else:
        if not -len(l) <= key < len(l):
            raise IndexError
        l[key] = new
    return "".join(l)


def single(kind, text, op, args):
    d = make(kind, text)
    rev = d.revision() if kind != "ms" else None
    if op in ("get", "set", "del"):
        key = args[0]
        if isinstance(key, (list, tuple)):
            key = slice(*key)
        try:
            want = text[key] if op == "get" else strset(text, key, args[1] if op == "set" else "")
        except IndexError:
            want = IndexError
        if op == "get":
            try:
                got = d[key]
            except IndexError:
                got = IndexError
            equal(got, want, "get")
            verify(d, text, text, 0, rev, "get")
            return got if got is not IndexError else None
        try:
            if op == "set":
                d[key] = args[1]
            else:
                del d[key]
            check(want is not IndexError, "IndexError expected")
        except IndexError:
            check(want is IndexError, "unexpected IndexError")
            want = text
    elif op == "insert":
        want = strset(text, slice(args[0], args[0]), args[1])
        d.insert(*args)
    elif op == "append":
        want = text + args[0]
        d.append(args[0])
    elif op == "iadd":
        want = text + args[0]
        e = d
        e += args[0]
        check(e is d, "+= returned another object")
    elif op == "set_text":
        want = args[0]
        d.set_text(args[0])
    elif op == "add":
        equal(d + args[0], text + args[0], "add")
        equal(args[0] + d, args[0] + text, "radd")
        want = text
    verify(d, text, want, 0, rev, op)
    return want


def merge(text, edits):
    """Model of edits applied together: new text, None (overlap) or a set of options."""
    by = {}
    for s, e, t in edits:
        by.setdefault(s, []).append((e, t))
    out, tail, ambiguous = [], 0, False
    for s in sorted(by):
        if s < tail:
            return None, False
        c = by[s]
        if sum(e > s for e, t in c) > 1:
            ambiguous = True
        out.append(text[tail:s])
        out.extend(t for e, t in c)
        tail = max(e for e, t in c)
    out.append(text[tail:])
    return "".join(out), ambiguous


class Stop(Exception):
    pass


SHAPES = ("flat", "nested", "deep", "raise", "inner-raise")


def context(kind, text, edits, shape):
    d = make(kind, text)
    rev = d.revision() if kind != "ms" else None
    n = len(edits)

    def ed(e):
        s, end, t = e
        if t == "":
            del d[s:end]
        elif s == end == len(text):
            d.append(t)
        elif s == end:
            d.insert(s, t)
        else:
            d[s:end] = t
        equal(d.text(), text, "text inside the edit context")
        equal(d[s:end], text[s:end], "slice inside the edit context")

    error = None
    try:
        with d as dd:
            check(dd is d, "context value")
            if shape == "flat":
                for e in edits:
                    ed(e)
            elif shape == "nested":
                ed(edits[0])
                with d:
                    for e in edits[1:]:
                        ed(e)
                equal(d.text(), text, "text after the inner context")
                check(not d.log, "change reported before the outermost context ended")
            elif shape == "deep":
                with d:
                    with d:
                        ed(edits[0])
                    equal(d.text(), text, "text after the inner context")
                    for e in edits[1:]:
                        ed(e)
                equal(d.text(), text, "text after the inner context")
            elif shape == "raise":
                for e in edits:
                    ed(e)
                raise Stop
            else:
                ed(edits[0])
                with d:
                    for e in edits[1:]:
                        ed(e)
                    raise Stop
    except Stop:
        error = "stop"
    except RuntimeError:
        error = "overlap"
    # edits that do not change anything need not be kept
    real = [e for e in edits if (e[2] or e[0] != e[1])]
    eff = [e for e in real if text[e[0]:e[1]] != e[2]]
    if shape in ("raise", "inner-raise"):
        equal(error, "stop", "exception")
        want = text
    else:
        wants = {merge(text, eff), merge(text, real)}
        if any(a for w, a in wants) and error == "overlap":
            want = text
        elif error == "overlap":
            check((None, False) in wants, "edits refused that do not overlap")
            want = text
        else:
            options = {w for w, a in wants if w is not None}
            check(options, "overlapping edits accepted, text is now {!r}".format(d.text()))
            if any(a for w, a in wants):
                want = d.text() if d.text() in options else next(iter(options))
            else:
                check(d.text() in options, "text is {!r}, expected {!r}".format(d.text(), options))
                want = d.text()
    verify(d, text, want, 0, rev, shape)
    # the document is still usable, in and out of a context
    l, t0 = len(d.log), d.text()
    d[0:0] = "Z"
    verify(d, t0, "Z" + t0, l, rev, "edit afterwards")
    l, t0 = len(d.log), d.text()
    with d:
        d[len(d):] = "Q"
        d[0] = "P"
    verify(d, t0, "P" + t0[1:] + "Q", l, rev, "context afterwards")
    if kind != "ms":
        d.set_text(text)
        equal(d.text(), text, "set_text afterwards")
    return want


def region(text, start, end):
    s, e, _ = slice(start, end).indices(len(text))
    return s, max(s, e)


def find_all(text, old):
    """Non-overlapping occurrences, from left to right."""
    i, out = 0, []
    while i <= len(text) - len(old):
        if text[i:i + len(old)] == old:
            out.append(i)
            i += max(1, len(old))
        else:
            i += 1
    return out


def do_replace(kind, text, old, new, start, end, count):
    d = make(kind, text)
    s, e = region(text, start, end)
    hits = find_all(text[s:e], old)
    if count > 0:
        hits = hits[:count]
    out, tail = [], 0
    for h in hits:
        out.append(text[tail:s + h] + new)
        tail = s + h + len(old)
    want = "".join(out) + text[tail:]
    d.replace(old, new, start, end, count)
    verify(d, text, want, 0, 0, "replace")
    return want


def do_sub(kind, text, pattern, repl, start, end, count, flags):
    d = make(kind, text)
    s, e = region(text, start, end)
    r = eval(repl[5:]) if repl.startswith("func:") else repl
    want = text[:s] + re.sub(pattern, r, text[s:e], count=count, flags=flags) + text[e:]
    d.re_sub(re.compile(pattern, flags) if (len(pattern) + s) % 2 else pattern, r, start, end, count, *(() if (len(pattern) + s) % 2 else (flags,)))
    verify(d, text, want, 0, 0, "re_sub")
    return want


def do_trim(kind, text, start, end):
    d = make(kind, text)
    s, e = region(text, start, end)
    keep = [True] * len(text)
    for i in range(s, e):
        j = i
        while j < len(text) and text[j] in " \t":
            j += 1
        if text[i] in " \t" and (j == len(text) or text[j] == "\n"):
            keep[i] = False
    want = "".join(c for c, k in zip(text, keep) if k)
    if e < len(text) and text[e] != "\n" and e > s and text[e - 1] in " \t":
        # the region ends inside the line, after whitespace: may count as the end of the line
        i = e
        while i > s and text[i - 1] in " \t":
            i -= 1
            keep[i] = False
        want2 = "".join(c for c, k in zip(text, keep) if k)
        d.trim(start, end)
        check(d.text() in (want, want2), "trim gives {!r}".format(d.text()))
        return want
    d.trim(start, end)
    verify(d, text, want, 0, 0, "trim")
    return want


def do_translate(kind, text, mapping, start, end, count, words):
    d = make(kind, text)
    s, e = region(text, start, end)
    keys = sorted(mapping, key=lambda k: -len(k))
    wc = lambda c: c.isalnum() or c == "_"

    def bound(t, i):
        return (i > 0 and wc(t[i - 1])) != (i < len(t) and wc(t[i]))

    def run(t, off, lo, hi):
        """t: text consulted for word boundaries; matches inside lo..hi."""
        out, i, n = [], lo, 0
        while i < hi:
            k = None
            if not (count > 0 and n >= count):
                for key in keys:
                    if text[i:i + len(key)] == key and i + len(key) <= hi and (
                            not words or (bound(t, i - off) and bound(t, i + len(key) - off))):
                        k = key
                        break
            if k:
                out.append(mapping[k])
                i += len(k)
                n += 1
            else:
                out.append(text[i])
                i += 1
        return text[:lo] + "".join(out) + text[hi:]
    want = {run(text[s:e], s, s, e)}
    if words:
        want.add(run(text, 0, s, e))
    d.translate(mapping, start, end, count, words)
    check(d.text() in want, "translate gives {!r}, expected {!r}".format(d.text(), want))
    verify(d, text, d.text(), 0, 0, "translate")
    return d.text()


def cursor_key(text, pos, end, new):
    """A Cursor or Block used as key denotes its range."""
    d = make("doc", text)
    c = Cursor(d, pos, end)
    equal(d[c], text[pos:end], "text at cursor")
    equal(c.text(), text[pos:end], "cursor text")
    with d:
        d[c] = new
    verify(d, text, text[:pos] + new + text[len(text) if end is None else end:], 0, 0, "cursor key")


def as_edits(text, op):
    """The single edits the operation consists of."""
    name, *a = op
    if name == "edit":
        return [tuple(a)]
    if name == "replace":
        return [(i, i + len(a[0]), a[1]) for i in find_all(text, a[0])]
    if name == "re_sub":
        return [(m.start(), m.end(), m.expand(a[1])) for m in re.finditer(a[0], text)]
    if name == "trim":
        return [(m.start(), m.end(), "") for m in re.finditer(r"(?m)[ \t]+$", text)]
    if name == "translate":
        return [(i, i + 1, a[0][c]) for i, c in enumerate(text) if c in a[0]]


def mixed(text, ops, undo):
    """Operations that themselves open an edit context, inside an edit context."""
    d = make("doc", text)
    eds = [e for op in ops for e in as_edits(text, op)]
    eff = [e for e in eds if (e[2] or e[0] != e[1]) and text[e[0]:e[1]] != e[2]]
    want, ambiguous = merge(text, eff)
    try:
        with d:
            for name, *a in ops:
                if name == "edit":
                    d[a[0]:a[1]] = a[2]
                else:
                    getattr(d, name)(*a)
                equal(d.text(), text, "text inside the edit context")
        check(want is not None, "overlapping edits accepted")
    except RuntimeError:
        check(want is None or ambiguous, "edits refused that do not overlap")
        want = text
    if ambiguous:
        return want
    verify(d, text, want, 0, 0, "mixed")
    if undo and want != text:
        d.undo()
        verify(d, want, text, 1, 0, "undo")
        d.redo()
        verify(d, text, want, 2, 0, "redo")
    return want


def sequence(kind, text, ops):
    """Operations one after another on the same document."""
    d = make(kind, text)
    for op in ops:
        l, t = len(d.log), d.text()
        n = len(t)
        name, *a = op
        if name == "edit":
            s, e = min(a[0], n), max(min(a[0], n), min(a[1], n))
            want, _ = merge(t, [(s, e, a[2])])
            d[a[0]:a[1]] = a[2]
        else:
            want, _ = merge(t, as_edits(t, op))
            getattr(d, name)(*a)
        verify(d, t, want, l, None if kind == "ms" else 0, name)
    return want


OPS = [("edit", 0, 0, "x"), ("edit", 0, 1, ""), ("edit", 1, 3, "a"), ("edit", 2, 2, " \n"), ("edit", 3, 9, ""), ("replace", "a", "bb"), ("replace", "", "."),
       ("replace", "b", ""), ("replace", "ab", "ba"), ("re_sub", "(b+)", r"<\1>"), ("re_sub", "a*", "-"), ("trim",), ("translate", {"a": "b", "b": "a"}), ("translate", {" ": "", "\n": " "})]


FUNCS = dict(mixed=mixed, sequence=sequence, single=single, context=context, replace=do_replace, re_sub=do_sub, trim=do_trim, translate=do_translate, cursor=cursor_key)


def texts(al, n):
    for k in range(n + 1):
        for t in itertools.product(al, repeat=k):
            yield "".join(t)


def shards(tier):
    q = tier == "quick"
    out = []
    for kind in ("ms", "doc", "full"):
        out.append(dict(f="single", kind=kind, n=4 if q else 5, tier=tier))
    for k in range(15 if q else 60):
        out.append(dict(f="context", part=k, parts=15 if q else 60, tier=tier))
    for part in range(4 if q else 16):
        out.append(dict(f="mixed", part=part, parts=4 if q else 16, n=4 if q else 5, depth=2 if q else 3, tier=tier))
        out.append(dict(f="sequence", part=part, parts=4 if q else 16, n=3, depth=3 if q else 4, tier=tier))
    for f in ("replace", "re_sub", "trim", "translate", "cursor"):
        for part in range(2 if q else 8):
            out.append(dict(f=f, part=part, parts=2 if q else 8, n=4 if q else 5, tier=tier))
    return out


SUBS = [("a", "x"), ("a+", r"<\g<0>>"), ("(a)(b)?", r"\2\1"), ("b*", "-"), ("|a", "y"), ("a$", ""), ("^", "> "), ("A", "z"), ("(?<=a)b", "c"),
        (r"(\w)\s", "func:lambda m: m.group(1) * 2"), (r"\n", r"\\n")]


def run_shard(sh, rec):
    q = sh["tier"] == "quick"
    f = sh["f"]

    def case(*args):
        rec.transitions += 1
        r = rec.run(dict(f=f, args=list(args)), FUNCS[f], *args)
        rec.outcome((f, repr(args), r))
        rec.state((f, repr(args[:2])))

    if f == "single":
        b = list(range(-6, 7)) if q else list(range(-7, 8))
        bn = [None] + b
        tx = [""] + ["a", "ab", "abc", "abcd", "abcde", "aa", "aba"][:7 if not q else 4] + ["aa", "aba"]
        for text in dict.fromkeys(tx):
            for i in b:
                case(sh["kind"], text, "get", [i])
                case(sh["kind"], text, "del", [i])
                for t in ("", "x", "yz", "a"):
                    case(sh["kind"], text, "set", [i, t])
                    case(sh["kind"], text, "insert", [i, t])
            for k in itertools.product(bn, bn):
                case(sh["kind"], text, "get", [list(k)])
                case(sh["kind"], text, "del", [list(k)])
                for t in ("", "x", "yz", "a"):
                    case(sh["kind"], text, "set", [list(k), t])
            for t in ("", "x", "yz", "a", text, text + "a", text[1:]):
                for op in ("append", "iadd", "set_text", "add"):
                    case(sh["kind"], text, op, [t])
        rec.sample(dict(text="abcd", op="set", key=[-2, None], new="yz"))
    elif f in ("mixed", "sequence"):
        i = 0
        for text in texts("ab ", sh["n"]):
            if f == "mixed":
                for k in range(1, sh["depth"] + 1 if len(text) < 4 else 3):
                    for ops in itertools.product(OPS, repeat=k):
                        i += 1
                        if i % sh["parts"] == sh["part"]:
                            if not any(o[0] == "edit" and o[2] > len(text) and o[1] > len(text) for o in ops):
                                case(text, [list(o) if o[0] != "edit" else ["edit", o[1], min(o[2], len(text)), o[3]] for o in ops], i % 3 == 0)
            else:
                for ops in itertools.product(OPS, repeat=sh["depth"] if len(text) < 2 else 2):
                    i += 1
                    if i % sh["parts"] == sh["part"]:
                        case(("doc", "ms", "full")[0 if any(o[0] != "edit" for o in ops) else i % 3], text, [list(o) for o in ops])
    elif f == "context":
        i = 0

        def enum(text, new, depth):
            n = len(text)
            eds = [(s, e, t) for s in range(n + 1) for e in range(s, n + 1) for t in new]
            for k in range(1, depth + 1):
                yield from itertools.product(eds, repeat=k)
        if q:
            gens = [("abc", ("", "x", "yz"), 3), ("abcd", ("", "x", "yz"), 2), ("abcd", ("", "x"), 3), ("aab", ("", "a", "xy"), 2), ("", ("x", "yz"), 4), ("a", ("", "x", "a"), 3)]
        else:
            gens = [("abcd", ("", "x", "yz"), 3), ("abc", ("", "x"), 4), ("aab", ("", "a", "xy"), 3), ("", ("x", "yz"), 4), ("a", ("", "x", "a"), 4)]
        for text, new, depth in gens:
            for eds in enum(text, new, depth):
                i += 1
                if i % sh["parts"] != sh["part"]:
                    continue
                for j, shape in enumerate(SHAPES):
                    case("doc" if (i // sh["parts"] + j) % 3 else ("ms" if j % 2 else "full"), text, [list(e) for e in eds], shape)
        rec.sample(dict(text="abc", edits=[[0, 1, "x"], [2, 2, "yz"]], shapes=SHAPES))
    else:
        i = 0
        for text in texts("ab \n" if f != "cursor" else "ab", sh["n"]):
            i += 1
            if i % sh["parts"] != sh["part"]:
                continue
            n = len(text)
            regs = [(s, e) for s in range(n + 2) for e in [None] + list(range(n + 2))]
            regs += [(-1, None), (-2, -1), (-n - 1, None), (0, -1), (-3, None)]
            for s, e in regs:
                if f == "replace":
                    for old, new in (("a", "b"), ("a", "xyz"), ("aa", "a"), ("ab", ""), ("", "-"), (" ", "\n"), ("a", "aa")):
                        for c in (0, 1, 2) if len(text) < 4 or not q else ((i + s) % 3,):
                            case("doc", text, old, new, s, e, c)
                elif f == "re_sub":
                    for j, (p, r) in enumerate(SUBS):
                        for c in (0, 1, 2) if not q else ((i + s + j) % 3,):
                            case("doc", text, p, r, s, e, c, (0, re.I, re.M)[(i + c) % 3])
                elif f == "trim":
                    case("doc", text, s, e)
                    case("doc", text.replace("b", "\t"), s, e)
                elif f == "translate":
                    for m in ({"a": "b", "b": "a"}, {"a": "", "aa": "y", "ab": "z"}, {"a b": "c"}, {" ": "__"}):
                        for w in (False, True):
                            case("doc", text, m, s, e, (i + s) % 3, w)
                elif f == "cursor":
                    if 0 <= s <= n and (e is None or s <= e <= n):
                        for t in ("", "x", "ab"):
                            case(text, s, e, t)


def replay(case, rec):
    rec.run(case, FUNCS[case["f"]], *case["args"])
