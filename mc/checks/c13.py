"""C13: generated patterns match exactly the given words or characters."""
import itertools
import re
import warnings

from parce import regex, rule

from mc.core import Violation, check, equal

warnings.simplefilter("ignore", FutureWarning)

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of word sets, character sets and patterns; language equality on all short strings"
RULE = ("every set of words over small alphabets up to the bounds is turned into a pattern and compared on every string that is a "
        "word, a prefix or extension of one, or any short string; an outcome is a distinct produced pattern")
ASSUMPTIONS = ["an empty collection of words or characters is not asked for", "Python's re module is right"]

SPECIAL = ".*[]\\^-|(){}+?$# \n&~/\"'é\u2028"


def bounds(tier):
    return ("all 2^15 sets of words of <= 3 letters over {{a,b}} incl. the empty word; all sets of <= {} of the 39 words of <= 3 letters over {{a,b,c}} and of the 30 words of <= 4 letters over {{a,b}}; all sets "
        "of <= {} words of <= 2 over 21 special characters; all sets of (a|ab|aab)^n; all subsets of every window of {} consecutive characters; all patterns of <= {} of 40 pieces").format(
        *((4, 2, 7, 3) if tier == "quick" else (5, 3, 9, 4)))


def strings(al, n):
    return ["".join(t) for k in range(n + 1) for t in itertools.product(al, repeat=k)]


AB4 = strings("ab", 4)
ABC3 = strings("abc", 4)


def compiled(pat):
    try:
        return re.compile(pat)
    except re.error as e:
        raise Violation("pattern {!r} is invalid: {}".format(pat, e))


def words_ok(words, tests, rec=None):
    ws = set(words)
    arg = (list, tuple, iter, set)[len(words) % 4](words)
    pat = regex.words2regexp(arg)
    check(isinstance(pat, str), "no string returned")
    r = compiled(pat)
    full, match = r.fullmatch, r.match
    for t in tests:
        if (full(t) is not None) != (t in ws):
            raise Violation("pattern {!r} for {!r} {} {!r}".format(pat, sorted(ws), "does not match" if t in ws else "matches", t))
        m = match(t)
        best = None
        for i in range(len(t), -1, -1):
            if t[:i] in ws:
                best = t[:i]
                break
        got = m.group() if m else None
        if got != best:
            raise Violation("pattern {!r} for {!r} finds {!r} at the start of {!r}, expected {!r}".format(pat, sorted(ws), got, t, best))
    # in alternation and repetition with other parts the pattern must stay together
    r2 = compiled("<(?:" + pat + ")>")
    for w in list(ws)[:3]:
        if not r2.fullmatch("<" + w + ">"):
            raise Violation("pattern {!r} between other text does not match {!r}".format(pat, w))
    if rec is not None:
        rec.outcome(pat)
    return pat


def words_helper(words, tests):
    """rule.words with a prefix and suffix."""
    ws = set(words)
    r0 = compiled(rule.words(words))
    for pre, suf in ((r"\b", r"\b"), ("x", ""), ("", "y"), ("x|", "|y")):
        r = compiled("(?:" + rule.words(words, pre, suf) + ")")
        for t in tests:
            if (r0.fullmatch(t) is not None) != (t in ws):
                raise Violation("words({!r}) is wrong for {!r}".format(words, t))
            if pre == r"\b":
                want = t in ws and t != "" and t.isalnum()
                if t and not t.isalnum():
                    continue
            elif pre == "x|":
                want = t in ws
            else:
                want = t in ws
                t = pre + t + suf
            if pre == "x|":
                # x, or the words, or y
                if (r.fullmatch(t) is not None) != (t in ws or t in "xy" and len(t) == 1):
                    raise Violation("words({!r}, {!r}, {!r}) is wrong for {!r}".format(words, pre, suf, t))
                continue
            if (r.fullmatch(t) is not None) != want:
                raise Violation("words({!r}, {!r}, {!r}) is wrong for {!r}".format(words, pre, suf, t))


def chars_ok(chars, tests, rec=None):
    cs = set(chars)
    cls = regex.make_charclass(chars)
    pos, neg = compiled(rule.chars(chars)), compiled(rule.chars(iter(sorted(cs, reverse=True)), False))
    c1 = compiled("[" + cls + "]")
    c2 = compiled("[^" + cls + "]")
    c3 = compiled("[_" + cls + "\u0101]")
    text = "".join(tests)
    want = "".join(c for c in text if c in cs)
    other = "".join(c for c in text if c not in cs)
    for r, w in ((pos, want), (neg, other), (c1, want), (c2, other), (c3, "".join(c for c in text if c in cs or c in "_\u0101"))):
        got = "".join(r.findall(text))
        if got != w:
            raise Violation("class {!r} for {!r}: {!r} matches {!r}, expected {!r}".format(cls, sorted(cs), r.pattern, got, w))
    if rec is not None:
        rec.outcome(cls)


PIECES = ["a", "b", " ", "-", "#", "\n", "é", r"\n", r"\t", r"\x41", r"\u0041", r"\U00000041", r"\N{SPACE}", r"\.", r"\\", r"\*", r"\[", r"\}", r"\-", r"\ ",
          r"\b", r"\d", r"\s", r"\A", r"\Z", r"\1", r"\0", r"\12", r"\101", r"\/", r"\_", ".", "*", "?", "(", ")", "[", "]", "{", "}", "|", "^", "$", "+", "1", "{2}", "A", r"\r"]
CHARS = ["a", "b", "A", " ", "-", ".", "\\", "*", "[", "}", "\n", "\t", "é", "1", "\x00", "_", "/", "#", "{", "2", "", "n", "0", "\r", "]", "|", "d", "\x01", "\x0a"]


def string_ok(expr, rec=None):
    try:
        r = re.compile(expr)
    except re.error:
        return
    s = regex.to_string(expr)
    if rec is not None:
        rec.outcome((expr, s))
    if s is None:
        return
    tests = {s, s + "a", "a" + s, s + s, s[:-1], s[1:], "", expr, "a", "b"}
    for i in range(len(s)):
        for c in CHARS:
            tests.add(s[:i] + c + s[i + 1:])
            tests.add(s[:i] + c + s[i:])
        tests.add(s[:i] + s[i].swapcase() + s[i + 1:])
    for t in tests:
        if (r.fullmatch(t) is not None) != (t == s):
            raise Violation("to_string({!r}) is {!r}, but {!r} {}".format(expr, s, t, "does not match" if t == s else "matches as well"))
        # occurrences found by str.find are those of the pattern
        if s:
            i = t.find(s)
            m = r.search(t)
            if (m.start() if m else -1) != i:
                raise Violation("to_string({!r}) is {!r}: found at {} instead of {} in {!r}".format(expr, s, i, m and m.start(), t))


def plain_ok(text):
    """An escaped text, and a plain one without special characters, is recognised."""
    s = regex.to_string(re.escape(text))
    if s is not None:
        equal(s, text, "to_string(re.escape())")
    if text and all(c.isalnum() for c in text):
        equal(regex.to_string(text), text, "to_string of plain text")


def suffix_ok(words):
    w, s = regex.common_suffix(words)
    equal([x + s for x in w], list(words), "common_suffix")
    if len(words) and w and all(w):
        check(len({x[-1] for x in w}) > 1, "longer common suffix possible", words, s)


FUNCS = dict(words=words_ok, helper=words_helper, chars=chars_ok, string=string_ok, plain=plain_ok, suffix=suffix_ok)


def shards(tier):
    q = tier == "quick"
    out = [dict(k="ab", part=i, parts=16) for i in range(16)]
    out += [dict(k="abc", n=4 if q else 5, part=i, parts=24 if q else 64) for i in range(24 if q else 64)]
    out += [dict(k="special", n=2 if q else 3, part=i, parts=8 if q else 32) for i in range(8 if q else 32)]
    out += [dict(k="ab4", n=4 if q else 5, part=i, parts=8) for i in range(8)]
    out += [dict(k="rep"), dict(k="long")]
    out += [dict(k="chars", n=7 if q else 9, part=i, parts=8 if q else 16) for i in range(8 if q else 16)]
    out += [dict(k="string", n=3 if q else 4, first=i) for i in range(len(PIECES))]
    return out


def near(ws, al):
    """Strings close to the words."""
    t = set(ws) | {"", "zz"}
    for w in ws:
        for i in range(len(w) + 1):
            t.add(w[:i])
            t.add(w[i:])
            for c in al:
                t.add(w[:i] + c + w[i:])
                t.add(w[:i] + c + w[i + 1:])
        for v in ws:
            t.add(w + v)
    return t


def run_shard(s, rec):
    k = s["k"]

    def case(f, *args):
        rec.transitions += 1
        rec.state((f, repr(args[0])))
        rec.run(dict(f=f, args=[list(a) if isinstance(a, (set, tuple)) else a for a in args]), FUNCS[f], *args, *((rec,) if f in ("words", "chars", "string") else ()))

    if k == "ab":
        base = strings("ab", 3)
        for mask in range(1, 1 << 15):
            if mask % s["parts"] == s["part"]:
                ws = [w for i, w in enumerate(base) if mask >> i & 1]
                if mask % 2:
                    ws.reverse()
                case("words", ws, AB4)
                if mask < 4096:
                    case("helper", ws, AB4[:15])
                    case("suffix", ws)
    elif k in ("abc", "ab4"):
        base = strings("abc", 3)[1:] if k == "abc" else strings("ab", 4)[1:]
        i = 0
        for n in range(1, s["n"] + 1):
            for ws in itertools.combinations(base, n):
                i += 1
                if i % s["parts"] == s["part"]:
                    ws = list(ws)
                    if i % 3 == 1:
                        ws = ws[::-1]
                    case("words", ws, near(ws, "abc"))
    elif k == "special":
        base = [c for c in SPECIAL] + [c + d for c in SPECIAL for d in "a-" + SPECIAL[:6]]
        i = 0
        for n in range(1, s["n"] + 1):
            for ws in itertools.combinations(base, n):
                if n == 3 and not (ws[0][0] == ws[1][0] or ws[1][-1] == ws[2][-1] or len("".join(ws)) == 3):
                    continue
                i += 1
                if i % s["parts"] == s["part"]:
                    case("words", list(ws), near(ws, "a-.\\^]"))
                    if n == 1:
                        case("plain", ws[0])
    elif k == "rep":
        for unit in ("a", "ab", "aab"):
            for mask in range(1, 1 << 8):
                ws = [unit * (i + 1) for i in range(8) if mask >> i & 1]
                case("words", ws, [unit * i + t for i in range(10) for t in ("", unit[:1], "b")])
                case("words", [w + "c" for w in ws] + ws[:1], [unit * i + t for i in range(10) for t in ("", "c", "b", "cc")])
                case("words", ["c" + w for w in ws], ["c" + unit * i + t for i in range(10) for t in ("", "c")])
        # all sets over {a,b}^2 with a common frame
        two = strings("ad", 3)[1:]
        for mask in range(1, 1 << 14):
            if bin(mask).count("1") <= 5 or mask % 64 == 63:
                ws = ["c" + w + "r" for i, w in enumerate(two) if mask >> i & 1]
                case("words", ws, ["c" + t + "r" for t in strings("ad", 4)] + ["cr", "c"])
    elif k == "long":
        # every word list that the bundled languages use
        import importlib
        import pkgutil
        import parce.lang
        for m in sorted(pkgutil.iter_modules(parce.lang.__path__), key=lambda m: m.name):
            mod = importlib.import_module("parce.lang." + m.name)
            for name, v in sorted(vars(mod).items()):
                if isinstance(v, (list, tuple, set, frozenset)) and len(v) > 1 and all(isinstance(x, str) and x for x in v):
                    ws = sorted(set(v))
                    tests = set(ws) | {w[:-1] for w in ws} | {w + "x" for w in ws} | {w[1:] for w in ws} | {a[:len(a) // 2] + b[len(b) // 2:] for a, b in zip(ws, ws[1:])} | {a + b for a, b in zip(ws, ws[1:])}
                    rec.transitions += 1
                    rec.note("bundled word lists")
                    rec.run(dict(f="words", args=[ws, sorted(tests)]), words_ok, ws, sorted(tests), rec)
    elif k == "chars":
        tests = [chr(c) for c in range(0x180)] + ["\u2028", "\uffff", "\U0001f600"]
        i = 0
        for start in list(range(0, 0x7f)) + [0xe0]:
            n = s["n"] if 32 <= start < 0x7f else 4
            for mask in range(1, 1 << n, 2):
                i += 1
                if i % s["parts"] == s["part"]:
                    case("chars", "".join(chr(start + j) for j in range(n) if mask >> j & 1), tests)
        for a, b, c in itertools.combinations(SPECIAL + "az09", 3):
            i += 1
            if i % s["parts"] == s["part"]:
                case("chars", b + a + c, tests)
    elif k == "string":
        for n in range(s["n"]):
            for t in itertools.product(PIECES, repeat=n):
                case("string", PIECES[s["first"]] + "".join(t))
        rec.sample(dict(expr=PIECES[s["first"]] + "a"))


def replay(case, rec):
    rec.run(case, FUNCS[case["f"]], *case["args"])
