"""C27: the Scheme language reads every datum as Scheme does: numbers with their value and exactness, strings, comments, characters and nesting."""
import cmath
import itertools
import math
import re
from fractions import Fraction

import parce
import parce.action as A

from mc.core import Violation, check, equal

LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration of number texts and datum texts, parsed by the real language and number reader, against a number reader and a datum scanner written from the R5RS grammar"
RULE = "every text of characters (or fragments) up to the bound; an outcome is a distinct number value or classification"
ASSUMPTIONS = ["exact infinities and infinite or undefined parts with an exactness prefix are not compared",
    "more than one exactness prefix is not asked",
    "identifiers, numbers, booleans and characters are followed by a delimiter, as R5RS demands; a character is not a newline",
    "block comments are Guile's #! ... !# (R5RS has none)"]


# -- numbers -------------------------------------------------------------------

DIGITS = {2: "01", 8: "0-7", 10: "0-9", 16: "0-9a-f"}


class NotComparable(Exception):
    pass


def real_patterns(radix):
    d = "[" + DIGITS[radix] + "]"
    uint = d + "+#*"
    suffix = r"(?:[esfdl][-+]?\d+)"
    pats = [uint + "/" + uint]
    if radix == 10:
        pats += [r"\d+#*" + suffix + "?", r"\.\d+#*" + suffix + "?", r"\d+\.\d*#*" + suffix + "?", r"\d+#+\.#*" + suffix + "?"]
    else:
        pats.append(uint)
    return "(?:" + "|".join(pats) + ")"


NUMBER = {}
for _r in DIGITS:
    _u = real_patterns(_r)
    _n = r"[-+](?:inf|nan)\.0"
    _real = "(?:[-+]?" + _u + "|" + _n + ")"
    NUMBER[_r] = [re.compile(p + r"\Z", re.I) for p in (
        "(?P<re>" + _real + ")",
        "(?P<re>" + _real + ")@(?P<angle>" + _real + ")",
        "(?P<re>" + _real + ")?(?P<im>[-+]" + _u + "|[-+]|" + _n + ")i")]


def real_value(s, radix, exact):
    """(value) of a real; float if inexact."""
    s = s.lower()
    sign = 1
    if s[0] in "+-":
        if s[1:] in ("inf.0", "nan.0"):
            if exact is not None:
                raise NotComparable
            return float(s[0] + s[1:4])
        sign = -1 if s[0] == "-" else 1
        s = s[1:]
    inexact = "#" in s
    s = s.replace("#", "0")
    if "/" in s:
        a, b = s.split("/")
        a, b = int(a, radix), int(b, radix)
        if exact is False or inexact and not exact:
            if b == 0:
                raise ZeroDivisionError
            return sign * (a / b)
        return sign * Fraction(a, b)
    if radix != 10:
        v = Fraction(int(s, radix))
    else:
        m = re.match(r"(\d*)(\.?)(\d*)(?:[esfdl]([-+]?\d+))?\Z", s)
        if m[4] and abs(int(m[4])) > 400:
            raise NotComparable
        inexact = inexact or bool(m[2]) or m[4] is not None
        v = Fraction(int(m[1] + m[3]), 10 ** len(m[3])) * Fraction(10) ** int(m[4] or 0)
    if exact is False or inexact and not exact:
        return sign * float(v)
    return sign * v


def number(text):
    """The value, or ValueError."""
    m = re.match(r"(#[eidxbo])?(#[eidxbo])?(?!#)", text, re.I)
    if not m:
        raise ValueError
    radix, exact = 10, None
    seen = set()
    for p in filter(None, m.groups()):
        p = p[1].lower()
        if p in "ei":
            kind = "exactness"
            exact = p == "e"
        else:
            kind = "radix"
            radix = {"b": 2, "o": 8, "d": 10, "x": 16}[p]
        if kind in seen:
            raise ValueError
        seen.add(kind)
    body = text[m.end():]
    for i, pat in enumerate(NUMBER[radix]):
        m = pat.match(body)
        if m:
            break
    else:
        raise ValueError
    if i == 0:
        return real_value(m["re"], radix, exact)
    if i == 1:
        return cmath.rect(real_value(m["re"], radix, exact), real_value(m["angle"], radix, exact))
    re_ = real_value(m["re"], radix, exact) if m["re"] else 0
    im = 1 if m["im"] == "+" else -1 if m["im"] == "-" else real_value(m["im"], radix, exact)
    return complex(re_, im)


def same(a, b):
    if isinstance(a, complex) or isinstance(b, complex):
        return isinstance(a, complex) and isinstance(b, complex) and same_float(a.real, b.real) and same_float(a.imag, b.imag)
    if isinstance(a, float) is not isinstance(b, float):
        return False
    return same_float(a, b)


def same_float(a, b):
    if isinstance(a, float) and isinstance(b, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b or abs(a - b) <= 1e-14 * abs(b)
    return a == b


def number_case(text):
    from parce.lang.scheme import Scheme, scheme_number_from_text
    if len(re.findall("#[ei]", text, re.I)) > 1:
        return None
    try:
        want = number(text)
    except NotComparable:
        return None
    except (ValueError, ZeroDivisionError) as e:
        want = type(e)
    except OverflowError:
        return None
    if isinstance(want, type):
        # what is not a number may be anything else; but when it is tokenized as a number, there is no value
        tree = parce.root(Scheme.root, text)
        if len(tree) != 1 or not tree[0].is_context or tree[0].lexicon.name != "number" or (tree[0].pos, tree[0].end) != (0, len(text)):
            return None
    try:
        got = scheme_number_from_text(text)
    except (ValueError, ZeroDivisionError) as e:
        got = type(e)
    if isinstance(want, type) or isinstance(got, type):
        if want is ZeroDivisionError:
            want = got if isinstance(got, type) else want    # either
        equal(got, want, "value of {!r}".format(text))
        return repr(want)
    check(same(got, want), "value of {!r}: got {!r}, expected {!r}".format(text, got, want))
    return repr(want)


NUMBERS = {     # alphabet, quick, thorough
    "decimal": (["1", "20", ".", "e", "+", "-", "/", "#", "i", "@"], 6, 7),
    "exact": (["#e", "#i", "#d", "#x", "1", ".5", "e1", "/", "#", "-", "f"], 5, 6),
    "radix": (["#x", "#b", "#o", "#X", "10", "7", "/", "#", "-", "i", "aF", "@"], 5, 6),
    "special": (["+inf.0", "-inf.0", "+nan.0", "1", "-", "i", "@", "#i", "e2", "/"], 5, 6),
    "markers": (["1", ".", "s", "f", "d", "l", "E", "2", "-", "+", "i", "I"], 5, 6),
    "case": (["#E", "#I", "#B", "#O", "#D", "#X", "#e", "1", "1.5", "+", "i", "0"], 5, 6),
}


# -- datums ----------------------------------------------------------------------

DELIM = " \n()\";"
IDENT = re.compile(r"[a-z!$%&*/:<=>?^_~][a-z!$%&*/:<=>?^_~0-9+.@-]*\Z|[-+]\Z|\.\.\.\Z")


def scan(text):
    """Return (classes, bracket pairs) of a Scheme text, or None when it's not valid."""
    cls = ["."] * len(text)
    pairs, stack = [], []
    i, n = 0, len(text)
    def mark(a, b, k):
        cls[a:b] = k * (b - a)
    while i < n:
        c = text[i]
        if c in " \n":
            i += 1
        elif c == ";":
            j = text.find("\n", i)
            j = n if j < 0 else j
            mark(i, j, "c")
            i = j
        elif text.startswith("#!", i):
            j = text.find("!#", i + 2)
            if j < 0:
                return None
            mark(i, j + 2, "c")
            i = j + 2
        elif c == '"':
            j = i + 1
            while j < n and text[j] != '"':
                j += 2 if text[j] == "\\" else 1
            if j >= n:
                return None
            mark(i, j + 1, "s")
            i = j + 1
        elif c == "(" or text.startswith("#(", i):
            stack.append(i)
            i += 1 if c == "(" else 2
        elif c == ")":
            if not stack:
                return None
            pairs.append((stack.pop(), i))
            i += 1
        elif c in "'`":
            mark(i, i + 1, "q")
            i += 1
        elif c == ",":
            k = 2 if text.startswith(",@", i) else 1
            mark(i, i + k, "q")
            i += k
        elif text.startswith("#\\", i):
            m = re.compile(r"#\\([a-z]+|[^\n])").match(text, i)
            if not m or m.end() < n and text[m.end()] not in DELIM:
                return None
            if len(m[1]) > 1 and m[1] not in ("space", "newline"):
                return None
            mark(i, m.end(), "h")
            i = m.end()
        else:
            j = i
            while j < n and text[j] not in DELIM:
                j += 1
            if j < n and text[j] == '"':
                return None     # allowed in Scheme, but not common
            w = text[i:j]
            if text.startswith("#(", j - 1):
                return None
            if w in ("#t", "#f", "#T", "#F"):
                k = "b"
            elif w == ".":
                if not stack or text[stack[-1]] == "#":
                    return None
                k = "d"
            elif IDENT.match(w):
                k = "w"
            else:
                try:
                    number(w)
                except (ValueError, ZeroDivisionError, NotComparable, OverflowError):
                    return None
                k = "n"
            mark(i, j, k)
            i = j
    if stack:
        return None
    return "".join(cls), sorted(pairs)


def actions():
    return [(A.Comment, "c"), (A.String, "s"), (A.Number.Boolean, "b"), (A.Number, "n"), (A.Character, "h"), (A.Name, "w"), (A.Keyword, "w"),
        (A.Delimiter.Scheme.Quote, "q"), (A.Delimiter.Dot, "d")]


def classify(tree, text):
    cls = ["."] * len(text)
    kinds = actions()
    def walk(node):
        for n in list.__iter__(node):
            if n.is_context:
                walk(n)
                continue
            k = "."
            check(A.Invalid not in n.action and "Invalid" not in n.action, "{!r} is called invalid".format(n.text))
            if n.parent.lexicon.name == "number":
                k = "n"
            else:
                for a, kk in kinds:
                    if n.action in a:
                        k = kk
                        break
            for i in range(n.pos, n.end):
                cls[i] = k
    walk(tree)
    return "".join(cls)


def closers(tree):
    """(start of the context, position of the token that ends it) for lists and vectors."""
    out = []
    def walk(node):
        for n in list.__iter__(node):
            if n.is_context:
                if n.lexicon.name in ("list", "vector"):
                    last = n[-1]
                    check(last.is_token and last.text == ")", "{} does not end with a parenthesis".format(n))
                    out.append((n[0].pos, last.pos))
                walk(n)
    walk(tree)
    return sorted(out)


def datum_case(text):
    ref = scan(text)
    if ref is None:
        return None
    from parce.lang.scheme import Scheme, scheme_number
    tree = parce.root(Scheme.root, text)
    got = classify(tree, text)
    if got != ref[0]:
        # the inside of a comment or string may have more than one token, gaps are only spaces
        raise Violation("{!r}: got {!r}, expected {!r}".format(text, got, ref[0]))
    equal(closers(tree), ref[1], "brackets of {!r}".format(text))
    # the numbers have the value of their text
    values = []
    def walk(node):
        for n in list.__iter__(node):
            if n.is_context:
                if n.lexicon.name == "number":
                    values.append(n)
                walk(n)
    walk(tree)
    spans = [(m.start(), m.end()) for m in re.finditer("n+", ref[0])]
    equal([(v.pos, v.end) for v in values], spans, "numbers of {!r}".format(text))
    for v, (a, b) in zip(values, spans):
        check(same(scheme_number(v), number(text[a:b])), "number {!r}".format(text[a:b]))
    return ref[0]


DATUMS = {
    "lists": (["(", ")", "#(", " ", "a", "1", "'", ".", "#t", "\n"], 6, 7),
    "strings": (['"', "\\", "\\\\", '\\"', "a", ";", "\n", "(", ")", "#!"], 6, 7),
    "comments": ([";", "\n", "#!", "!#", "a", "(", ")", '"', " ", "!"], 6, 7),
    "chars": (["#\\", "(", ")", "a", "space", " ", '"', ";", "#t", "#F", "\n"], 6, 7),
    "words": (["a", "-", "+", "...", "1", ".", " ", "(", ")", "?", "if", "let*"], 5, 6),
    "quotes": (["'", "`", ",", ",@", "(", ")", "a", " ", "#(", "1"], 6, 7),
    "numbers": (["#x", "1", "f", "/2", "-", "+i", " ", "(", ")", ".5", "e3"], 5, 7),
}

SETS = {"number": NUMBERS, "datum": DATUMS}


def shards(tier):
    out = []
    for kind, sets in SETS.items():
        for name, (frags, q, t) in sets.items():
            n = q if tier == "quick" else t
            out += [[kind, name, i, n] for i in range(len(frags))]
    out.sort(key=lambda s: -len(SETS[s[0]][s[1]][0]) ** s[3])
    return out


def bounds(tier):
    i = 1 if tier == "quick" else 2
    return "; ".join("{} texts: {}".format(kind, ", ".join("{} up to {} of {} fragments".format(name, s[i], len(s[0])) for name, s in sets.items())) for kind, sets in SETS.items())


def run_shard(s, rec):
    kind, name, first, n = s
    frags = SETS[kind][name][0]
    func = number_case if kind == "number" else datum_case
    for k in range(n):
        for t in itertools.product(frags, repeat=k):
            text = frags[first] + "".join(t)
            r = rec.run(dict(kind=kind, text=text), func, text)
            rec.transitions += 1
            if r is not None:
                rec.state((kind, text))
                rec.outcome((kind, r))


def replay(c, rec):
    rec.run(c, number_case if c["kind"] == "number" else datum_case, c["text"])
