"""C21: the transforms of the data languages yield the values a text denotes."""
import functools
import itertools
import json

from mc.core import Violation, check, equal

LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration of texts in the data languages, transformed by the real code, against independent readers (the standard json module, own CSV and INI readers, own number spellers)"
RULE = "every text of the bound, by fragments or by construction; an outcome is a distinct resulting value"
ASSUMPTIONS = ["JSON numbers are compared by value: 1.0 and 1 are the same number",
    "blank lines in CSV yield no record; spaces around quoted fields and stray quotes are only checked not to make the transform fail",
    "INI texts are built from unambiguous lines: no repeated sections, no bare ':' or '=' in a value",
    "French numbers are written with hyphens inside dix-sept and quatre-vingt"]


def transform(lexicon, text):
    from parce.transform import transform_text
    return transform_text(lexicon, text)


@functools.cache
def lexicon(name):
    import parce.lang.csv, parce.lang.ini, parce.lang.json, parce.lang.numbers as n
    return {"json": parce.lang.json.Json.root, "csv": parce.lang.csv.Csv.root, "ini": parce.lang.ini.Ini.root,
            "en": n.English.root, "nl": n.Nederlands.root, "de": n.Deutsch.root, "fr": getattr(n, "Français").root}[name]


def same(a, b):
    """Equal with the same types, except that a float may be an int."""
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(map(same, a.values(), b.values()))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


# --------------------------------------------------------------- JSON

JSON_FRAGMENTS = ["{", "}", "[", "]", ",", ":", '"a"', '""', "1", " ", "null"]
JSON_STRING = ["a", "\\n", '\\"', "\\\\", "\\/", "\\u0041", "\\ud83d", "\\uDE00", "é", "/", " ", "{", ",", "\\b", "\\f", "\\r", "\\t", "'", "]", "u", "\\u000a", "\\u00E9"]
JSON_SCALARS = ["0", "-1.5", '"x"', "true", "null"]


def run_json(text):
    value = transform(lexicon("json"), text)
    try:
        expected = json.loads(text)
    except ValueError:
        return "invalid"
    if not same(value, expected):
        raise Violation("the JSON text {!r} yields {!r}, not {!r}".format(text, value, expected))
    return repr(expected)


def json_values(depth, width):
    """Yield the texts of all values of a depth."""
    yield from JSON_SCALARS
    yield from ("[]", "{}", "[ ]", "{ }")
    if depth:
        inner = list(json_values(depth - 1, 1))
        for n in range(1, width + 1):
            for p in itertools.product(inner, repeat=n):
                yield "[" + ",".join(p) + "]"
                yield "[ " + " ,\n ".join(p) + "\t]"
                for keys in itertools.product(("", "a", "b\\n"), repeat=n):
                    yield "{" + ",".join('"{}":{}'.format(k, v) for k, v in zip(keys, p)) + "}"
                yield "{ " + " , ".join('"{}"\n: {}'.format("xyz"[i], v) for i, v in enumerate(p)) + " }"


# --------------------------------------------------------------- CSV

CSV_FRAGMENTS = ["a", ",", '"', "\n", " ", "\r\n"]


def read_csv(text):
    """An RFC 4180 reader; None for an empty field without quotes. Returns None if the text is not valid."""
    records = []
    fields = []
    i = 0
    while True:
        if text[i:i+1] == '"':
            value = []
            i += 1
            while True:
                if i == len(text):
                    return None
                if text[i] != '"':
                    value.append(text[i])
                    i += 1
                elif text[i+1:i+2] == '"':
                    value.append('"')
                    i += 2
                else:
                    i += 1
                    break
            fields.append("".join(value))
        else:
            j = i
            while j < len(text) and text[j] not in '\r\n,"':
                j += 1
            fields.append(text[i:j] or None)
            i = j
        if text[i:i+1] == ",":
            i += 1
            continue
        if i < len(text):
            if text[i] == "\r":
                i += 1
            if text[i:i+1] != "\n":
                return None
            i += 1
        if fields != [None]:    # blank line
            records.append(tuple(fields))
        fields = []
        if i == len(text):
            return records


CSV_FAULTS = ["x", " ", " x", "x y", "'", "\t-"]


def run_csv_faulty(records, faults):
    """What is written around a quoted field is not part of its value."""
    text = "\n".join(",".join(
        (before + '"' + f.replace('"', '""') + '"' + after) for f, (before, after) in zip(r, fs)) for r, fs in zip(records, faults))
    expected = [tuple(r) for r in records]
    value = transform(lexicon("csv"), text)
    if not same(value, expected):
        raise Violation("the CSV text {!r} yields {!r}, not {!r}".format(text, value, expected))
    return repr(expected)


def run_csv(text):
    value = transform(lexicon("csv"), text)
    expected = read_csv(text)
    if expected is None:
        return "invalid"
    if not same(value, expected):
        raise Violation("the CSV text {!r} yields {!r}, not {!r}".format(text, value, expected))
    return repr(expected)


CSV_FIELDS = [None, "", "a", "x y", ",", '"', "a\nb", 'say "x", y']


def run_csv_records(records, newline, end):
    def field(f):
        if f is None:
            return ""
        if f and not set(f) & set(',"\n'):
            return f
        return '"' + f.replace('"', '""') + '"'
    text = newline.join(",".join(map(field, r)) for r in records) + (newline if end else "")
    expected = [tuple(r) for r in records if list(r) != [None]]
    value = transform(lexicon("csv"), text)
    if not same(value, expected):
        raise Violation("the CSV text {!r} yields {!r}, not {!r}".format(text, value, expected))
    return repr(expected)


# --------------------------------------------------------------- INI

INI_FRAGMENTS = ["a", "=", " ", "\n", "[", "]", ";", "\\", ":"]
#: text, value
INI_PIECES = [("a", "a"), (" ", " "), ("\\n", "\n"), ("\\t", "\t"), ("\\\\", "\\"), ("\\;", ";"), ("\\=", "="), ("\\x0041", "A"), ("\\0", "\0"),
    ("é", "é"), ("\\:", ":"), ("\\#", "#"), ("\\a", "\a"), ("\\b", "\b"), ("\\r", "\r"), ("\\'", "'"), ('\\"', '"'), ("]", "]"), ("\\X263a", "☺"), ("\\\n", "\n")]
INI_LINES = ["", "  ", "; c", "#x=y", "[s]", "[ t u ]", "k=v", " k = v w ", "l=", "l =1;c", "m\\==\\x0042 # d", "[x=y;z]", "n=a\\\n b"]


def parse_line(line):
    """What a line of INI_LINES means: None, (section,) or (key, value)."""
    return {"[s]": ("s",), "[ t u ]": ("t u",), "[x=y;z]": ("x=y;z",), "k=v": ("k", "v"), " k = v w ": ("k", "v w"), "l=": ("l", None), "l =1;c": ("l", "1"),
            "m\\==\\x0042 # d": ("m=", "B"), "n=a\\\n b": ("n", "a\n b")}.get(line)


def run_ini_value(pieces, before, after, key=False):
    """A key or value of pieces."""
    text = "".join(INI_PIECES[i][0] for i in pieces)
    # whitespace at both ends is stripped, but not when escaped
    chars = [(INI_PIECES[i][1], INI_PIECES[i][0].startswith("\\")) for i in pieces]
    while chars and chars[0] == (" ", False):
        chars.pop(0)
    while chars and chars[-1] == (" ", False):
        chars.pop()
    value = "".join(c for c, _ in chars)
    if not value:
        return "empty"
    if key:
        text, expected = "[s]\n" + before + text + after + "=x\ny=z", {"s": {value: "x"}}
    else:
        text, expected = "[s]\nk=" + before + text + after + "\ny=z", {"s": {"k": value}}
    expected["s"]["y"] = "z"
    got = transform(lexicon("ini"), text)
    if not same(got, expected):
        raise Violation("the INI text {!r} yields {!r}, not {!r}".format(text, got, expected))
    return repr(expected)


def run_ini_lines(lines, end):
    text = "\n".join(lines) + ("\n" if end else "")
    result = {}
    current = top = {}
    for line in lines:
        m = parse_line(line)
        if m is None:
            continue
        if len(m) == 1:
            if m[0] in result:
                return "skipped"
            result[m[0]] = current = {}
        else:
            if m[0] in current:
                del current[m[0]]    # order is not claimed for repeated keys
                current[m[0]] = m[1]
            current[m[0]] = m[1]
    expected = {None: top} if top else {}
    expected.update(result)
    got = transform(lexicon("ini"), text)
    if got != expected or list(got) != list(expected):
        raise Violation("the INI text {!r} yields {!r}, not {!r}".format(text, got, expected))
    return repr(expected)


def run_ini_text(text):
    """Any text is transformed to a dictionary of dictionaries."""
    got = transform(lexicon("ini"), text)
    check(type(got) is dict and all(type(v) is dict for v in got.values()), "the INI text {!r} yields {!r}", text, got)
    return repr(got)


# --------------------------------------------------------------- numbers

UNITS = {
    "en": "zero one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen nineteen".split(),
    "nl": "nul een twee drie vier vijf zes zeven acht negen tien elf twaalf dertien veertien vijftien zestien zeventien achttien negentien".split(),
    "de": "null ein zwei drei vier fünf sechs sieben acht neun zehn elf zwölf dreizehn vierzehn fünfzehn sechzehn siebzehn achtzehn neunzehn".split(),
    "fr": "zéro un deux trois quatre cinq six sept huit neuf dix onze douze treize quatorze quinze seize dix-sept dix-huit dix-neuf".split(),
}
TENS = {
    "en": "- - twenty thirty forty fifty sixty seventy eighty ninety".split(),
    "nl": "- - twintig dertig veertig vijftig zestig zeventig tachtig negentig".split(),
    "de": "- - zwanzig dreißig vierzig fünfzig sechzig siebzig achtzig neunzig".split(),
    "fr": "- - vingt trente quarante cinquante soixante - quatre-vingt -".split(),
}
POWERS = {
    "en": ("hundred", "thousand", "million"),
    "nl": ("honderd", "duizend", "miljoen"),
    "de": ("hundert", "tausend", "million"),
    "fr": ("cent", "mille", "million"),
}
#: the languages that write a single hundred and thousand without 'one'
BARE = {"en": (), "nl": (100, 1000), "de": (), "fr": (100, 1000)}


def below100(lang, n, sep, final):
    """Spell a number below 100; final means nothing follows it."""
    units, tens = UNITS[lang], TENS[lang]
    if lang == "de" and n == 1 and final:
        return ["eins"]
    if n < 20:
        return [units[n]]
    if lang == "en":
        return [tens[n // 10]] + ([units[n % 10]] if n % 10 else [])
    if lang in ("nl", "de"):
        if not n % 10:
            return [tens[n // 10]]
        if lang == "nl":
            link = "ën" if n % 10 in (2, 3) else "en"
        else:
            link = "und"
        return [units[n % 10], link, tens[n // 10]]
    # French
    if n >= 60:
        rest = (n - 60) % 20
    else:
        rest = n % 10
    ten = tens[(n - rest) // 10]
    if not rest:
        return [ten + "s"] if n == 80 and final else [ten]
    if rest in (1, 11) and n < 80:
        return [ten, "et", units[rest]]
    return [ten, units[rest]]


def spell(lang, n, sep=" ", final=True):
    """The words of a number."""
    hundred, thousand, million = POWERS[lang]
    if n < 100:
        return below100(lang, n, sep, final)
    for factor, word in ((1000000, million), (1000, thousand), (100, hundred)):
        if n >= factor:
            break
    count, rest = divmod(n, factor)
    words = []
    if not (count == 1 and factor in BARE[lang]):
        # "quatre-vingts millions", but "quatre-vingt mille"
        words += spell(lang, count, sep, final=lang == "fr" and factor == 1000000)
    if lang == "fr" and count > 1 and (factor == 1000000 or factor == 100 and final and not rest):
        word += "s"
    words.append(word)
    if rest:
        words += spell(lang, rest, sep, final)
    return words


def variants(lang, numbers):
    """Yield all texts of the number and the list of numbers they denote."""
    for sep in (" ", "-", "") if lang != "fr" else (" ", "-"):
        texts = [sep.join(spell(lang, n, sep)) for n in numbers]
        for case in (str, str.upper, str.title):
            if lang == "de" and case is str.upper:
                texts = [t.replace("ß", "ss") for t in texts]
            yield ", ".join(map(case, texts))
    if lang == "de":
        yield ", ".join(" ".join(spell(lang, n)).replace("ß", "ss") for n in numbers)


def run_number(lang, numbers):
    for text in variants(lang, numbers):
        got = transform(lexicon(lang), text)
        if got != list(numbers):
            raise Violation("{!r} in {!r} yields {!r}, not {!r}".format(text, lang, got, list(numbers)))
    return repr(numbers)


def run_words(lang, numbers):
    """Numbers below 20 that follow each other are separate numbers."""
    for sep in (" ", "  ", "\n", "-"):
        text = sep.join(UNITS[lang][n] for n in numbers)
        got = transform(lexicon(lang), text)
        if got != list(numbers):
            raise Violation("{!r} in {!r} yields {!r}, not {!r}".format(text, lang, got, list(numbers)))
    return repr(numbers)


def special():
    """Numbers that have all shapes."""
    low = [0, 1, 2, 7, 10, 16, 17, 20, 21, 60, 71, 80, 81, 90, 99]
    thousands = sorted({h * 100 + l for h in (0, 1, 2, 8) for l in low})
    return thousands


# --------------------------------------------------------------- exploration

def go(rec, runner, **case):
    def run():
        rec.outcome(runner(**case))
    rec.state(repr(case))
    rec.run(dict(case, runner=runner.__name__), run)


NUMBERS = {"quick": 2500, "thorough": 100000}


def shards(tier):
    quick = tier == "quick"
    r = []
    r += [("json", quick, i) for i in range(len(JSON_FRAGMENTS))]
    r += [("jsonstring", quick, i) for i in range(len(JSON_STRING))]
    r += [("jsonnumber", quick, c) for c in "-012"]
    r += [("jsonvalue", quick, i, 8 if quick else 24) for i in range(8 if quick else 24)]
    r += [("csv", quick, i) for i in range(len(CSV_FRAGMENTS))]
    r += [("csvfaulty", quick, i) for i in range((len(CSV_FAULTS) + 1) ** 2)]
    r += [("csvrecords", quick, i) for i in range(len(CSV_FIELDS))]
    r += [("inivalue", quick, i) for i in range(len(INI_PIECES))]
    r += [("inilines", quick, i) for i in range(len(INI_LINES))]
    r += [("initext", quick, i) for i in range(len(INI_FRAGMENTS))]
    for lang in UNITS:
        step = 250 if quick else 4000
        r += [("number", lang, a, min(a + step, NUMBERS[tier])) for a in range(0, NUMBERS[tier], step)]
        r += [("special", lang, i, 6) for i in range(6)]
        r += [("words", lang, quick)]
    return r


def bounds(tier):
    q = tier == "quick"
    return ("JSON: all texts of up to {} of {} fragments, strings of up to {} of {} pieces, number texts of up to {} characters, values to depth {}; "
            "CSV: all texts of up to {} of {} fragments, up to {} fields of {} kinds in records; INI: all texts of up to {} of {} fragments, keys and values of up to {} of {} pieces, up to {} of {} lines; "
            "all numbers below {} and combinations up to 999 999 999 in 4 languages, 6 to 10 ways of writing").format(
        4 if q else 6, len(JSON_FRAGMENTS), 3 if q else 4, len(JSON_STRING), 5 if q else 7, 2, 6 if q else 8, len(CSV_FRAGMENTS), 4 if q else 5, len(CSV_FIELDS),
        4 if q else 6, len(INI_FRAGMENTS), 3 if q else 4, len(INI_PIECES), 3 if q else 4, len(INI_LINES), NUMBERS[tier])


def run_shard(shard, rec):
    what = shard[0]
    if what == "number":
        _, lang, a, b = shard
        for n in range(a, b):
            go(rec, run_number, lang=lang, numbers=[n])
        rec.state((lang, a))
        return
    if what == "special":
        _, lang, k, of = shard
        low = special()
        million = [0, 1, 2, 80, 200, 999]
        for t in low[k::of]:
            for n in low:
                for m in (million if t % 7 == 0 else million[:2]):
                    go(rec, run_number, lang=lang, numbers=[m * 1000000 + t * 1000 + n])
            go(rec, run_number, lang=lang, numbers=[t, 100 * t, 1, t])
        # a number of hundreds ("twelve hundred")
        rec.state((lang, k))
        return
    if what == "words":
        _, lang, quick = shard
        for n in (2, 3):
            for p in itertools.product(range(20) if n == 2 else (0, 1, 6, 7, 9, 13, 17), repeat=n):
                if lang == "fr" and any(a == 10 and 7 <= b <= 9 for a, b in zip(p, p[1:])):
                    continue
                go(rec, run_words, lang=lang, numbers=list(p))
        rec.state((lang, "words"))
        return
    quick = shard[1]
    first = shard[2]
    if what == "json":
        for n in range(4 if quick else 6):
            for p in itertools.product(JSON_FRAGMENTS, repeat=n):
                go(rec, run_json, text=JSON_FRAGMENTS[first] + "".join(p))
    elif what == "jsonstring":
        for n in range(3 if quick else 4):
            for p in itertools.product(JSON_STRING, repeat=n):
                s = '"' + JSON_STRING[first] + "".join(p) + '"'
                go(rec, run_json, text=s)
                if n < 2:
                    go(rec, run_json, text="{" + s + ":[" + s + "," + s + "]}")
    elif what == "jsonnumber":
        for n in range(5 if quick else 7):
            for p in itertools.product("-09.eE+", repeat=n):
                t = first + "".join(p)
                go(rec, run_json, text=t)
                if n < 4:
                    go(rec, run_json, text="[{},{}]".format(t, t))
                    go(rec, run_json, text='{{"a":{},"b":{}}}'.format(t, t))
        for t in ("12345678901234567890", "9007199254740993", "1" + "0" * 30, "1e22", "123456789.5e5", "1e999", "1e-999", "4.9e-324", "0.1"):
            go(rec, run_json, text=t)
            go(rec, run_json, text="[-" + t + "]")
    elif what == "jsonvalue":
        for t in itertools.islice(json_values(2, 2), first, None, shard[3]):
            go(rec, run_json, text=t)
    elif what == "csv":
        for n in range(6 if quick else 8):
            for p in itertools.product(CSV_FRAGMENTS, repeat=n):
                go(rec, run_csv, text=CSV_FRAGMENTS[first] + "".join(p))
    elif what == "csvrecords":
        for n in range(1, 5 if quick else 6):
            for p in itertools.product(CSV_FIELDS, repeat=n - 1):
                fields = (CSV_FIELDS[first],) + p
                # all ways to split in records
                for cuts in itertools.product((False, True), repeat=n - 1):
                    records = [[fields[0]]]
                    for cut, f in zip(cuts, p):
                        if cut:
                            records.append([f])
                        else:
                            records[-1].append(f)
                    go(rec, run_csv_records, records=records, newline="\r\n" if sum(cuts) % 2 else "\n", end=n % 2 == 0)
    elif what == "csvfaulty":
        around = [(b, a) for b in ["", *CSV_FAULTS] for a in ["", *CSV_FAULTS]]
        values = [f for f in CSV_FIELDS if f is not None]
        for f in values:
            go(rec, run_csv_faulty, records=[[f]], faults=[[around[first]]])
            for g in values:
                for x in around:
                    go(rec, run_csv_faulty, records=[[f, g]], faults=[[around[first], x]])
                    go(rec, run_csv_faulty, records=[[f], [g]], faults=[[around[first]], [x]])
    elif what == "inivalue":
        for n in range(3 if quick else 4):
            for p in itertools.product(range(len(INI_PIECES)), repeat=n):
                for key in (False, True):
                    go(rec, run_ini_value, pieces=[first, *p], before="", after="", key=key)
                    if n < 2:
                        go(rec, run_ini_value, pieces=[first, *p], before=" \t", after="\t ", key=key)
                        if not key:
                            go(rec, run_ini_value, pieces=[first, *p], before=" ", after=" ; comment\\n=x", key=key)
    elif what == "inilines":
        for n in range(3 if quick else 4):
            for p in itertools.product(INI_LINES, repeat=n):
                go(rec, run_ini_lines, lines=[INI_LINES[first], *p], end=n % 2 == 0)
    elif what == "initext":
        for n in range(4 if quick else 6):
            for p in itertools.product(INI_FRAGMENTS, repeat=n):
                go(rec, run_ini_text, text=INI_FRAGMENTS[first] + "".join(p))
    rec.state(shard)


def replay(case, rec):
    case = dict(case)
    runner = globals()[case.pop("runner")]
    rec.run(case, lambda: runner(**case))
