"""C02: lexing is sound, total and terminates."""
import itertools
import os

import parce
from parce import Language, lexicon, default_action, default_target, skip
from parce.rule import bygroup
from parce.treebuilder import TreeBuilder, build_tree
import parce.action as a

from mc.core import Violation, REPO
from mc.treeutil import canon, scratch, check_tree, pretty

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of fragment sequences per language, real lexer and builders, tree invariants"
RULE = ("every sequence of language specific text fragments up to the bound for every bundled root lexicon (and every "
        "other lexicon of the language as root with a smaller bound), every prefix and suffix of the example files, toy "
        "languages with circular targets; an outcome is a distinct tree shape")
ASSUMPTIONS = ["non-termination is reported after 30 s of CPU time for one text of a few characters"]

GENERIC = ["a", "1", " ", "\n", "(", ")", "{", "}", "[", "]", "<", ">", "/", "\\", '"', "'", "#", "%", "&", ";", ":",
           ",", ".", "=", "-", "*", "!", "?", "$", "@", "|", "`", "_", "~", "^", "+", "\t", "é", "\r", "\0", "\u2028"]

SPECIFIC = {
    "Bash": ["if ", "fi", "case x in", "esac", "<<EOF", "EOF\n", "${", "$((", "))", "$(", "[[ ", "]] ", "let ", "<<<", "f() ", "do ", "done", "{ ", "x=", "&&", "echo "],
    "C": ["#include ", "/*", "*/", "//", "#if ", "#define ", "int ", "0x1F", "1.5e3", "struct ", "L'", "\\n", "for("],
    "CSS": ["/*", "*/", "@media ", "@import ", "url(", "!important", "#fff", "::before", "rgb(", "10px", "a:hover", "@", "[a=b]", "--x:", "\\61 "],
    "CSV": ['""', '","', "a,b"],
    "DocBook": ["<!--", "-->", "<para>", "</para>", "<![CDATA[", "]]>", "&amp;", "<?xml ", "?>", "<!DOCTYPE ", "<!ENTITY "],
    "DTD": ["<!ELEMENT ", "<!ATTLIST ", "<!ENTITY ", "<!--", "-->", "#PCDATA", "%a;", "CDATA", "<![INCLUDE[", "]]>", "<?", "?>"],
    "INI": ["[s]", "a=b", "\n[", "\\\n", "; "],
    "JavaScript": ["/*", "*/", "//", "`", "${", "function ", "=>", "/a/g", "var ", "0x1", "1e5", "\\u00e9", "return /", "x.y"],
    "JSON": ["true", "null", "1.5e3", '"a"', "\\u00e9", '":', "-1", "\\n", "}}"],
    "HTML": ["<!--", "-->", "<p>", "</p>", "<br/>", "<script>", "</script>", "<style>", "</style>", "&amp;", "style=\"", "<!DOCTYPE html>", "<input", "onclick='"],
    "XHTML": ["<!--", "-->", "<p>", "</p>", "<br/>", "<script>", "</script>", "<style>", "</style>", "&amp;", "style=\"", "<![CDATA[", "]]>"],
    "LaTeX": ["\\begin{a}", "\\end{a}", "\\begin{verbatim}", "\\end{verbatim}", "\\verb|", "$$", "\\[", "\\]", "\\(", "\\)", "\\cmd", "\\item[", "\\\\"],
    "LilyPond": ["%{", "%}", "\\relative ", "\\lyricmode ", "#(", "#{", "#}", "<<", ">>", "c4", "\\markup ", "\\chordmode ", "--", "\\set ", "A.b", "\\figuremode ", "\\drummode ", "\\paper ", "4.", "\\new ", "\\lyricsto \"x\" "],
    "Deutsch": ["eins", "und", "zwanzig", "hundert", "tausend", "million", "ein", "zehn", "null"],
    "English": ["one", "and ", "twenty", "hundred", "thousand", "million", "teen", "ten", "zero", "-", "a "],
    "Français": ["un", "et ", "vingt", "cent", "mille", "million", "quatre", "dix", "zéro", "-", "s"],
    "Nederlands": ["een", "en", "twintig", "honderd", "duizend", "miljoen", "tien", "nul", "ën"],
    "Python": ['"""', "'''", "def ", "class ", "f'", "rb'", "{x", "}}", "0x1F", "1_0", "@x", "lambda ", "for ", " in ", "    ", "\\N{", "import ", "\n  ", "\n\n"],
    "Python Console": [">>> ", "... ", "\n>>> ", "\n... ", "Traceback (most recent call last):\n", '"""', "f'", "{x"],
    "Tcl": ["${", "proc ", "\\\n", "{*}", "expr ", "[set ", "0x1", "::a"],
    "Texinfo": ["@c ", "@{", "@code{", "@ignore\n", "@end ignore\n", "@verb{|", "|}", "@tex\n", "@end tex\n", "@html\n", "@lilypond{", "@end ", "@bye", "@verbatim\n", "@end verbatim\n"],
    "Troff": [".B ", "\n.TH ", "\\fB", "\\(em", '.\\"', "\n.ig\n", "\n..\n", "\\*[", "\\s+1", "\n.de x\n"],
    "Scheme": ["#|", "|#", "#t", "#\\a", "`(", ",@", "#(", "1/2", "#x1F", "+inf.0", "#!", "!#", "define ", "lambda ", "#;", "->", "'()"],
    "TOML": ['"""', "'''", "[[", "]]", "1979-05-27T07:32:00Z", "true", "a.b", "0xff", "1e6", "\n[", "inf", "\\u00e9"],
    "XML": ["<!--", "-->", "<a>", "</a>", "<![CDATA[", "]]>", "&amp;", "&#65;", "<?xml ", "?>", "<!DOCTYPE ", "<!ENTITY ", "b=\"", "a:b", "<!ATTLIST ", "SYSTEM "],
    "XSLT": ["<xsl:if test=\"", "</xsl:if>", "<!--", "-->", "{", "select='", "<![CDATA[", "]]>", "&amp;", "a/b[@c]", "position()"],
}

SMALL = {
    "Bash": ["$(", ")", "`", '"', "<<E\n", "E\n", "{", "}", " ", "a", "\n", "'"],
    "C": ["/*", "*/", '"', "\\", "\n", "#", "(", ")", "a"],
    "CSS": ["{", "}", ":", ";", "a", "(", ")", '"', "@media", "/*", "*/", ","],
    "LilyPond": ["{", "}", "<", ">", "#(", ")", "\\lyricmode ", "\\markup ", '"', "c", "%{", "%}"],
    "Python": ['"""', "f'", "{", "}", "'", "(", ")", "\n", "a", "    ", "\\"],
    "HTML": ["<", ">", "</", "script", "style", "a", "=", '"', " ", "/", "<!--"],
    "XML": ["<", ">", "</", "a", "=", '"', " ", "/", "<!", "[", "]", "?"],
    "TOML": ["[", "]", "=", "{", "}", '"', "'''", "\n", "a", ".", ",", "1"],
    "Scheme": ["(", ")", "#|", "|#", '"', "'", ";", "\n", "a", "#\\"],
    "LaTeX": ["\\begin{a}", "\\end{a}", "$", "{", "}", "\\", "[", "]", "%", "\n", "\\("],
    "Texinfo": ["@", "{", "}", "verb", "|", "ignore\n", "end ", "code", "\n", "lilypond"],
}


class Circular(Language):
    """Default targets that come back to where they were."""
    @lexicon
    def root(cls):
        yield r'a', a.Name
        yield default_target, cls.one

    @lexicon
    def one(cls):
        yield r'b', a.Number
        yield default_target, cls.two

    @lexicon
    def two(cls):
        yield r'c', a.Text
        yield r'd', a.Text, -2
        yield default_target, -2


class Circular2(Language):
    """Zero width matches and self recursion."""
    @lexicon
    def root(cls):
        yield r'(?=a)', None, cls.one
        yield r'b?', a.Name, cls.two
        yield r'\(', a.Delimiter, 1

    @lexicon
    def one(cls):
        yield r'(?=a)', None, -1
        yield r'b', a.Text, -1

    @lexicon
    def two(cls):
        yield r'\)', a.Delimiter, -1
        yield r'a', a.Name
        yield r'', None, -5


class Circular3(Language):
    @lexicon
    def root(cls):
        yield default_target, cls.one, cls.two

    @lexicon
    def one(cls):
        yield r'x', a.Name, -1
        yield default_target, -1

    @lexicon(consume=True)
    def two(cls):
        yield r'(y)(z)?', bygroup(a.Name, a.Text), -1, cls.two
        yield default_target, -1


class Pops(Language):
    """Pops that would leave the root."""
    @lexicon
    def root(cls):
        yield r'a', a.Name, -1
        yield r'b', a.Name, -1, cls.two
        yield r'c', a.Name, -3, cls.root, cls.two

    @lexicon
    def two(cls):
        yield r'a', a.Text, -2
        yield r'b', a.Text, -9
        yield r'c', a.Text, -1, 2
        yield r'd', a.Text, cls.con

    @lexicon(consume=True)
    def con(cls):
        yield r'a', a.Number, -7, cls.con
        yield r'b', skip, -7, cls.two
        yield default_action, a.String


#: fragments repeated many times (alone, or two by turns): a pattern that tries exponentially many ways does not end
PUMP = ["a", "1", " ", ".", "-", "_", "\\", '"', "(", "/", "\n", "<"]
PUMP_END = ["", "!", "\n", "\r"]
#: what starts a pattern that can go on for long
PUMP_START = ["http:/", "www.", "a@", "\\", "0x", "1e", "&", "#", '"', "<", "(?"]


TOYS = {"circular": (Circular, "abcd "), "circular2": (Circular2, "ab() "), "circular3": (Circular3, "xyz "), "pops": (Pops, "abcde")}


def bounds(tier):
    return ("26 bundled root lexicons: all sequences of <= {} of 40-62 fragments, <= {} of 9-12 core fragments (11 languages), "
        "all lexicons as root with <= {} fragments, two of {} characters by turns {} times before 4 endings in every lexicon, one of them repeated after any fragment, two fragments by turns 10 times, all prefixes and suffixes of the example files; 4 toy languages: all texts <= {} characters").format(
        *((2, 4, 1, 12, 20, 6) if tier == "quick" else (3, 5, 2, 41, 30, 8)))


def entries():
    from parce.registry import registry
    return [(qn, e.name) for qn, e in registry.items() if qn.startswith("parce.lang.")]


def lex(qn):
    if qn.startswith("toy:"):
        l, name = qn[4:].split(".")
        return getattr(TOYS[l][0], name)
    from parce.registry import registry
    return registry.lexicon(qn)


def one(lexicon, text, rec=None):
    want, open_ = scratch(lexicon, text)
    tree = build_tree(lexicon, text)
    check_tree(tree, text)
    c = canon(tree)
    if c != want:
        raise Violation("parce.root and the events differ for {!r}: {}".format(text, pretty(tree)))
    b = TreeBuilder(lexicon)
    t2 = b.tree(text)
    if t2 is not b.root or canon(t2) != want:
        raise Violation("TreeBuilder and the events differ for {!r}: {}".format(text, pretty(t2)))
    if tuple(id(l) for l in b.lexicons) != open_:
        raise Violation("open lexicons differ for {!r}".format(text))
    if rec is not None:
        rec.outcome(want)


def from_pos(lexicon, text, pos):
    """Starting at a position gives only tokens from there on."""
    tree = build_tree(lexicon, text, pos)
    check_tree(tree, text)
    f = tree.first_token()
    if f and f.pos < pos:
        raise Violation("token before the start position")


def shards(tier):
    out = []
    for qn, name in entries():
        if tier == "quick":
            out.append(dict(kind="frag", qn=qn, name=name, n=2, first=None, tier=tier))
        else:
            n = len(GENERIC) + len(SPECIFIC.get(name, ()))
            for i in range(0, n, 8):
                out.append(dict(kind="frag", qn=qn, name=name, n=3, first=[i, i + 8], tier=tier))
        if name in SMALL:
            for i in range(0, len(SMALL[name]), 3):
                out.append(dict(kind="small", qn=qn, name=name, n=4 if tier == "quick" else 5, first=[i, i + 3], tier=tier))
        out.insert(0, dict(kind="pump", qn=qn, name=name, n=40 if tier == "quick" else 60, tier=tier))
        out.append(dict(kind="lexicons", qn=qn, name=name, n=1 if tier == "quick" else 2, tier=tier))
    for t in TOYS:
        out.append(dict(kind="toy", name=t, n=6 if tier == "quick" else 8, tier=tier))
    d = os.path.join(REPO, "tests", "lang")
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.startswith("example."):
            out.insert(0, dict(kind="examples", file=f, tier=tier))
    return out


def all_lexicons(language):
    from parce.lexicon import LexiconDescriptor
    seen = []
    for c in language.mro():
        for k, v in vars(c).items():
            if isinstance(v, LexiconDescriptor) and k not in seen:
                seen.append(k)
    return sorted(seen)


def run_shard(s, rec):
    def case(qn, lexicon, text, lname=None):
        rec.transitions += 1
        rec.state((qn, lname, text))
        rec.run(dict(qn=qn, lexicon=lname, text=text), one, lexicon, text, rec)
    if s["kind"] == "toy":
        cls, al = TOYS[s["name"]]
        for lname in all_lexicons(cls):
            for n in range(s["n"] + 1):
                for t in itertools.product(al, repeat=n):
                    case("toy:" + s["name"] + "." + lname, getattr(cls, lname), "".join(t))
        return
    if s["kind"] == "examples":
        d = os.path.join(REPO, "tests", "lang")
        for f in [s["file"]]:
            with open(os.path.join(d, f), encoding="utf-8") as fo:
                text = fo.read()
            l = parce.find(filename=f)
            if not l:
                continue
            for i in range(len(text) + 1):
                case(l.qualname, l, text[:i])
                case(l.qualname, l, text[i:])
        return
    l = lex(s["qn"])
    frags = list(dict.fromkeys(GENERIC + SPECIFIC.get(s["name"], [])))
    if s["kind"] == "frag":
        firsts = frags if s["first"] is None else frags[s["first"][0]:s["first"][1]]
        if s["first"] is None or s["first"][0] == 0:
            case(s["qn"], l, "")
        rec.sample(dict(qn=s["qn"], fragments=frags[-8:]))
        for f in firsts:
            for n in range(s["n"]):
                for t in itertools.product(frags, repeat=n):
                    case(s["qn"], l, f + "".join(t))
    elif s["kind"] == "small":
        sm = SMALL[s["name"]]
        for f in sm[s["first"][0]:s["first"][1]]:
            for n in range(s["n"]):
                for t in itertools.product(sm, repeat=n):
                    case(s["qn"], l, f + "".join(t))
    elif s["kind"] == "pump":
        for lname in all_lexicons(l.language):
            l2 = getattr(l.language, lname)
            for x, y in itertools.product(PUMP if s["tier"] == "quick" else GENERIC, repeat=2):
                for end in PUMP_END:
                    case(s["qn"], l2, (x + y) * (s["n"] // 2) + end, lname)
            for x, y in itertools.product(PUMP_START, PUMP if s["tier"] == "quick" else GENERIC):
                for end in PUMP_END:
                    case(s["qn"], l2, x + y * s["n"] + end, lname)
        for x in frags:
            for y in PUMP:
                for end in PUMP_END:
                    case(s["qn"], l, x + y * s["n"] + end)
        for x, y in itertools.product(frags, SPECIFIC.get(s["name"], [])):
            case(s["qn"], l, (x + y) * 10)
    elif s["kind"] == "lexicons":
        for lname in all_lexicons(l.language):
            l2 = getattr(l.language, lname)
            for n in range(s["n"] + 1):
                for t in itertools.product(frags, repeat=n):
                    text = "".join(t)
                    case(s["qn"], l2, text, lname)
        for t in itertools.product(frags[:: 3], repeat=2):
            text = "".join(t)
            for pos in range(len(text) + 1):
                rec.run(dict(qn=s["qn"], text=text, pos=pos, lexicon=None), from_pos, l, text, pos)


def replay(case, rec):
    l = lex(case["qn"])
    if case.get("lexicon"):
        l = getattr(l.language, case["lexicon"])
    if "pos" in case:
        rec.run(case, from_pos, l, case["text"], case["pos"])
    else:
        rec.run(case, one, l, case["text"])
