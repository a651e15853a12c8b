"""C25: the bundled Python, TOML, XML and HTML languages see in a valid text what the reference parsers see."""
import collections
import datetime
import html.parser
import io
import itertools
import keyword
import re
import tokenize
import tomllib
from xml.parsers import expat

import parce
from parce.lexer import Lexer
import parce.action as A

from mc.core import Violation, check, equal

LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive differential enumeration: all fragment sequences that the reference parser (CPython's compiler and tokenizer, tomllib, expat, html.parser) accepts, parsed by the real languages"
RULE = ("every sequence of fragments up to the bound, for a number of fragment sets per language; texts the reference parser does not accept are skipped; an outcome is a distinct classification")
ASSUMPTIONS = ["the reference parsers of the Python 3.12 standard library are right",
    "Python decorators are names, attributes, calls and subscripts, format specifications in f-strings and whitespace are not compared",
    "HTML attribute values are quoted"]


def walk(node):
    for n in list.__iter__(node):
        yield n
        if n.is_context:
            yield from walk(n)


def tokens(node):
    return (n for n in walk(node) if n.is_token)


# -- Python ------------------------------------------------------------------

PAIRS = {")": "(", "]": "[", "}": "{"}


def python_oracle(text):
    """Return (classes, bracket pairs), or None if the text is not valid Python."""
    try:
        compile(text, "x", "exec", dont_inherit=True)
    except (SyntaxError, ValueError):
        return None
    starts = [0]
    for l in text.split("\n"):
        starts.append(starts[-1] + len(l) + 1)
    cls = ["."] * len(text)
    stack, pairs, ops = [], [], []
    last = None
    try:
        for t in tokenize.generate_tokens(io.StringIO(text).readline):
            a = starts[t.start[0] - 1] + t.start[1]
            b = starts[t.end[0] - 1] + t.end[1]
            name = tokenize.tok_name[t.type]
            k = None
            if name == "COMMENT":
                k = "c"
            elif name in ("STRING", "FSTRING_START", "FSTRING_END"):
                k = "s"
            elif name == "FSTRING_MIDDLE":
                # a doubled brace is given only once
                k = "?" if stack and stack[-1][0] == "{" and stack[-1][2] else "s"
                if k == "?" and set(t.string) & set("'\"#([\\"):
                    return None     # Python leaves the format spec to the value, parce reads it as an expression
                if text[b:b + 1] in ("{", "}") and text[b - 1:b] == text[b:b + 1]:
                    cls[b] = k
            elif name == "NUMBER":
                k = "n"
            elif name == "NAME":
                k = "?" if last == "!" else "k" if keyword.iskeyword(t.string) else "w"     # !r is a conversion
            elif name == "OP":
                if t.string in ("(", "[", "{"):
                    stack.append([t.string, a, False])
                elif t.string in PAIRS and stack:
                    pairs.append((stack.pop()[1], a))
                if len(t.string) > 1:
                    ops.append((a, t.string))
                if t.string == ":" and stack and stack[-1][0] == "{" and in_fstring(cls, stack):
                    stack[-1][2] = True
            if k:
                cls[a:b] = k * (b - a)
            last = t.string
    except (tokenize.TokenError, SyntaxError):
        return None
    return cls, pairs, ops


def in_fstring(cls, stack):
    return True     # a ':' directly in braces: either a dict (no FSTRING_MIDDLE follows) or a format spec


PY_BRACKETS = ("list", "tuple", "dict", "call", "item", "signature", "bases", "string_format_expr")


def python_case(text):
    w = python_oracle(text)
    if w is None:
        return None
    want, pairs, ops = w
    if any(a == "n" and b in "kw" for a, b in zip(want, want[1:])):
        return None     # 1if: deprecated
    from parce.lang.python import Python
    tree = parce.root(Python.root, text)
    got = ["."] * len(text)
    ends, at = {}, {}
    for n in walk(tree):
        if n.is_context:
            if n.lexicon.name in PY_BRACKETS:
                i = n.parent_index()
                ends[n.parent[i - 1].end - 1] = n.last_token().pos      # the end may be in the format spec
            continue
        a = n.action
        k = ("c" if a in A.Comment else "s" if a in A.String or a in A.Data.Bytes else "n" if a in A.Number else
             "k" if a in A.Keyword else "." )
        if a is A.Name.Constant and n.text in ("True", "False", "None"):
            k = "k"
        elif a in A.Name:
            k = "w"
        at[n.pos] = n.text
        got[n.pos:n.end] = k * len(n.text)
        check("Invalid" not in a, "{!r} is called invalid in valid Python {!r}".format(n.text, text))
    for i, (g, x) in enumerate(zip(got, want)):
        if g != x and text[i] not in " \n\\@" and x != "?":
            raise Violation("character {} of {!r} is {!r}, not {!r}: {} instead of {}".format(i, text, g, x, "".join(got), "".join(want)))
    for a, op in ops:
        equal(at.get(a), op, "operator at {} of {!r}".format(a, text))
    for a, b in pairs:
        if want[a] == "." and a in ends:
            equal(ends[a], b, "end of the bracket at {} of {!r}".format(a, text))
        else:
            check("?" in want, "bracket at {} of {!r} opens no context".format(a, text))
    return "".join(got)


PYTHON = {
    "strings": (["'", '"', '"""', "'''", "a", "\\", "\n", "#", " ", "r", "b", "f", "1", ".", "{", "}", "(", ")", "[", "]"], 4, 5),
    "long": (["'''", "r'''", "\\", "'", "a", "\n", '"""', '"'], 6, 7),
    "bytes": (["rb'''", "b'", "\\", "'", "a", "\n", '"""', '"', "'''"], 5, 6),
    "prefix": (["a", "1", " ", "b", "r", "u", "F", "R", "'", '"', "\n"], 5, 6),
    "format": (["f'", "'", "{", "}", "a", ":", "!r", "=", '"', "\\", "1", "#", "(", ")"], 5, 6),
    "longformat": (["fr'''", 'f"""', "'''", "\\", "'", "a", "{", "}", '"""', "\n"], 5, 6),
    "numbers": (["0", "1", "e", "E", "+", "-", ".", "_", "j"], 5, 6),
    "radix": (["0", "x", "X", "o", "b", "B", "1", "_", "a", "e", "."], 5, 6),
    "defs": (["def ", "class ", "a", "(", ")", ":", " ", "\n", "#", "@a\n", "@ 1", "pass"], 5, 6),
    "lines": (["\\\n", "a", " @ ", "1", "'", "#", "\n", "lambda ", ":", "if ", " else ", ".", "x[", "]"], 5, 6),
    "words": (["if ", "in ", "not ", "None", "match ", "is ", "a", "=", "\n", ":", "(", ")", "True", "self", "print"], 4, 5),
    "brackets": (["(", ")", "[", "]", "{", "}", ",", ":", "a", "'x'", "\n", "="], 5, 6),
    "decorators": (["@a", "@a.b", "(1)", "[1]", "\n", " ", "def f(a=1): ", "class C: ", "pass", "'x'", "#"], 5, 6),
    "operators": (["a", "=", "<", ">", "*", "/", "-", "+", "!", ".", "&", "@", ":", "(", ")", "~"], 5, 6),
    "calls": (["a(", "self.", "b[", ")", "]", "'", "*", "=1", ",", "A", "B1", " for a in ", "**"], 5, 6),
}


# -- TOML --------------------------------------------------------------------

def leaves(v):
    if isinstance(v, dict):
        for x in v.values():
            yield from leaves(x)
    elif isinstance(v, list):
        for x in v:
            yield from leaves(x)
    elif isinstance(v, bool):
        yield "b", v
    elif isinstance(v, (int, float)):
        yield "n", repr(float(v))   # int or float is not told apart
    elif isinstance(v, str):
        yield "s", v
    else:
        yield "t", type(v).__name__


TOML_ESC = {"b": "\b", "t": "\t", "n": "\n", "f": "\f", "r": "\r", '"': '"', "\\": "\\"}


def toml_string(ctx):
    toks = list(list.__iter__(ctx))
    lname = ctx.lexicon.name
    multi = "multiline" in lname
    out, last = [], toks[-1].text
    q = '"' if "basic" in lname else "'"
    for t in toks[:-1]:
        x = t.text
        if "basic" in lname and t.action is A.String.Escape:
            x = TOML_ESC[x[1]] if x[1] in TOML_ESC else chr(int(x[2:], 16))
        elif t.action is A.Whitespace:
            x = ""
        out.append(x)
    check(last.strip(q) == "" and len(last) >= (3 if multi else 1), "end of a TOML string", ctx)
    text = "".join(out) + last[3 if multi else 1:]
    if lname == "string_multiline_basic" and text.startswith("\n"):
        text = text[1:]
    return text


def toml_number(t):
    t = t.replace("_", "")
    if t[:2] in ("0x", "0o", "0b"):
        return repr(float(int(t, 0)))
    return repr(float(t if any(c in t for c in ".einEN") else int(t)))


def toml_time(t):
    if ":" in t and "-" in t[:5]:
        return "datetime"
    return "time" if ":" in t else "date"


def toml_case(text):
    try:
        value = tomllib.loads(text)
    except (tomllib.TOMLDecodeError, ValueError):
        return None
    from parce.lang.toml import Toml
    tree = parce.root(Toml.root, text)
    got = collections.Counter()
    for n in walk(tree):
        if n.is_token:
            a = n.action
            check("Invalid" not in a, "{!r} is called invalid in valid TOML {!r}".format(n.text, text))
            if a is A.Number:
                got["n", toml_number(n.text)] += 1
            elif a is A.Literal.Timestamp:
                got["t", toml_time(n.text)] += 1
            elif a is A.Name.Constant:
                got["b", n.text == "true"] += 1
        elif n.lexicon.name.startswith("string") and n.parent.lexicon.name in ("value", "array", "inline_value"):
            got["s", toml_string(n)] += 1
    want = collections.Counter(leaves(value))
    equal(sorted(got.items(), key=repr), sorted(want.items(), key=repr), "values in the TOML text {!r}".format(text))
    return tuple(sorted(map(repr, got)))


TOML = {
    "keys": (["a", "=", "1", "\n", " ", "[", "]", ".", "#", '"', "'"], 5, 6),
    "tables": (["a=", "b=", "1", ",", "{", "}", "[", "]", " ", "\n", "true", '"x"'], 5, 6),
    "strings": (["a=", '"""', "'''", '"', "'", "\n", "x", "\\", " ", "#"], 5, 7),
    "escapes": (['a="', '"', "\\", "n", "x41", "\n", "u0bDe", "U0001fC3B", '"""', " ", "e"], 5, 6),
    "letters": (['a="', 'a="""', '"', '"""', "\\b", "\\f", "\\r", "\\t", "\\\\", '\\"'], 4, 5),
    "numbers": (["a=", "1", "-", "+", ".", "_", "e", "0", "x", "inf", "nan"], 5, 6),
    "radix": (["a=", "0", "x", "o", "b", "1", "7", "_", "Cd"], 5, 6),
    "times": (["a=", "1979-05-27", "T", " ", "07:32:00", "Z", ".5", "-07:00", "t", "z", "#"], 6, 7),
    "arrays": (["a=[", "]", ",", "\n", "#", "1", " ", '"x"', "[", "{b=", "}"], 5, 6),
    "headers": (["[", "]", "[[", "]]", ".", "\n", " ", '"a"', "b", "=1", "'c'", "#"], 5, 6),
    "dotted": (["a.", '"b".', "c", " ", "=", "{", "}", "1", "\n", ",", "true"], 5, 6),
}


# -- XML and HTML ------------------------------------------------------------

def xml_oracle(text):
    ev = []
    p = expat.ParserCreate()
    p.ordered_attributes = 1
    p.specified_attributes = 1
    p.buffer_text = True
    dtd = []    # what happens in the DTD is not told
    def data(d):
        if cd[0]:
            cd[1].append(d)
        else:
            ev.append(("text", d))
    cd = [False, []]

    def start_cdata():
        cd[0], cd[1] = True, []

    def end_cdata():
        cd[0] = False
        ev.append(("cdata", "".join(cd[1])))
    p.StartElementHandler = lambda n, a: ev.append(("start", n, tuple(zip(a[::2], a[1::2]))))
    p.EndElementHandler = lambda n: ev.append(("end", n))
    p.CommentHandler = lambda d: dtd or ev.append(("comment", d))
    p.ProcessingInstructionHandler = lambda t, d: dtd or ev.append(("pi", t))
    p.StartCdataSectionHandler = start_cdata
    p.EndCdataSectionHandler = end_cdata
    p.StartDoctypeDeclHandler = lambda n, *a: (ev.append(("doctype", n)), dtd.append(n))
    p.EndDoctypeDeclHandler = dtd.clear
    p.CharacterDataHandler = data
    try:
        p.Parse(text.encode("utf-8"), True)
    except expat.ExpatError:
        return None
    return join_text(ev)


def join_text(ev):
    """Join adjacent text, leave out empty text."""
    out = []
    for e in ev:
        if e[0] == "text":
            if not e[1]:
                continue
            if out and out[-1][0] == "text":
                out[-1] = ("text", out[-1][1] + e[1])
                continue
        out.append(e)
    return out


ENTITIES = {"&lt;": "<", "&gt;": ">", "&amp;": "&", "&quot;": '"', "&apos;": "'"}


def entity(t):
    if t in ENTITIES:
        return ENTITIES[t]
    if t.startswith("&#x"):
        return chr(int(t[3:-1], 16))
    if t.startswith("&#"):
        return chr(int(t[2:-1]))
    return t


def attribute_value(ctx):
    toks = list(list.__iter__(ctx))
    return "".join(entity(t.text) if t.action is A.String.Escape else t.text.replace("\n", " ").replace("\t", " ") for t in toks[:-1])


def xml_events(tree, void=(), raw=()):
    """The markup a parce tree of XML describes."""
    ev, stack = [], []

    def attributes(ctx):
        name = None
        for n in list.__iter__(ctx):
            if n.is_token:
                if n.action is A.Name.Attribute:
                    if name is not None:
                        yield name, None
                    name = n.text
                check("Invalid" not in n.action, "{!r} is called invalid".format(n.text))
            elif n.lexicon.name in ("dqstring", "sqstring"):
                yield name, attribute_value(n)
                name = None
            elif n.lexicon.name == "css_style_attribute":
                yield name, None    # another language
                name = None
        if name is not None:
            yield name, None

    def contents(ctx):
        nodes = list(list.__iter__(ctx))
        i = 0
        while i < len(nodes):
            n = nodes[i]
            nxt = nodes[i + 1] if i + 1 < len(nodes) else None
            i += 1
            if n.is_context:
                if n.lexicon.name == "tag":
                    contents(n)
                elif n.lexicon.name in ("script_tag", "css_style_tag"):
                    check(n[-1].is_token and n[-1].text == ">", "end of", n)
                    ev.append(("end", n[-2].text))
                    check(stack.pop() == n[-2].text, "end of", n)
                continue
            a = n.action
            check("Invalid" not in a, "{!r} is called invalid".format(n.text))
            if a is A.Comment.Start:
                ev.append(("comment", "".join(t.text for t in tokens(nxt) if t.action is not A.Comment.End)))
                i += 1
            elif a is A.Bracket.Preprocessed.Start:
                if nxt.text.lower() != "xml":
                    ev.append(("pi", nxt.text))
                i += 2
            elif n.text == "<![":
                c = nodes[i + 2]
                ev.append(("cdata", "".join(t.text for t in tokens(c) if t.action is A.Data)))
                i += 3
            elif n.text == "<!":
                ev.append(("doctype", nodes[i + 1].text))
                i += 3
            elif a is A.Escape:
                ev.append(("text", entity(n.text)))
            elif a in (A.Text, A.Whitespace):
                if stack:       # outside of the root element it is no character data
                    ev.append(("text", n.text))
            elif a is A.Name.Tag:
                if "/" in nodes[i - 2].text:
                    ev.append(("end", n.text))
                    if n.text.lower() not in void:
                        check(stack and stack.pop() == n.text, "nesting at", n)
                    continue
                attrs, last = (), nxt
                if nxt is not None and nxt.is_context and nxt.lexicon.name == "attrs":
                    attrs = tuple(attributes(nxt))
                    last = nxt.last_token()
                ev.append(("start", n.text, attrs))
                if last is not None and last.text.startswith("/"):
                    ev.append(("end", n.text))
                elif n.text.lower() not in void:
                    stack.append(n.text)
    contents(tree)
    return join_text(ev)


def xml_case(text, html=False):
    want = xml_oracle(text)
    if want is None:
        return None
    from parce.lang.xml import Xml
    from parce.lang.html import XHtml
    if html:
        # the contents of script and style elements are other languages
        want = raw_contents(want)
        if want is None:
            return None
    tree = parce.root((XHtml if html else Xml).root, text)
    check(not any(n.is_context and n.lexicon.name in ("attrs", "dqstring", "sqstring", "comment", "cdata", "doctype") and n.is_last() and n.end == len(text)
        and n.parent is tree and not n.last_token().text.endswith((">",)) for n in walk(tree)), "open context")
    got = xml_events(tree)
    if html:
        got = [e[:2] + (tuple((n, None if n == "style" else v) for n, v in e[2]),) if e[0] == "start" else e for e in got]
    equal(got, want, "events of {!r}".format(text))
    return repr(got)


# -- declarations in a DTD

def model_text(m):
    """The content model of an element as text."""
    kind, quant, name, children = m
    quant = ("", "?", "*", "+")[quant]
    if kind in (1, 2):
        return ("EMPTY", "ANY")[kind - 1]
    if kind == 3:
        return "(" + "|".join(["#PCDATA"] + [c[2] for c in children]) + ")" + quant
    if kind == 4:
        return name + quant
    return "(" + ("|" if kind == 5 else ",").join(map(model_text, children)) + ")" + quant


def dtd_oracle(text):
    """The declarations according to expat."""
    ev = []
    p = expat.ParserCreate()

    def element(name, model):
        ev.append(("ELEMENT", name, model_text(model)))

    def attlist(el, name, type, default, required):
        # required with a default: #FIXED
        ev.append(("ATTLIST", el, name, type, "#FIXED" if required and default is not None else "#REQUIRED" if required else None if default is not None else "#IMPLIED", default))

    def ent(name, param, value, base, system, public, notation):
        ev.append(("ENTITY", name, bool(param), value, system, public, notation))
        if len(set(e[1:3] for e in ev if e[0] == "ENTITY")) < sum(e[0] == "ENTITY" for e in ev):
            ev.pop()    # only the first is used
    p.ElementDeclHandler = element
    p.AttlistDeclHandler = attlist
    p.EntityDeclHandler = ent
    p.NotationDeclHandler = lambda name, base, system, public: ev.append(("NOTATION", name, system, public))
    p.CommentHandler = lambda d: ev.append(("comment", d))
    try:
        p.Parse(text.encode("utf-8"), True)
    except expat.ExpatError:
        return None
    return ev


def dtd_events(ctx, pi):
    """The declarations in a context of the Dtd language."""
    ev = []
    nodes = [n for n in list.__iter__(ctx) if not (n.is_token and n.text.isspace())]
    i = 0

    def strings(items, value):
        """The text of every string, the other tokens as they are"""
        out = []
        for n in items:
            if n.is_token:
                if n.action in (A.String.Double.Start, A.String.Single.Start) or n.text.isspace():
                    continue
                out.append((n.action, n.text))
            elif n.lexicon.name in ("dqstring", "sqstring"):
                out.append(("string", attribute_value(n) if value else "".join(t.text for t in list(list.__iter__(n))[:-1])))
            else:
                out.append((n.lexicon.name, n))
        return out

    def flat(n):
        return [t for t in tokens(n) if not t.text.isspace()]

    while i < len(nodes):
        n = nodes[i]
        i += 1
        if n.is_token and n.action is A.Comment.Start:
            ev.append(("comment", "".join(t.text for t in tokens(nodes[i]) if t.action is not A.Comment.End)))
            i += 1
        elif n.is_token and n.text == "<?":
            check(pi, "a processing instruction")
            i += 2
        elif n.is_token and n.text == "<!":
            kind, items = nodes[i], []
            i += 1
            check(kind.action is A.Keyword, "action of", kind)
            param = nodes[i].is_token and nodes[i].text == "%"
            i += param
            name = nodes[i]
            check(name.action is (A.Name.Entity.Definition if kind.text == "ENTITY" else A.Name.Element.Definition), "action of", name)
            body = nodes[i + 1]
            i += 2
            check(body.is_context and body.lexicon.name == kind.text.lower(), "context of", kind)
            items = list(list.__iter__(body))
            check(items[-1].is_token and items[-1].text == ">" and items[-1].action is A.Delimiter, "end of", body)
            items = items[:-1]
            if kind.text == "ELEMENT":
                for t in flat(body)[:-1]:
                    want = (A.Bracket if t.text in "()" else A.Operator if t.text in "|,?*+" else A.Name.Builtin if t.text == "#PCDATA" else A.Name.Keyword if t.parent is body else A.Name.Element)
                    check(t.action is want, "action of {!r} is {} in".format(t.text, t.action), body)
                ev.append(("ELEMENT", name.text, "".join(t.text for t in flat(body)[:-1])))
            elif kind.text == "NOTATION":
                s = strings(items, False)
                check(s[0] in ((A.Keyword, "SYSTEM"), (A.Keyword, "PUBLIC")), "kind of notation", s)
                s2 = [t for k, t in s if k == "string"]
                equal(len(s2), len(s) - 1, "strings of {}".format(s))
                ev.append(("NOTATION", name.text, s2[-1] if s[0][1] == "SYSTEM" or len(s2) == 2 else None, s2[0] if s[0][1] == "PUBLIC" else None))
            elif kind.text == "ENTITY":
                s = strings(items, not any(n.is_token and n.action is A.Keyword for n in items))
                value = system = public = notation = None
                if s[0][0] == "string":
                    value = s.pop(0)[1]
                else:
                    key = s.pop(0)
                    check(key in ((A.Keyword, "SYSTEM"), (A.Keyword, "PUBLIC")), "kind of entity", key)
                    if key[1] == "PUBLIC":
                        public = s.pop(0)[1]
                    system = s.pop(0)
                    check(system[0] == "string", "system identifier", system)
                    system = system[1]
                    if s:
                        equal(s[0], (A.Keyword, "NDATA"), "notation")
                        equal(s[1][0], A.Name.Entity, "name of the notation")
                        notation = s[1][1]
                        s = s[2:]
                equal(s, [], "rest of the entity")
                if not any(e[:3] == ("ENTITY", name.text, param) for e in ev):
                    ev.append(("ENTITY", name.text, param, value, system, public, notation))
            else:
                s = strings(items, True)
                while s:
                    a, attr = s.pop(0)
                    equal(a, A.Name.Attribute.Definition, "action of attribute {!r}".format(attr))
                    a, type = s.pop(0)
                    notation = ""
                    if (a, type) == (A.Name.Type, "NOTATION"):
                        notation = type
                        a, type = s.pop(0)
                    if (a, type) == (A.Bracket, "("):
                        c, ctx2 = s.pop(0)
                        equal(c, "attlist_notation" if notation else "attlist_enumeration", "context of the values of {!r}".format(attr))
                        for t in flat(ctx2):
                            check(t.action is (A.Bracket if t.text == ")" else A.Operator if t.text == "|" else A.Name.Type if notation else A.Data), "action of {!r}".format(t.text))
                        type = notation + "(" + "".join(t.text for t in flat(ctx2))
                    else:
                        equal(a, A.Name.Type, "action of {!r}".format(type))
                    a, default = s.pop(0)
                    key = None
                    if a is A.Name.Builtin:
                        key, default = default, None
                        if key == "#FIXED":
                            a, default = s.pop(0)
                    if default is not None:
                        equal(a, "string", "default value")
                    ev.append(("ATTLIST", name.text, attr, type, key, default))
    return ev


def dtd_case(text):
    full = "<!DOCTYPE a [" + text + "]><a/>"
    want = dtd_oracle(full)
    if want is None or any(e[0] == "ATTLIST" and e[2] == "NOTATION" for e in want):
        return None     # "NOTATION (n)" can be an attribute with that name; not told apart
    from parce.lang.xml import Dtd, Xml
    tree = parce.root(Xml.root, full)
    body = [n for n in walk(tree) if n.is_context and n.lexicon.name == "internal_dtd"][0]
    equal(dtd_events(list(list.__iter__(body))[:-1], True), want, "declarations of {!r}".format(full))
    equal(body[-1].text, "]", "end of {!r}".format(full))
    if "<?" not in text:
        equal(dtd_events(parce.root(Dtd.root, text), False), want, "declarations of the DTD {!r}".format(text))
    return repr(want)


RAW = re.compile(r"(?:p\{\}|color:red|x=1;|'y'|\s)*")


def raw_contents(events):
    out, depth = [], 0
    for e in events:
        if e[0] == "end" and depth:
            depth = 0
        if not depth:
            if e[0] == "start":
                e = e[:2] + (tuple((n, None if n == "style" else v) for n, v in e[2]),)
            out.append(e)
        elif e[0] != "text" or not RAW.fullmatch(e[1]):
            return None     # markup or unclosed strings in a script are out of scope
        if e[0] == "start" and e[1] in ("script", "style"):
            depth = 1
    return out


XML = {
    "tags": (["<a>", "</a>", "<b", ' c=""', ">", "/>", "</b>", "x", "<!--", "-->", " "], 5, 7),
    "cdata": (["<a>", "</a>", "<![CDATA[", "]]>", "]", "<?x", "?>", ">", '"', "-->", "\n"], 5, 7),
    "attrs": (["<a", " ", "b='", "'", '"', ">", 'c="', "&lt;", "</a", "/", "\n"], 6, 8),
    "entities": (["<a>", "</a>", "&lt;", "&amp;", "&#65;", "&#x42;", "x", " ", ";", "\n", "é"], 5, 6),
    "doctype": (["<!DOCTYPE a", ">", " [", "]", "<!ENTITY b 'c'>", "<a/>", "<!--", "-->", ' SYSTEM "x"', "\n", "<!ELEMENT a (b|c)*>", "<?x ?>"], 5, 6),
    "names": (["<a", "<é:b", "<a-b.c", ">", "</a>", "</é:b>", "</a-b.c>", " x:y='1'", "/>", " /"], 5, 7),
    "comments": (["<!--", "-", "-->", "<a>", "</a>", "<", ">", "!", "x", "&lt;", "\n"], 6, 7),
}

XHTML = {
    "tags": (["<p>", "</p>", "<br", ' class="x"', ">", "/>", "</br>", "x", "<!--", "-->", " "], 5, 6),
    "style": (["<p", ">", "</p>", ' style="', "color:red", '"', "<style>", "</style>", "p{}", "/>", " id='1'"], 5, 7),
    "script": (["<p>", "</p>", "<script>", "</script>", "<script ", "a='b'", ">", "x=1;", "'y'", "/>"], 6, 7),
}


class HTMLReference(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=False)
        self.ev = []

    def handle_starttag(self, tag, attrs):
        self.ev.append(("start", tag, tuple(attrs)))

    def handle_startendtag(self, tag, attrs):
        self.ev.append(("start", tag, tuple(attrs)))
        self.ev.append(("end", tag))

    def handle_endtag(self, tag):
        self.ev.append(("end", tag))

    def handle_comment(self, data):
        self.ev.append(("comment", data))

    def handle_data(self, data):
        self.ev.append(("text", data))

    def handle_entityref(self, name):
        self.ev.append(("text", entity("&" + name + ";")))


VOID = "area base br col embed hr img input link meta param source track wbr".split()


def html_case(fragments):
    """Sequences of well-formed HTML fragments that nest properly."""
    stack = []
    for f in fragments:
        if f.startswith("</"):
            if f[2:-1].lower() in VOID:
                return None
            if not stack or stack.pop() != f[2:-1]:
                return None
        elif f.startswith("<") and not f.startswith("<!") and not f.endswith("/>"):
            name = f[1:].rstrip(">").split()[0]
            if name.lower() not in VOID:
                stack.append(name)
        if stack and stack[-1].lower() in ("script", "style") and f.startswith("<") and f[1:].rstrip(">").split()[0] != stack[-1]:
            return None
    if stack:
        return None
    text = "".join(fragments)
    ref = HTMLReference()
    ref.feed(text)
    ref.close()
    want, raw = [], False
    for e in ref.ev:
        if e[0] == "end":
            raw = False
        if not raw:
            want.append(e)
        if e[0] == "start" and e[1] in ("script", "style"):
            raw = True
    want = [e for e in join_text(want) if e[0] != "text"]
    from parce.lang.html import Html
    tree = parce.root(Html.root, text)
    got = [e for e in xml_events(tree, VOID) if e[0] != "text"]
    got = [(e[0], e[1].lower()) + e[2:] if e[0] in ("start", "end") else e for e in got]
    equal(got, want, "events of {!r}".format(text))
    # after all elements are closed the text is in the root context again
    for end in ("x",):
        t2 = parce.root(Html.root, text + end)
        check(t2[-1].is_token, "after {!r} an element is still open".format(text))
    return repr(got)


HTML = (["<p>", "</p>", "<br>", "<br/>", '<img src="a">', "<div>", "</div>", "<input disabled>", "x", " ", "<!--c-->", '<p class="d">', "<BR>", "<hr />", "&lt;"], 4, 5)
HTML_RAW = (["<script>", "</script>", "<style>", "</style>", '<script src="a">', '<style id="a">', "x = 1;", "p { a: b }", "<p>", "</p>", "<br>", "x", "<SCRIPT>", "</SCRIPT>", "<STYLE>", "</STYLE>"], 4, 5)


# -- driver ------------------------------------------------------------------

SETS = {"python": PYTHON, "toml": TOML, "xml": XML, "xhtml": XHTML, "html": {"html": HTML, "raw": HTML_RAW},
    "dtd": {"mixed": (["<!ELEMENT a ANY>", "<!ATTLIST a b CDATA 'x>'>", '<!ENTITY c "]>">', "<!NOTATION n SYSTEM 'x'>", "<!--<!ENTITY e 'f'>-->", "<!ENTITY % p ''>", " ", "<?x <!ENTITY g 'h'>?>", "<!ELEMENT é:b-c (d)>", "\n"], 4, 5)}}
CASES = {"python": python_case, "toml": toml_case, "xml": xml_case, "xhtml": lambda t: xml_case(t, True), "dtd": dtd_case}


# the fragments are put inside a construct: (before, after) frames, fragments, quick, thorough bound
FRAMED = {
    "python": {
        "instring": ([(p + q, q + end) for p in ("", "r", "u", "f", "fR", "b", "Rb") for q in ("'", '"', "\'\'\'", '"""') for end in (" + y\n", ")\n", "")],
            ["\\", "'", '"', "x", "{", "}", "\n", "\\\\"], 3, 5),
        "nested": ([("f'", "'\n"), ('f"{', '}"\n'), ("f\'\'\'{", "}\'\'\'\n"), ("rf'{", "}'"), ("x = f'{a", "}' 'b'\n")],
            ["a", "'", '"', "{", "}", "(", ")", "[", "]", "!r", ":", "=", "1", " "], 4, 5),
        "inblock": ([("def f(x", "):\n  pass\n"), ("class A(", "): pass\n"), ("@a\ndef f(", "): pass\n"), ("if a:\n  b", "\n")],
            ["a", "=", "1", ",", "*", "**", ":", "int", "'s'", "->", "(", ")", " ", "\n", "#"], 3, 4),
        "incall": ([("f(", ")\n"), ("a[", "]\n"), ("{", "}\n"), ("self(", ")"), ("a.b(", ")[0]\n"), ("(", ")\n"), ("[", "]\n")],
            ["a", "=", "1", ",", "*", ":", "'s'", "(", ")", "[", "]", " ", "\n", "#", "\\\n", "."], 3, 4),
    },
    "toml": {
        "instring": ([("a=" + q, q + end) for q in ("'", '"', "\'\'\'", '"""') for end in ("", "\nb=1", " # c")],
            ["\\", "'", '"', "x", "\\\\", "\n", "u0041", "b", "#", " "], 4, 5),
        "inarray": ([("a=[", "]"), ("a=[[", "]]"), ("a={b=", "}"), ("[", "]"), ("[[", "]]"), ("a=[{b=", "}]\nc=1")],
            ["1", ",", "\n", "#x\n", " ", '"x"', "'y'", "[", "]", ".", "b", "=", "true"], 4, 5),
    },
    "xml": {
        "incdata": ([("<a><![CDATA[", "]]></a>"), ("<a>x<![CDATA[", "]]>y</a>")], ["]", ">", "<", "&", "x", "\n", "]]>", "<![CDATA[", "-->", '"'], 5, 6),
        "inpi": ([("<a><?x ", "?></a>"), ("<?x", "?><a/>"), ("<?xml version='1.0'", "?><a/>")], ["?", ">", " ", "b", "='", "'", '"', "<", "\n", "?>"], 5, 6),
        "incomment": ([("<a><!--", "--></a>"), ("<!--", "--><a/>")], ["-", ">", "!", "<", "x", "&", "\n", "<!--", "</a>", '"'], 5, 6),
        "inattr": ([('<a b="', '"/>'), ("<a b='", "'></a>"), ('<a b = "', '" c="d"><e f="g"/></a>')], ["'", '"', ">", "&lt;", "&#65;", "x", "\n", "/>", " c=", "]"], 5, 6),
        "intag": ([("<a ", "></a>"), ("<a\n", "/>"), ("<a><b ", " ></b>x</a>")], ["b", "=", "'1'", '"2"', " ", "\n", "c:d", "/", "-", ">"], 5, 6),
        "indoctype": ([("<!DOCTYPE a [", "]><a/>"), ("<!DOCTYPE a ", "><a/>")], ["<!ENTITY b 'c'>", "<!ELEMENT a (b,c)>", "<!ATTLIST a b CDATA 'x'>", "<!--x]>-->", "<?x ]?>", " ", "\n", '"]>"', "SYSTEM", "["], 3, 4),
    },
    "dtd": {
        "element": ([("<!ELEMENT a ", ">"), ("<!ELEMENT a (", ")>"), ("<!ELEMENT a ((", "),c)*>")], ["(", ")", "b", "|", ",", "*", "?", "+", "#PCDATA", "EMPTY", "ANY", " ", "é.d"], 4, 5),
        "attlist": ([("<!ATTLIST a ", ">"), ("<!ATTLIST a d CDATA #IMPLIED ", ">")], ["b ", "c:d ", "CDATA ", "ID ", "IDREF ", "NMTOKENS ", "(x|y) ", "( 1 )", "NOTATION (n|m) ", "#REQUIRED ", "#IMPLIED", "#FIXED ", "'>'", ' "w&lt;"', "\n", "ENTITIES "], 4, 5),
        "entity": ([("<!ENTITY ", ">"), ("<!ENTITY b", ">")], ["b", " ", "% ", "'v>'", '"]w"', "SYSTEM ", "PUBLIC ", "NDATA ", "n", '"x&#65;\'"', "\n"], 5, 6),
        "notation": ([("<!NOTATION n ", ">")], ["SYSTEM ", "PUBLIC ", "'x'", '"y>"', " ", "\n"], 5, 7),
    },
    "xhtml": {
        "intag": ([("<p ", "></p>"), ("<p><br ", "/></p>"), ("<a><p ", " ></p>x</a>")], ["b", "=", "'1'", '"2"', " ", "\n", "style=", '"a:b"', "/", ">"], 4, 5),
    },
}


def frames(lang, name):
    return FRAMED[lang][name[1:]][0] if name.startswith("@") else [("", "")]


def fragment_set(lang, name):
    return FRAMED[lang][name[1:]][1:] if name.startswith("@") else SETS[lang][name]


def shards(tier):
    out = []
    for lang, sets in SETS.items():
        for name in [*sets, *("@" + n for n in FRAMED.get(lang, ()))]:
            frags, q, t = fragment_set(lang, name)
            n = q if tier == "quick" else t
            out += [[lang, name, i, n] for i in range(len(frags))]
    out.sort(key=lambda s: -len(frames(s[0], s[1])) * len(fragment_set(s[0], s[1])[0]) ** s[3])
    return out


def bounds(tier):
    i = 1 if tier == "quick" else 2
    return "; ".join("{}: {}".format(lang, ", ".join(["{} up to {} of {} fragments".format(name, s[i], len(s[0])) for name, s in sets.items()] +
        ["{} up to {} of {} fragments inside {} frames".format(name, s[i + 1], len(s[1]), len(s[0])) for name, s in FRAMED.get(lang, {}).items()])) for lang, sets in SETS.items())


def run_shard(s, rec):
    lang, name, first, n = s
    frags = fragment_set(lang, name)[0]
    for k in range(n):
        for t in itertools.product(frags, repeat=k):
            t = (frags[first], *t)
            if lang == "html":
                r = rec.run(dict(lang=lang, fragments=t), html_case, t)
                rec.transitions += 1
                if r is not None:
                    rec.state((lang, "".join(t)))
                    rec.outcome((lang, r))
                continue
            for before, after in frames(lang, name):
                text = before + "".join(t) + after
                r = rec.run(dict(lang=lang, text=text), CASES[lang], text)
                rec.transitions += 1
                if r is not None:
                    rec.state((lang, text))
                    rec.outcome((lang, r))


def replay(c, rec):
    if c["lang"] == "html":
        rec.run(c, html_case, tuple(c["fragments"]))
    else:
        rec.run(c, CASES[c["lang"]], c["text"])
