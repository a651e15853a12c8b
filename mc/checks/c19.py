"""C19: CSS selectors, the cascade, style sheets and themes."""
import functools
import itertools
import os
import re
import shutil
import tempfile

from mc.core import Violation, check, equal

LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration: selectors x element trees, sequences of rules, at-rules, imports and values, run through the real parser and matcher and compared with a matcher and cascade written directly from the CSS definitions"
RULE = ("every selector of the bound on every element of every tree of the bound; every sequence of rules; every value form; "
        "an outcome is a distinct result (which elements match, which values win, which rules remain)")
ASSUMPTIONS = ["no namespaces, no :not()/:is() functions, no nth-child (the module does not support them)", "a file is imported once, at its first @import",
    "a declared value is not checked for being allowed for its property"]


# --------------------------------------------------------------- the model
class N:
    """Element of the model."""
    def __init__(self, name, parent=None, attrs=(), pseudo=(), pseudo_elements=()):
        self.name = name
        self.parent = parent
        self.attrs = dict(attrs)
        self.pseudo = set(pseudo)
        self.pseudo_elements = set(pseudo_elements)
        self.children = []
        if parent:
            parent.children.append(self)

    def siblings(self):
        return self.parent.children if self.parent else [self]

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()


def of_type(n):
    return [s for s in n.siblings() if s.name == n.name]

PSEUDO = {
    "first-child": lambda n: n.siblings()[0] is n,
    "last-child": lambda n: n.siblings()[-1] is n,
    "only-child": lambda n: len(n.siblings()) == 1,
    "first-of-type": lambda n: of_type(n)[0] is n,
    "last-of-type": lambda n: of_type(n)[-1] is n,
    "empty": lambda n: not n.children,
}


def attr_match(value, op, text, flag):
    if op is None:
        return True
    if flag in ("i", "I"):
        value, text = value.lower(), text.lower()
    if op == "=":
        return value == text
    if op == "~=":
        return text != "" and not re.search(r"\s", text) and text in value.split()
    if op == "|=":
        return value == text or value[:len(text) + 1] == text + "-"
    if text == "":
        return False
    if op == "^=":
        return value[:len(text)] == text
    if op == "$=":
        return value[-len(text):] == text
    return any(value[i:i + len(text)] == text for i in range(len(value)))


def simple_match(n, part):
    """A part is ("name", x), ("class", x), ("id", x), ("attr", name, op, text, flag), ("pseudo", x), ("element", x)"""
    kind = part[0]
    if kind == "name":
        return n.name == part[1]
    if kind == "class":
        return part[1] in n.attrs.get("class", "").split()
    if kind == "id":
        return n.attrs.get("id") == part[1]
    if kind == "attr":
        return part[1] in n.attrs and attr_match(n.attrs[part[1]], *part[2:])
    if kind == "pseudo":
        return PSEUDO[part[1]](n) if part[1] in PSEUDO else part[1] in n.pseudo
    if kind == "element":
        return part[1] in n.pseudo_elements
    return True     # *


def related(n, op):
    """All elements that stand before the combinator."""
    if op == ">":
        return [n.parent] if n.parent else []
    if op == " ":
        r = []
        while n.parent:
            n = n.parent
            r.append(n)
        return r
    sib = n.siblings()
    i = [s is n for s in sib].index(True)
    return sib[max(i - 1, 0):i] if op == "+" else sib[:i]


def chain_match(n, chain):
    """chain: [compound, op, compound, op, ..., compound]"""
    if not all(simple_match(n, p) for p in chain[-1]):
        return False
    if len(chain) == 1:
        return True
    return any(chain_match(m, chain[:-2]) for m in related(n, chain[-2]))


def specificity(chain):
    r = [0, 0, 0]
    for c in chain[::2]:
        for p in c:
            if p[0] == "id":
                r[0] += 1
            elif p[0] in ("class", "attr", "pseudo"):
                r[1] += 1
            elif p[0] in ("name", "element"):
                r[2] += 1
    return tuple(r)


def write_part(part):
    kind = part[0]
    if kind == "name":
        return part[1]
    if kind == "attr":
        _, name, op, text, flag = part
        return "[" + name + ("" if op is None else '{}"{}"{}'.format(op, text, " " + flag if flag else "")) + "]"
    return {"class": ".", "id": "#", "pseudo": ":", "element": "::", "any": "*"}[kind] + (part[1] if len(part) > 1 else "")


def write_chain(chain, spaces=True):
    return "".join("".join(map(write_part, c)) if i % 2 == 0 else c if c == " " or not spaces else " {} ".format(c) for i, c in enumerate(chain))


def real_tree(node, parent=None, made=None):
    """Element from N; also a list of them in tree order."""
    from parce.css import Element
    made = [] if made is None else made
    e = Element(node.name, parent, sorted(node.pseudo), sorted(node.pseudo_elements), **node.attrs)
    made.append(e)
    for c in node.children:
        real_tree(c, e, made)
    return made


class FakeLxml:
    """Has the interface of lxml.etree elements that is needed."""
    def __init__(self, node, parent=None, made=None):
        self.tag = node.name
        self.attrib = node.attrs
        self._parent = parent
        self._children = []
        made.append(self)
        for c in node.children:
            self._children.append(FakeLxml(c, self, made))

    def getparent(self):
        return self._parent

    def itersiblings(self, tag=None, preceding=False):
        if self._parent is None:
            return iter(())
        s = self._parent._children
        i = [x is self for x in s].index(True)
        return iter(s[:i][::-1] if preceding else s[i + 1:])

    def __len__(self):
        return len(self._children)

    def __iter__(self):
        return iter(self._children)


# ------------------------------------------------------------ element trees
def forests(n):
    """All ordered forests with n nodes, as nested tuples."""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for kids in forests(k - 1):
            for rest in forests(n - k):
                yield (kids,) + rest


def trees(n, names):
    """All trees of n nodes labeled with names (as nested (name, kids))."""
    for kids in forests(n - 1):
        for labels in itertools.product(names, repeat=n):
            it = iter(labels)
            def build(k):
                return (next(it), [build(c) for c in k])
            yield build(kids)


def model_tree(t, parent=None):
    n = N(t[0], parent)
    for k in t[1]:
        model_tree(k, n)
    return n


@functools.cache
def tree_pool(size, names="ab"):
    r = []
    for t in trees(size, names):
        m = model_tree(t)
        r.append((t, m, list(m.walk()), real_tree(m)))
    return r


@functools.cache
def style_for(text):
    from parce.css import StyleSheet
    return StyleSheet.from_text(text).style


def matching(text, elements):
    style = style_for(text + "{p:v}")
    return [len(style.select_element(e).rules) for e in elements]


def run_chain(chain, t, spaces, lxml):
    m = model_tree(t)
    nodes = list(m.walk())
    text = write_chain(chain, spaces)
    want = [int(chain_match(n, chain)) for n in nodes]
    got = matching(text, real_tree(m))
    equal(got, want, "elements of {} that match {!r}".format(t, text))
    if lxml:
        made = []
        FakeLxml(m, None, made)
        style = style_for(text + "{p:v}")
        equal([len(style.select_lxml_element(e).rules) for e in made], want, "lxml elements of {} that match {!r}".format(t, text))
    return got


def totuple(x):
    return tuple(map(totuple, x)) if isinstance(x, (list, tuple)) else x


COMPOUNDS = [(("name", "a"),), (("name", "b"),), (("any",),)]
PCOMPOUNDS = [(("pseudo", p),) for p in PSEUDO] + [(("name", "a"), ("pseudo", p)) for p in PSEUDO]
OPS = [" ", ">", "+", "~"]


def chains(length):
    for cs in itertools.product(COMPOUNDS, repeat=length):
        for ops in itertools.product(OPS, repeat=length - 1):
            r = [cs[0]]
            for o, c in zip(ops, cs[1:]):
                r += [o, c]
            yield r


# ------------------------------------------------------ attributes, compounds
ATTR_TEXTS = [""] + ["".join(p) for n in (1, 2) for p in itertools.product("aB- ", repeat=n)]
ATTR_VALUES = [None, ""] + ["".join(p) for n in (1, 2, 3) for p in itertools.product("aB- ", repeat=n)]
ATTR_OPS = [None, "=", "~=", "|=", "^=", "$=", "*="]


def run_attr(op, text, flag, quote, value):
    sel = "[k" + ("" if op is None else op + quote + text + quote + (" " + flag if flag else "")) + "]"
    n = N("x", None, {} if value is None else {"k": value})
    want = [int(simple_match(n, ("attr", "k", op, text, flag)))]
    equal(matching(sel, real_tree(n)), want, "{} with k={!r}".format(sel, value))
    return want


PARTS = [("name", "a"), ("class", "x"), ("class", "y"), ("id", "i"), ("attr", "k", None, "", ""), ("pseudo", "hover"), ("pseudo", "empty"), ("element", "selection"), ("any",)]


def run_compound(parts, node):
    """node: name, class, id, k, pseudo, element"""
    name, cls, id_, k, pseudo, elt = node
    attrs = {}
    if cls is not None:
        attrs["class"] = cls
    if id_:
        attrs["id"] = id_
    if k is not None:
        attrs["k"] = k
    n = N(name, None, attrs, pseudo, elt)
    text = "".join(map(write_part, parts))
    want = [int(all(simple_match(n, p) for p in parts))]
    equal(matching(text, real_tree(n)), want, "{} on {}".format(text, node))
    return want


NODES = list(itertools.product("ab", [None, "", "x", "y x", "xy", "X"], [None, "i"], [None, "v"], [(), ("hover",)], [(), ("selection",)]))


# ----------------------------------------------------------------- cascade
SELECTORS = [
    [[(("name", "a"),)]],
    [[(("class", "x"),)]],
    [[(("id", "i"),)]],
    [[(("name", "a"), ("class", "x"))]],
    [[(("any",),)]],
    [[(("class", "x"),)], [(("id", "nope"),)]],
    [[(("name", "a"),)], [(("name", "c"), ("class", "x"), ("class", "z"))], [(("any",),)]],
    [[(("name", "c"),), " ", (("name", "a"),)]],
]
# property, value, important
DECLS = [
    [("p", "v", False)],
    [("p", "v", True)],
    [("p", "v", False), ("q", "w", False)],
    [("p", "v", True), ("p", "w", False)],
    [("q", "v", True), ("p", None, False)],
    [("p", "v", False), ("p", "w", False)],
]
#: attributes of a, its parent
TARGETS = [({"class": "x"}, None), ({"class": "x", "id": "i"}, "c"), ({}, "c")]


def rule_text(i, sel, decl):
    return "{} {{ {} }}".format(", ".join(map(write_chain, sel)),
        " ".join("{}: {}{};".format(p, "" if v is None else v + str(i), " !important" if imp else "") for p, v, imp in decl))


def cascade(rules, node):
    """Winning value of each property; rules are (selectors, declarations) with final values"""
    best = {}
    order = 0
    for sel, decl in rules:
        spec = [specificity(c) for c in sel if chain_match(node, c)]
        for p, v, imp in decl:
            order += 1
            if spec and v is not None:
                key = imp, max(spec), order
                if p not in best or key >= best[p][0]:
                    best[p] = key, v
    return {p: v for p, (k, v) in best.items()}


def value_text(values):
    return " ".join(v if isinstance(v, str) else v.text or repr(v) for v in values)


WRAPS = ["{}", "@media m {{ {} }}", "@supports s {{ @media m {{ {} }} }}"]

def run_cascade(rules, wraps, split):
    """rules: indices in SELECTORS, DECLS"""
    from parce.css import StyleSheet
    texts = [WRAPS[w].format(rule_text(i, SELECTORS[s], DECLS[d])) for i, ((s, d), w) in enumerate(zip(rules, wraps))]
    if split is None:
        sheet = StyleSheet.from_text("\n".join(texts))
    else:
        sheet = StyleSheet.from_text("\n".join(texts[:split])) + StyleSheet.from_text("\n".join(texts[split:]))
    model = [(SELECTORS[s], [(p, v and v + str(i), imp) for p, v, imp in DECLS[d]]) for i, (s, d) in enumerate(rules)]
    style = sheet.style
    r = []
    for attrs, parent in TARGETS:
        n = N("a", N(parent) if parent else None, attrs)
        e = real_tree(n.parent or n)[-1]
        got = {p: value_text(v) for p, v in style.select_element(e).properties().items()}
        want = cascade(model, n)
        equal(got, want, "properties of {} in {!r}".format(attrs, texts))
        r.append(sorted(got.items()))
    return r


#: property, value, attribute, result
FORMATS = [("background", "#000001", "background_color"), ("background-color", "#000002", "background_color"), ("color", "#000003", "color"),
    ("font", "bold", "font_weight"), ("font-weight", "bolder", "font_weight"), ("font-weight", "700", "font_weight"),
    ("text-decoration", "underline", "text_decoration_line"), ("text-decoration-line", "overline", "text_decoration_line")]

def format_value(v):
    return (0, 0, int(v[1:]), 1.0) if v.startswith("#") else [v] if v in ("underline", "overline") else int(v) if v.isdigit() else v


def run_short(rules):
    """rules: (selector index, format index, important), two in one rule if the selector is None"""
    from parce.theme import Theme
    import parce.action as a
    sels = [".comment", ".literal.number", ".parce .number", "*"]
    cls = ["comment", "literal number", "literal number", "x"]
    specs = [1, 2, 2, 0]
    text, model = "", []
    for i, (s, f, imp) in enumerate(rules):
        p, v, attr = FORMATS[f]
        d = "{}: {}{};".format(p, v, " !important" if imp else "")
        if s is None:
            text = text[:-1] + " " + d + "}"
            s = rules[i - 1][0]
        else:
            text += "\n" + sels[s] + " { " + d + "}"
        model.append((s, imp, attr, format_value(v)))
    th = Theme(stylesheet=text)
    out = []
    for action, matches in ((a.Comment, (0, 3)), (a.Number, (1, 2, 3)), (a.Name, (3,))):
        want = {}
        for i, (s, imp, attr, v) in sorted(enumerate(model), key=lambda t: (t[1][1], specs[t[1][0]], t[0])):
            if s in matches:
                want[attr] = v
        f = th.textformat(action)
        got = {k: (tuple(v) if k.endswith("color") else v) for k, v in f.__dict__.items() if k in {x[2] for x in FORMATS} and v not in ([], ())}
        equal(got, want, "format of {!r} with {!r}".format(action, text))
        check(th.textformat(action) == f, "another format the second time")
        out.append(sorted(map(str, got.items())))
    return out


# ------------------------------------------------------------------ values
STRING_PIECES = ["a", "f", "4", " ", "\\41", "\\41 ", "\\0", "\\d800", "\\110000", "\\10ffff", "\\ffffff", "\\000041", "\\g", '\\"', "\\'", "\\\\", "\\\n", "\xe9", "\\\xe9", "/*", "{", "\u0663", "\\\u0663"]


def decode(text, newline=True):
    """The meaning of text with escapes."""
    r = []
    i = 0
    while i < len(text):
        if text[i] != "\\":
            r.append(text[i])
            i += 1
            continue
        i += 1
        j = i
        while j < len(text) and j - i < 6 and text[j] in "0123456789abcdefABCDEF":
            j += 1
        if j > i:
            c = int(text[i:j], 16)
            r.append(chr(c) if 0 < c <= 0x10ffff and not 0xd800 <= c < 0xe000 else "\ufffd")
            if text[j:j + 1] == " ":
                j += 1
            i = j
        else:
            if text[i] != "\n":
                r.append(text[i])
            i += 1
    return "".join(r)


def parse_values(value, rest="; r: s"):
    """Values of a declaration, that may not influence its neighbours."""
    from parce.css import StyleSheet
    text = "a { q: x; p: " + value + rest + "} b { t: u }"
    rules = StyleSheet.from_text(text).rules
    equal([(len(r.prelude), sorted(set(r.properties) - {"p"})) for r in rules], [(1, ["q", "r"]), (1, ["t"])], "rules of {!r}".format(text))
    return rules[0].properties["p"]


def run_string(pieces, quote):
    body = "".join(pieces)
    got = parse_values(quote + body + quote)
    equal([(v.text, v.quoted) for v in got], [(decode(body), True)], "string {!r}".format(quote + body + quote))
    got = parse_values("url(" + quote + body + quote + ")")
    equal([v.url for v in got], [decode(body)], "url of {!r}".format(quote + body + quote))
    return decode(body)


IDENT_PIECES = ["a", "-", "_", "4", "\\41", "\\41 ", "\\g", "\\.", "\\0", "\\110000", "\xe9", "\\:", "\\{"]

def run_ident(pieces):
    """An identifier in all its roles."""
    from parce.css import StyleSheet, Element
    ident = "x" + "".join(pieces)
    name = decode(ident)
    rules = StyleSheet.from_text("{0}.{0}#{0}[{0}={0}]:{0}::{0} {{ {0}: {0} , 1{0} , {0}(1) }}".format(ident)).rules
    equal(len(rules), 1, "rules with {!r}".format(ident))
    (p, values), = rules[0].properties.items()
    equal((p, [(v.text, v.unit, v.funcname) for v in values if v != ","]), (name, [(name, None, None), ("1", name, None), (None, None, name)]), "names in declaration with {!r}".format(ident))
    e = Element(name, None, [name], [name], **{"id": name, name: name, "class": name})
    if name.split() == [name]:
        check(e.match(rules[0].prelude), "does not match its names", ident)
        for e in (Element(name + "q", None, [name], [name], **{"id": name, name: name, "class": name}),
                Element(name, None, [name], [name], **{"id": name + "q", name: name, "class": name}),
                Element(name, None, [name], [name], **{"id": name, name: name, "class": name + "q"}),
                Element(name, None, [name], [name], **{"id": name, name: name + "q", "class": name}),
                Element(name, None, [name + "q"], [name], **{"id": name, name: name, "class": name}),
                Element(name, None, [name], [name + "q"], **{"id": name, name: name, "class": name})):
            check(not e.match(rules[0].prelude), "matches other names", ident, e)
    return name


def run_number(sign, mant, exp, unit):
    text = sign + mant + exp
    v, = parse_values(text + unit)
    equal((v.number, v.unit, v.text), (float(text), unit or None, text), "number {!r}".format(text + unit))
    if float(text).is_integer():
        check(isinstance(v.number, int), "not an integer", v.number)
    return v.number


def run_hex(digits):
    from parce.css import color2hex
    v, = parse_values("#" + digits)
    full = "".join(d + d for d in digits) if len(digits) < 6 else digits
    parts = [int(full[i:i + 2], 16) for i in range(0, len(full), 2)]
    want = tuple(parts[:3]) + ((parts[3] / 255 if len(parts) > 3 else 1.0),)
    equal((tuple(v.color), v.text), (want, "#" + digits), "color #" + digits)
    h = color2hex(v.color)
    equal(h, "#" + (full if len(parts) > 3 and parts[3] < 255 else full[:6]).lower(), "color2hex of #" + digits)
    return want


NAMED = {"black": (0, 0, 0), "silver": (192, 192, 192), "gray": (128, 128, 128), "white": (255, 255, 255), "maroon": (128, 0, 0), "red": (255, 0, 0),
    "purple": (128, 0, 128), "fuchsia": (255, 0, 255), "green": (0, 128, 0), "lime": (0, 255, 0), "olive": (128, 128, 0), "yellow": (255, 255, 0), "navy": (0, 0, 128),
    "blue": (0, 0, 255), "teal": (0, 128, 128), "aqua": (0, 255, 255), "orange": (255, 165, 0), "dimgray": (105, 105, 105), "indigo": (75, 0, 130), "transparent": (0, 0, 0)}

def run_named(name):
    v, = parse_values(name)
    equal((v.text, tuple(v.color)), (name, NAMED[name] + ((0,) if name == "transparent" else (1.0,))), "named color")
    return name


RGB = ["0", "1", "127.5", "255", "300", "-1", "0%", "50%", "100%", "200%"]
ALPHA = [None, "0", "0.5", "1", "2", "50%", "0%", "-1"]

def run_rgb(func, comps, alpha, sep):
    args = sep.join(comps)
    if alpha is not None:
        args += (" / " if sep == " " else sep) + alpha
    v, = parse_values("{}({})".format(func, args))
    def exact(t, maximum):
        n = float(t.rstrip("%"))
        if t.endswith("%"):
            n = n * maximum / 100
        return min(max(n, 0), maximum)
    for t, c in zip(comps, v.color):
        check(isinstance(c, int) and abs(c - exact(t, 255)) < 1 and 0 <= c <= 255, "{}({}) became".format(func, args), v.color)
    want = 1.0 if alpha is None else exact(alpha, 1.0)
    check(abs(v.color.a - want) < 1e-9, "{}({}) has alpha".format(func, args), v.color.a)
    return tuple(v.color)


#: text, (kind, value) of every item
ITEMS = [("a", ("text", "a")), ('"b"', ("text", "b")), ("5px", ("number", 5)), ("#123", ("text", "#123")), ("red", ("text", "red")), (",", ","),
    ("url(u)", ("url", "u")), ("url( 'v' )", ("url", "v")), ("url(w\\)w)", ("url", "w)w")), ("f(1, g(x))", ("funcname", "f")), ("/* c */", None), ("rgb(1,2,3)", ("color", (1, 2, 3, 1.0)))]

def run_items(items, important, end):
    got = parse_values(" ".join(ITEMS[i][0] for i in items) + (" !important" if important else ""), end)
    want = [ITEMS[i][1] for i in items if ITEMS[i][1]]
    if important:
        equal(got[-1], "!important", "last value")
        got = got[:-1]
    equal([v if isinstance(v, str) else "value" for v in got], [w if isinstance(w, str) else "value" for w in want], "kinds of values")
    for v, w in zip(got, want):
        if not isinstance(w, str):
            equal(getattr(v, w[0]), w[1], w[0])
            if w[0] == "funcname":
                x, c, y = v.arguments
                equal((x.number, c, y.funcname, [z.text for z in y.arguments]), (1, ",", "g", ["x"]), "arguments")
    return want


# -------------------------------------------------------------- style sheets
#: text, model: ("rule", names, value) / ("cond", keyword, [..]) / ("at", keyword, value or None) / None
SHEET = [
    ("a{{p:{0}}}", ("rule", ["a"])),
    ("a , b {{ p : {0} ; }}", ("rule", ["a", "b"])),
    ("/* a{{p:z}} */", None),
    ("@media m {{a{{p:{0}}}b{{p:{0}}}}}", ("cond", "media", [("rule", ["a"]), ("rule", ["b"])], "m")),
    ("@media m{{}}", ("cond", "media", [], "m")),
    ("@media m;", ("at", "media", False, "m")),
    ("@page :left{{p:{0}}}", ("at", "page", True, ": left")),
    ("@charset 'x';", ("at", "charset", False, "x")),
    ("@supports (x:y) {{ @media z {{a{{p:{0}}}}} b{{p:{0}}} }}", ("cond", "supports", [("cond", "media", [("rule", ["a"])], "z"), ("rule", ["b"])], "x : y")),
    ("@document d {{ @page {{p:{0}}} }}", ("cond", "document", [("at", "page", True, "")], "d")),
    ("a{{}}", ("rule0", ["a"])),
    ("@page a, b{{p:{0}}}", ("at", "page", True, "a , b")),
    ("@x 'y', url(z) w;", ("at", "x", False, "y , z w")),
    ("{{p:{0}}}", ("rule", [])),
]


def contents(values):
    """What is between the keyword and the block of an at-rule, in words."""
    out = [v if isinstance(v, str) else v.text or v.url if hasattr(v, "text") else v[0] for v in values]
    return " ".join(out[:-1] if out[-1:] == [";"] else out)


def describe(rules):
    from parce.css import Atrule, Condition, Rule
    r = []
    for x in rules:
        if isinstance(x, Rule):
            r.append(("rule", [y[0].get("element_selector", ["?"])[0] for y in x.prelude or ()], {k: value_text(v) for k, v in x.properties.items()}))
        elif isinstance(x, Condition):
            r.append(("cond", x.keyword, describe(x.style.rules), contents(x.node)))
        elif isinstance(x, Atrule):
            r.append(("at", x.keyword, x.block and {k: value_text(v) for k, v in x.block.items()}, contents(x.contents)))
        else:
            r.append(repr(x))
    return r


def model_rules(model, value):
    if model[0] == "cond":
        return ("cond", model[1], [model_rules(m, value) for m in model[2]], model[3])
    if model[0] == "at":
        return ("at", model[1], {"p": value} if model[2] else None, model[3])
    return ("rule", model[1], {"p": value} if model[0] == "rule" else {})


def flat(rules):
    for r in rules:
        if r[0] == "cond":
            yield from flat(r[2])
        else:
            yield r


def run_sheet(items, cut):
    from parce.css import StyleSheet
    text = " ".join(SHEET[i][0].format("v%d" % n) for n, i in enumerate(items))
    want = [model_rules(SHEET[i][1], "v%d" % n) for n, i in enumerate(items) if SHEET[i][1]]
    sheet = StyleSheet.from_text(text)
    equal(describe(sheet.rules), want, "rules of {!r}".format(text))
    # conditions
    for keyword in ("media", "supports"):
        for keep in (True, False):
            calls = []
            f = sheet.filter_conditions(keyword, lambda r: (calls.append(r.keyword), keep)[1])
            equal(describe(f.rules), [r for r in want if keep or r[:2] != ("cond", keyword)], "filtered rules of {!r}".format(text))
            equal(calls, [keyword for r in want if r[:2] == ("cond", keyword)], "conditions asked")
    equal(describe(sheet.at.rules), [r for r in flat(want) if r[0] == "at"], "at-rules of {!r}".format(text))
    equal(describe(sheet.at.select("page").rules), [r for r in flat(want) if r[:2] == ("at", "page")], "@page rules of {!r}".format(text))
    rules = [r for r in flat(want) if r[0] == "rule"]
    from parce.css import Element
    for name in "ab":
        ps = [r[2]["p"] for r in rules if name in r[1] and r[2]]
        equal({k: value_text(v) for k, v in sheet.style.select_element(Element(name)).properties().items()}, {"p": ps[-1]} if ps else {}, "properties of {} in {!r}".format(name, text))
    # a truncated sheet
    if cut:
        StyleSheet.from_text(text[:-cut]).style.properties()
    return want


# ------------------------------------------------------------------- imports
FILES = ["f0.css", "sub/f1.css", "f2.css"]
FORMS = ['@import "{}";', "@import url({}) screen;"]

def import_lists(n):
    one = [(t, f) for t in range(3) for f in range(2)]
    for k in range(n + 1):
        yield from itertools.product(one, repeat=k)


def run_import(graph, allow, filtered):
    """graph: for every file the list of (target, form)"""
    from parce.css import Condition, StyleSheet, Element
    d = tempfile.mkdtemp(prefix="mc-c19-")
    try:
        os.mkdir(os.path.join(d, "sub"))
        for i, imports in enumerate(graph):
            up = "../" if i == 1 else ""
            with open(os.path.join(d, FILES[i]), "w") as f:
                for t, form in imports:
                    f.write(FORMS[form].format(("" if i == t == 1 else up) + (FILES[t] if i != 1 or t != 1 else "f1.css")))
                f.write("a {{ p: v{0}; p{0}: v{0} }}".format(i))
        sheet = StyleSheet.from_file(os.path.join(d, FILES[0]), allow_import=allow)
        seen = {0}
        def model(i):
            for t, form in graph[i] if allow else ():
                if t not in seen:
                    seen.add(t)
                    if form:
                        yield "cond", t, list(model(t))
                    else:
                        yield from model(t)
            yield i
        want = list(model(0))
        def real(rules):
            r = []
            for x in rules:
                if isinstance(x, Condition):
                    r.append(("cond", [i for i in range(3) if os.path.join(d, FILES[i]) == x.style.filename][0], real(x.style.rules)))
                else:
                    r.append(int(value_text(x.properties["p"])[1]))
            return r
        equal(real(sheet.rules), want, "rules of imports {}".format(graph))
        names = sheet.filenames()
        equal(sorted(names), sorted(os.path.join(d, FILES[i]) for i in seen), "filenames of imports {}".format(graph))
        equal(names[0], os.path.join(d, FILES[0]), "first filename")
        if filtered:
            sheet = sheet.filter_conditions("import", lambda r: False)
            want = [w for w in want if not isinstance(w, tuple)]
            equal(real(sheet.rules), want, "rules of imports {} without media".format(graph))
        equal(value_text(sheet.style.select_element(Element("a")).properties()["p"]), "v0", "value of the importing file")
        return want
    finally:
        shutil.rmtree(d)


# --------------------------------------------------------------------- data
def run_data(text, enc, bom, declared):
    """load_from_data() with a declared encoding and byte order mark."""
    import codecs
    from parce.css import StyleSheet
    boms = {"utf-8": codecs.BOM_UTF8, "utf-16-le": codecs.BOM_UTF16_LE, "utf-16-be": codecs.BOM_UTF16_BE}
    full = ("" if declared is None else '@charset "{}";'.format(declared)) + 'a { p: "' + text + '" }'
    try:
        data = full.encode(enc)
    except UnicodeError:
        return None
    if bom:
        data = boms[enc] + data
        used = enc
    else:
        used = declared if declared in ("utf-8", "latin1", "cp1252") else "utf-8"
    try:
        want = data[len(boms[enc]) if bom else 0:].decode(used)
    except UnicodeError:
        want = data.decode("utf-8", "replace")
    want = re.search(r'p: "(.*)"', want)
    rules = [r for r in StyleSheet.from_data(data).rules if hasattr(r, "properties")]
    if want:
        equal([r.properties["p"][0].text for r in rules], [want.group(1)], "text of {!r}".format(data))
        return want.group(1)


# ------------------------------------------------------------------ formats
FMT = ["color: red", "color: #0000ff80", "background-color: lime", "caret-color: navy", "text-decoration: underline wavy red", "text-decoration: overline", "font-family: serif",
    'font-family: "A B", monospace', 'font-family: "a\\"b\\\\"', "font-size: 12pt", "font-size: 12", "font-size: large", "font-size: 1.5em", "font-stretch: condensed", "font-stretch: 75%", "font-style: italic", "font-style: oblique 10deg", "font-style: oblique",
    "font-weight: bold", "font-weight: 700", "font-kerning: none", "font-variant-caps: small-caps", "font-variant-position: sub", "", "unknown: x"]
GROUPS = [("color",), ("background_color",), ("caret_color",), ("text_decoration_color", "text_decoration_line", "text_decoration_style"), ("font_family",), ("font_kerning",),
    ("font_size", "font_size_unit"), ("font_stretch",), ("font_style", "font_style_angle", "font_style_angle_unit"), ("font_variant_caps",), ("font_variant_position",), ("font_weight",)]


def make_format(props):
    from parce.css import StyleSheet
    from parce.theme import TextFormat
    return TextFormat(StyleSheet.from_text("a { " + "; ".join(props) + " }").style.properties())


def run_format(f, g):
    a, b = make_format([FMT[i] for i in f]), make_format([FMT[i] for i in g])
    da, db = dict(a.__dict__), dict(b.__dict__)
    equal((a + b).__dict__, {**da, **db}, "sum")
    want = {}
    for group in GROUPS:
        if any(da.get(p) != db.get(p) for p in group):
            want.update((p, da[p]) for p in group if p in da)
    equal((a - b).__dict__, want, "difference")
    equal((b + (a - b)).__dict__, (b + a).__dict__, "b + (a - b)")
    equal((a == b, a != b, bool(a)), (da == db, da != db, bool(da)), "comparison")
    equal((dict(a.__dict__), dict(b.__dict__)), (da, db), "operands after + and -")
    # writing it and reading it back
    css = a.css_properties()
    again = make_format(["{}: {}".format(*i) for i in css.items()])
    drop = lambda d: {k: v for k, v in d.items() if v not in (None, [], ())}
    equal(drop(again.__dict__), drop(da), "format written as {}".format(css))
    return sorted(map(str, da.items()))


# what every declaration means, written down from the CSS specification
RED, BLUE = (255, 0, 0, 1.0), (0, 0, 255, 1.0)
COLORS = [("red", RED), ("#00f", BLUE), ("rgb(0, 0, 255)", BLUE), ("rgba(255, 0, 0, 1)", RED), ("inherit", None)]
SIZES = [(s, (s, None)) for s in "xx-small x-small small medium large x-large xx-large xxx-large larger smaller".split()] + [("12pt", (12, "pt")), ("1.5em", (1.5, "em")), ("120%", (120, "%")), ("0", (0, None))]
STRETCH = "ultra-condensed extra-condensed condensed semi-condensed semi-expanded expanded extra-expanded ultra-expanded".split()
GENERIC = "serif sans-serif monospace cursive fantasy system-ui math emoji fangsong".split()
FAMILIES = [(g, [g]) for g in GENERIC] + [('"A B"', ["A B"]), ("'serif', monospace", ["serif", "monospace"]), ('"A", "B", serif', ["A", "B", "serif"])]
LINES = ["underline", "overline", "line-through"]
DECO = ["solid", "double", "dotted", "dashed", "wavy"]
STYLES = [("italic", ("italic", None, None)), ("oblique", ("oblique", None, None)), ("oblique 10deg", ("oblique", 10, "deg")), ("oblique 0.5rad", ("oblique", 0.5, "rad")), ("oblique -20grad", ("oblique", -20, "grad")), ("oblique 0.1turn", ("oblique", 0.1, "turn"))]
ATTRS = [a for g in GROUPS for a in g]

def size_attrs(s):
    return dict(font_size=s[0], font_size_unit=s[1])

def style_attrs(s):
    return dict(font_style=s[0], font_style_angle=s[1], font_style_angle_unit=s[2])

@functools.cache
def longhands():
    """All (property, value, attributes)."""
    r = []
    for prop, attr in (("color", "color"), ("background-color", "background_color"), ("background", "background_color"), ("caret-color", "caret_color"), ("text-decoration-color", "text_decoration_color")):
        r += [(prop, t, {attr: c} if c else {}) for t, c in COLORS]
    r += [("background", "url(x.png) no-repeat " + t, {"background_color": c} if c else {}) for t, c in COLORS]
    for n in range(4):
        for lines in itertools.permutations(LINES, n):
            r.append(("text-decoration-line", " ".join(lines) or "none", dict(text_decoration_line=list(lines))))
    for prop, attr, values in (
            ("text-decoration-style", "text_decoration_style", DECO),
            ("font-kerning", "font_kerning", ["auto", "normal", "none"]),
            ("font-stretch", "font_stretch", STRETCH),
            ("font-variant-caps", "font_variant_caps", "normal small-caps all-small-caps petite-caps all-petite-caps unicase titling-caps".split()),
            ("font-variant-position", "font_variant_position", ["normal", "sub", "super"]),
            ("font-weight", "font_weight", ["normal", "bold", "lighter", "bolder"])):
        r += [(prop, v, {attr: v}) for v in values]
        r += [(prop, v, {}) for v in ("bogus", "inherit")]
    r += [("font-weight", str(n), dict(font_weight=n)) for n in range(100, 1000, 100)]
    r += [("font-stretch", "{}%".format(n), dict(font_stretch=n)) for n in (50, 62.5, 100, 200)]
    r += [("font-family", t, dict(font_family=f)) for t, f in FAMILIES]
    r += [("font-size", t, size_attrs(s)) for t, s in SIZES]
    r += [("font-style", t, style_attrs(s)) for t, s in STYLES + [("normal", ("normal", None, None))]]
    return r


def attrs_of(fmt):
    return {a: list(v) if a in ("font_family", "text_decoration_line") else tuple(v) if isinstance(v, tuple) else v for a, v in ((a, getattr(fmt, a)) for a in ATTRS)}


def run_read(decls, want):
    """The format read from the declarations; later ones add to the earlier."""
    got = attrs_of(make_format(["{}: {}".format(*d) for d in decls]))
    full = dict.fromkeys(ATTRS)
    full.update(font_family=[], text_decoration_line=[])
    full.update(want)
    equal(got, full, "format of {}".format(decls))
    return sorted(map(str, want.items()))


@functools.cache
def decorations():
    """All text-decoration shorthands."""
    r = []
    for n in range(4):
        for lines in itertools.combinations(LINES, n):
            for style in [None] + DECO:
                for t, c in [(None, None)] + COLORS[:3]:
                    words = ([" ".join(lines)] if lines else []) + ([style] if style else []) + ([t] if t else [])
                    want = dict(text_decoration_line=list(lines))
                    if style:
                        want["text_decoration_style"] = style
                    if c:
                        want["text_decoration_color"] = c
                    for order in itertools.permutations(words):
                        if order:
                            r.append((" ".join(order), want))
    return r


def fonts(style, quick):
    """All font shorthands with that style."""
    for caps in (None, "small-caps"):
        for weight in (None, "bold", "lighter", "bolder", 100, 400, 900):
            for stretch in (None, STRETCH[0], STRETCH[4]):
                words, want = [], {}
                for w, a in ((style[0], style_attrs(style[1])) if style else (None, {}), (caps, dict(font_variant_caps=caps)), (weight, dict(font_weight=weight)), (stretch, dict(font_stretch=stretch))):
                    if w:
                        words.append(str(w))
                        want.update(a)
                for order in itertools.permutations(words):
                    for t, s in SIZES[::4] if quick else SIZES:
                        for ft, f in FAMILIES[8:11] if quick else FAMILIES:
                            yield " ".join(order + (t, ft)), dict(want, font_family=f, **size_attrs(s))


@functools.cache
def actions():
    import parce.action
    from parce.standardaction import StandardAction
    todo = [v for v in vars(parce.action).values() if isinstance(v, StandardAction)]
    return sorted({repr(x): x for x in todo}.items())


def theme_rules(sheet):
    """Model rules from the parsed structure of a theme file."""
    from parce.css import Condition
    out = []
    for r in sheet.rules:
        if isinstance(r, Condition) or not hasattr(r, "prelude"):
            continue
        sel = []
        for selectors in r.prelude:
            chain = []
            for s in selectors:
                if isinstance(s, str):
                    chain.append(s)
                else:
                    c = []
                    for k, vs in s.items():
                        kind = {"element_selector": "name", "class_selector": "class", "id_selector": "id", "pseudo_class": "pseudo", "pseudo_element": "element"}[k]
                        c += [(kind, v[0] if kind == "pseudo" else v) for v in vs]
                    chain.append(tuple(c))
            sel.append(chain)
        out.append((sel, [(p, v[:-1] if v[-1] == "!important" else v, v[-1] == "!important") for p, v in r.properties.items()]))
    return out


def run_theme(name, case):
    """Every action of a bundled theme; or every role and state."""
    import parce
    from parce.css import StyleSheet
    from parce.theme import TextFormat
    import parce.themes
    th = parce.theme_by_name(name)
    files = th.filenames()
    rules = theme_rules(StyleSheet.from_file(files[0]))
    check(len(rules) > 5, "theme has no rules", name)
    if case is None:
        out = []
        for label, action in actions():
            n = N("", N("", None, {"class": "parce"}), {"class": " ".join(p.lower() for p in label.split("."))})
            want = TextFormat(cascade(rules, n))
            got = th.textformat(action)
            equal(got.__dict__, want.__dict__, "format of {} in theme {}".format(label, name))
            out.append(str(got))
        return out
    role, state = case
    n = N("", None, {"class": "parce" if role in ("window", "selection") else "parce " + role}, [state] if state != "default" else [], ["selection"] if role == "selection" else [])
    want = TextFormat(cascade(rules, n))
    got = th.baseformat(role, state)
    equal(got.__dict__, want.__dict__, "format of {} ({}) in theme {}".format(role, state, name))
    return str(got)


# ------------------------------------------------------------------- shards
KINDS = {}

def kind(f):
    KINDS[f.__name__[6:]] = f
    return f


def go(rec, runner, **case):
    out = rec.run(dict(case, runner=runner.__name__), lambda: runner(**case))
    rec.outcome((runner.__name__, repr(out)))
    return out


@kind
def cases_chain(rec, length, size, first, quick):
    for chain in chains(length):
        if COMPOUNDS.index(chain[0]) != first:
            continue
        for t, m, nodes, elements in tree_pool(size):
            want = [int(chain_match(n, chain)) for n in nodes]
            go(rec, run_chain, chain=chain, t=t, spaces=len(nodes) % 2 == 0, lxml=size <= 3)
            rec.state((size, str(t)))


@kind
def cases_pseudo(rec, size, first, quick):
    for t, *_ in tree_pool(size):
        for c in PCOMPOUNDS[first::4]:
            go(rec, run_chain, chain=[c], t=t, spaces=True, lxml=size <= 3)
            for op in OPS if size < 5 or not quick else ():
                for d in ((("name", "b"),), (("pseudo", "empty"),)):
                    go(rec, run_chain, chain=[c, op, d], t=t, spaces=False, lxml=False)
            rec.state((size, str(t)))


@kind
def cases_attr(rec, op, quick):
    for text in ATTR_TEXTS if op else [""]:
        for flag in ("", "i", "I", "s") if op else [""]:
            for quote in ('"', "'", "") if text.isalpha() else ('"', "'"):
                for value in ATTR_VALUES:
                    go(rec, run_attr, op=op, text=text, flag=flag, quote=quote, value=value)
                    rec.state((op, text, flag, value))


@kind
def cases_compound(rec, count, first, quick):
    for parts in itertools.permutations(PARTS, count):
        if PARTS.index(parts[0]) != first or any(p[0] in ("name", "any") for p in parts[1:]):
            continue
        for node in NODES:
            go(rec, run_compound, parts=parts, node=node)
            rec.state(parts)


@kind
def cases_cascade(rec, count, first, quick):
    all_ = list(itertools.product(range(len(SELECTORS)), range(len(DECLS))))
    for rest in itertools.product(all_, repeat=count - 1):
        if quick and count == 3 and (rest[0][1] not in (0, 1, 4) or rest[1][1] not in (0, 1, 3)):
            continue
        rules = (all_[first],) + rest
        for wraps in itertools.product(range(3), repeat=count) if count < 3 else [(0,) * count]:
            for split in ([None] + list(range(1, count)) if count < 3 else [None]):
                go(rec, run_cascade, rules=rules, wraps=wraps, split=split)
        rec.state(rules)


@kind
def cases_short(rec, count, first, quick):
    all_ = list(itertools.product((None, 0, 1, 2, 3), range(len(FORMATS)), (False, True)))
    if all_[first][0] is None:
        return
    for rest in itertools.product(all_, repeat=count - 1):
        go(rec, run_short, rules=(all_[first],) + rest)
        rec.state(rest)


@kind
def cases_string(rec, first, quick):
    for n in range(3 if quick else 4):
        for rest in itertools.product(STRING_PIECES, repeat=n):
            for quote in "'\"":
                go(rec, run_string, pieces=(first,) + rest, quote=quote)
            rec.state((first,) + rest)


@kind
def cases_ident(rec, first, quick):
    for n in range(3 if quick else 4):
        for rest in itertools.product(IDENT_PIECES, repeat=n):
            go(rec, run_ident, pieces=(first,) + rest)
            rec.state((first,) + rest)


@kind
def cases_values(rec, quick):
    for sign, mant, exp, unit in itertools.product(["", "+", "-"], ["0", "5", "12", "1.5", ".5", "0.0", "00.10"], ["", "e2", "E-1", "e+1", "e10"], ["", "px", "%", "em", "x2", "\xe9"]):
        go(rec, run_number, sign=sign, mant=mant, exp=exp, unit=unit)
    for digits in itertools.chain(itertools.product("018fA", repeat=3), itertools.product("018fA", repeat=4), itertools.product(["00", "0f", "80", "FF", "a9"], repeat=3), itertools.product(["00", "0f", "80", "FF", "a9"], repeat=4)):
        go(rec, run_hex, digits="".join(digits))
    for name in NAMED:
        go(rec, run_named, name=name)


@kind
def cases_alpha(rec, quick):
    for a in range(256):
        go(rec, run_hex, digits="12fe80{:02x}".format(a))


@kind
def cases_rgb(rec, first, quick):
    for rest in itertools.product(RGB, repeat=2):
        for alpha in ALPHA:
            for sep in (", ", " ", ","):
                for func in ("rgb", "rgba"):
                    go(rec, run_rgb, func=func, comps=(first,) + rest, alpha=alpha, sep=sep)


@kind
def cases_items(rec, first, quick):
    for n in range(3 if quick else 4):
        for rest in itertools.product(range(len(ITEMS)), repeat=n):
            items = (first,) + rest
            if all(ITEMS[i][1] is None for i in items):
                continue
            for important in (False, True):
                go(rec, run_items, items=items, important=important, end="; r: s")
            rec.state(items)


@kind
def cases_sheet(rec, first, quick):
    for n in range(3 if quick else 4):
        for rest in itertools.product(range(len(SHEET)), repeat=n):
            for cut in ((0, 1, 2, 3, 5) if quick or n < 3 else (0,)):
                go(rec, run_sheet, items=(first,) + rest, cut=cut)
            rec.state(rest)


@kind
def cases_import(rec, first, quick):
    lists = list(import_lists(2))
    small = list(import_lists(1))
    for graph in itertools.product([lists[first]], small if quick else lists, small if quick else lists):
        for allow, filtered in ((True, False), (True, True), (False, False)) if quick else ((True, True),):
            go(rec, run_import, graph=graph, allow=allow, filtered=filtered)
        rec.state(graph)


@kind
def cases_data(rec, quick):
    for text in ["", "a", "\xe9", "\u20ac", "\xe9\u20ac", "\U0001f600"]:
        for enc, bom in [("utf-8", False), ("utf-8", True), ("latin1", False), ("cp1252", False), ("utf-16-le", True), ("utf-16-be", True)]:
            for declared in (None, "utf-8", "latin1", "cp1252", "bogus", "hex", ""):
                go(rec, run_data, text=text, enc=enc, bom=bom, declared=declared)


@kind
def cases_format(rec, first, quick):
    for f in [(first,)] + [(first, j) for j in range(len(FMT))]:
        for g in [(j,) for j in range(len(FMT))] + ([] if quick else list(itertools.combinations(range(len(FMT)), 2))):
            go(rec, run_format, f=f, g=g)
        rec.state(f)


@kind
def cases_read(rec, what, quick):
    longs = longhands()
    if what == "pairs":
        # two different properties do not influence each other
        for a in longs:
            go(rec, run_read, decls=[a[:2]], want=a[2])
            for b in longs:
                if a[0] != b[0] and {a[0], b[0]} != {"background", "background-color"}:
                    go(rec, run_read, decls=[a[:2], b[:2]], want={**a[2], **b[2]})
            rec.state(a[:2])
    elif what == "decorations":
        for text, want in decorations():
            go(rec, run_read, decls=[("text-decoration", text)], want=want)
            rec.state(text)
    elif what == "system":
        for name in "caption icon menu message-box small-caption status-bar".split():
            go(rec, run_read, decls=[("font", name)], want=dict(font_family=[name]))
    else:
        for text, want in fonts(([None] + STYLES)[what], quick):
            go(rec, run_read, decls=[("font", text)], want=want)
            rec.state(text)


@kind
def cases_theme(rec, name, quick):
    go(rec, run_theme, name=name, case=None)
    for role in ("window", "selection", "current-line", "eol", "xyz"):
        for state in ("default", "focus", "disabled"):
            go(rec, run_theme, name=name, case=(role, state))


THEMES = ["dark", "debug", "default", "pastel", "solarized-dark", "solarized-light", "terminal"]

def shards(tier):
    quick = tier == "quick"
    r = []
    for size in range(1, 6):
        for length in (1, 2, 3) if quick or size > 4 else (1, 2, 3, 4):
            r += [["chain", dict(length=length, size=size, first=f)] for f in range(len(COMPOUNDS))]
        r += [["pseudo", dict(size=size, first=f)] for f in range(4)]
    r += [["attr", dict(op=op)] for op in ATTR_OPS]
    for count in (1, 2, 3) if quick else (1, 2, 3, 4):
        r += [["compound", dict(count=count, first=f)] for f in range(len(PARTS))]
    for count in (1, 2, 3):
        r += [["cascade", dict(count=count, first=f)] for f in range(len(SELECTORS) * len(DECLS))]
    for count in (1, 2) if quick else (1, 2, 3):
        r += [["short", dict(count=count, first=f)] for f in range(5 * len(FORMATS) * 2)]
    r += [["string", dict(first=p)] for p in STRING_PIECES]
    r += [["ident", dict(first=p)] for p in IDENT_PIECES]
    r += [["values", {}], ["alpha", {}], ["data", {}]]
    r += [["rgb", dict(first=c)] for c in RGB]
    r += [["items", dict(first=i)] for i in range(len(ITEMS))]
    r += [["sheet", dict(first=i)] for i in range(len(SHEET))]
    r += [["import", dict(first=i)] for i in range(43)]
    r += [["format", dict(first=i)] for i in range(len(FMT))]
    r += [["read", dict(what=w)] for w in ["pairs", "decorations", "system", *range(1 + len(STYLES))]]
    r += [["theme", dict(name=n)] for n in THEMES]
    for s in r:
        s[1]["quick"] = quick
    return r


def bounds(tier):
    return ("all selector chains of up to {} compounds and 4 combinators on all element trees of up to 5 elements with 2 names; all attribute tests on values of up to 3 characters; compounds of up to {} parts; "
        "all sheets of up to 3 rules from {} selectors x {} declaration lists; strings of up to {} pieces from {}; colors, numbers, value lists of up to 3 items; sheets of up to {} items from {}; all import graphs of 3 files with up to 2 imports; all pairs of text format declarations, all text-decoration and font shorthands from the values in the module; all bundled themes x all actions").format(
        *((3, 3, len(SELECTORS), len(DECLS), 3, len(STRING_PIECES), 3, len(SHEET)) if tier == "quick" else (4, 4, len(SELECTORS), len(DECLS), 4, len(STRING_PIECES), 4, len(SHEET))))


def run_shard(shard, rec):
    KINDS[shard[0]](rec, **shard[1])


def replay(case, rec):
    case = dict(case)
    runner = globals()[case.pop("runner")]
    args = {k: list(totuple(v)) if k == "chain" else v if k in ("t", "want") else totuple(v) for k, v in case.items()}
    rec.run(case, lambda: runner(**args))
