"""C06: transforms of text, of trees, and incrementally updated ones agree."""
import itertools

import parce
from parce import Language, lexicon
import parce.action as A
from parce import Document
from parce.lexer import Lexer
from parce.rule import derive, MATCH, arg
from parce.transform import Item, ItemList, Transform, Transformer, add_untransformed, transform_text, transform_tree
from parce.tree import Context, Token
from parce.treebuilder import TreeBuilder, build_tree
from parce.work import Worker

from mc import langs
from mc.core import Violation, check, equal
from mc.edits import strings, apply, inverse, global_edits

LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all edit histories within bounds on the real worker and transformer, against a reference transform computed from the lexer events"
RULE = ("states = (language, assignment of transform methods, text); every text in the bound is transformed from text and from tree, every edit in the bound is applied "
        "to a document whose transform is kept up to date, and reverted; an outcome is a distinct transform result")
ASSUMPTIONS = ["transform methods only depend on the items they are given; token positions are read when the result is used"]


class Inner(Language):
    @lexicon
    def root(cls):
        yield r'>', A.Delimiter, -1
        yield r'\(', A.Delimiter, cls.par
        yield r'a', A.Name

    @lexicon
    def par(cls):
        yield r'\)', A.Delimiter, -1
        yield r'\]', A.Delimiter, -2
        yield r'>', A.Delimiter, -2
        yield r'a', A.Number
        yield r'<', A.Bracket, Outer.root


class Outer(Language):
    @lexicon
    def root(cls):
        yield r'\(', A.Delimiter, cls.par
        yield r'<', A.Bracket, Inner.root
        yield r'\[', A.Bracket, cls.par, Inner.root, Inner.par
        yield r'a', A.Text
        yield r'\]', A.Invalid, -1

    @lexicon
    def par(cls):
        yield r'\)', A.Delimiter, -1
        yield from cls.root


class Multi(Language):
    """Several pops and pushes at once between lexicons with and without a method."""
    @lexicon
    def root(cls):
        yield r'x', A.Name, cls.p, cls.q
        yield r'y', A.Name, cls.q
        yield r'a', A.Text

    @lexicon(consume=True)
    def p(cls):
        yield r'x', A.Number, -1, cls.q, cls.p
        yield r'y', A.Number, -2
        yield r'z', A.Number, 1
        yield r'a', A.Text

    @lexicon
    def q(cls):
        yield r'x', A.Keyword, -2, cls.q
        yield r'y', A.Keyword, -1, cls.p, cls.p
        yield r'z', A.Keyword, -3
        yield r'a', A.Text


PLANS = {
    # name: (root, languages, alphabet, longest text, paddings for the edit histories)
    "outer": (Outer.root, (Outer, Inner), "(<[a])>", 4, [("", ""), ("a(<a(a", "a)a>)a"), ("(a)<(a)>[a", "]a(a)")]),
    "multi": (Multi.root, (Multi,), "xyza", 5, [("", ""), ("xayaxz", "azay"), ("axazy", "xxaya")]),
    "nest": (langs.Nest.root, (langs.Nest,), "([a)]", 4, [("", ""), ("a(a(a[a", "]a)(a)a"), ("(a)(a)(a", ")a[a]a")]),
    "heredoc": (langs.Heredoc.root, (langs.Heredoc,), "<ab", 6, [("", ""), ("a<ab<bab", "bab<aaa"), ("<a<b<a", "bab")]),
    "groups": (langs.Groups.root, (langs.Groups,), "a=b</>", 4, [("", ""), ("a=b<ab", "/>b<aa=b/>"), ("<a<a", "/>/>b")]),
    "consume": (langs.Consume.root, (langs.Consume,), '"{a}', 5, [("", ""), ('a"a{a"', '"a}a"a'), ('"a"{"a', 'a"}')]),
    "defaults": (langs.Defaults.root, (langs.Defaults,), "a.;{}", 3, [("", ""), ("a{a.b;", "c}a;")]),
    "skipper": (langs.Skipper.root, (langs.Skipper,), "(ab)]", 4, [("", ""), ("(a)ab(", "a)a)b")]),
}


def lexicons_of(lang):
    return sorted(n for n in dir(lang) if type(getattr(lang, n)).__name__ == "Lexicon")


def make_transform(lang, assignment):
    ns = {}
    for name, mode in assignment:
        if mode:
            def meth(self, items, name=name):
                check(type(items) is ItemList, "no ItemList given")
                return (name, items.arg, list(items))
            meth.__name__ = name
            if mode == 2:
                meth = add_untransformed(meth)
            ns[name] = meth
    return type(lang.__name__ + "Transform", (Transform,), ns)()


def assignments(languages):
    """All assignments (language index, lexicon) -> 0 none / 1 method / 2 method that wants untransformed contexts."""
    slots = [(i, n) for i, l in enumerate(languages) for n in lexicons_of(l)]
    for modes in itertools.product((1, 0, 2), repeat=len(slots)):
        yield [(i, n, m) for (i, n), m in zip(slots, modes)]


def make_transformer(languages, assignment):
    t = Transformer()
    for i, l in enumerate(languages):
        a = [(n, m) for j, n, m in assignment if j == i]
        t.add_transform(l, make_transform(l, a) if any(m for n, m in a) else None)
    return t


# ---- reference ---------------------------------------------------------

def plain(lexicon, text):
    """[lexicon, children...] from the events; a token is (pos, text, action, group)."""
    root = [lexicon]
    stack = [root]
    for target, lexemes in Lexer([lexicon]).events(text):
        if target:
            for _ in range(-target.pop):
                stack.pop()
            for l in target.push:
                c = [l]
                stack[-1].append(c)
                stack.append(c)
        n = len(lexemes)
        for i, (p, t, act) in enumerate(lexemes):
            stack[-1].append((p, t, act, None if n == 1 else i if i < n - 1 else -i))
    return root


def canon_plain(node):
    return ("ctx", node[0], [canon_plain(n) if isinstance(n, list) else n for n in node[1:]])


def reference(node, modes):
    """modes: {(language, name): mode}"""
    lex = node[0]
    mode = modes.get((lex.language, lex.name), 0)
    if not mode:
        return None
    items = []
    for n in node[1:]:
        if isinstance(n, tuple):
            items.append(n)
        else:
            l = n[0]
            if modes.get((l.language, l.name), 0):
                items.append((l.name, reference(n, modes)))
            elif mode == 2:
                items.append(("<untransformed>", canon_plain(n)))
    return (lex.name, lex.arg, items)


def norm(obj):
    """Plain form of a real result."""
    if obj is None:
        return None
    if isinstance(obj, Context):
        return ("ctx", obj.lexicon, [norm_item(n, obj) for n in obj])
    name, arg, items = obj
    return (name, arg, [norm_item(i) for i in items])


def norm_item(i, parent=None):
    if i.is_token:
        check(i.end == i.pos + len(i.text), "token end")
        if parent is not None:
            check(i.parent is parent, "parent link of a token in an untransformed context")
        return (i.pos, i.text, i.action, i.group)
    if isinstance(i, Context):
        check(parent is not None and i.parent is parent, "parent link in an untransformed context")
        return norm(i)
    return (i.name, norm(i.obj))


class Setup:
    def __init__(self, name, assignment):
        self.name, self.assignment = name, assignment
        self.root, self.languages = PLANS[name][:2]
        self.modes = {(self.languages[i], n): m for i, n, m in assignment}
        self.t = make_transformer(self.languages, assignment)

    def want(self, text, root=False):
        root = self.root if root is False else root
        return None if root is None else reference(plain(root, text), self.modes)


def run_text(s, text, rec):
    """transform_text == transform_tree == reference."""
    rec.transitions += 1
    want = s.want(text)
    equal(norm(s.t.transform_text(s.root, text)), want, "transform_text {!r}".format(text))
    tree = build_tree(s.root, text)
    equal(norm(s.t.transform_tree(tree)), want, "transform_tree {!r}".format(text))
    equal(norm(s.t.transform_tree(tree)), want, "transform_tree again, from the cache {!r}".format(text))
    rec.outcome(repr(want))


def run_history(s, how, text, history, rec):
    """how: "worker" | "builder" | "both": a document with a worker; a connected tree builder; a transformer shared by two documents."""
    rec.transitions += 1
    t = make_transformer(s.languages, s.assignment)
    root = s.root
    w = None
    if how == "builder":
        b = TreeBuilder(root)
        t.connect_treebuilder(b)
        b.rebuild(text)
        get = lambda: t.result(b.root)
        def edit(e, new):
            b.rebuild(new, False, e[0], e[1], len(e[2]))
    else:
        d = Document(root, text, worker=Worker(TreeBuilder(root)))
        d.set_transformer(t)
        get = lambda: d.get_transform(True)
        def edit(e, new):
            d[e[0]:e[0] + e[1]] = e[2]
        if how == "both":
            d2 = Document(root, text + "a", worker=Worker(TreeBuilder(root), t))
    if text:    # an empty new document is not transformed yet
        equal(norm(get()), s.want(text), "transform of {!r}".format(text))
    for e in history:
        if e[0] == "lex":
            root = ROOTS[e[1]]
            if how == "builder":
                b.rebuild(text, root)
            else:
                d.set_root_lexicon(root)
        elif e[0] == "off":
            # edits while there is no transformer
            if how != "builder":
                d.set_transformer(None)
                equal(d.get_transform(True), None, "transform without transformer")
            continue
        elif e[0] == "on":
            if how != "builder":
                d.set_transformer(t)
        elif e[0] == "swap":
            if how != "builder":
                t = make_transformer(s.languages, s.assignment)
                d.set_transformer(t)
        else:
            text = apply(text, e)
            edit(e, text)
        if how != "builder" and d.transformer() is None:
            continue
        w = s.want(text, root)
        equal(norm(get()), w, "transform of {!r} after {!r}".format(text, e))
        if how == "both":
            equal(norm(d2.get_transform(True)), s.want(d2.text()), "transform of the other document")
            d2[0:0] = "a"
            equal(norm(d2.get_transform(True)), s.want(d2.text()), "transform of the other document, edited")
    rec.outcome(repr(w))


ROOTS = {"none": None}


class Walk:
    """One document kept alive over many edits that are applied and reverted."""
    def __init__(self, s, text, rec):
        self.s, self.text, self.rec = s, text, rec
        t = make_transformer(s.languages, s.assignment)
        self.d = Document(s.root, text, worker=Worker(TreeBuilder(s.root), t))
        if text:    # an empty new document is not transformed yet
            self.check()

    def check(self):
        self.rec.transitions += 1
        w = self.s.want(self.text)
        equal(norm(self.d.get_transform(True)), w, "transform of {!r}".format(self.text))
        self.rec.outcome(repr(w))

    def there_and_back(self, e):
        inv = inverse(self.text, e)
        for x in (e, inv):
            self.text = apply(self.text, x)
            self.d[x[0]:x[0] + x[1]] = x[2]
            self.check()


def edits_of(name, text):
    alphabet = PLANS[name][2]
    for e in global_edits(text, ["", *alphabet]):
        if e[1] <= 2:
            yield e


def explore_edits(name, assignment, text, rec):
    s = Setup(name, assignment)
    w = None
    rec.state((name, tuple(map(tuple, assignment)), text))
    for e in edits_of(name, text):
        case = dict(plan=name, assignment=assignment, how="worker", text=text, history=[list(e), list(inverse(text, e))])
        n = len(rec.violations)
        def go():
            nonlocal w
            if w is None:
                w = Walk(s, text, rec)
            w.there_and_back(e)
        rec.run(case, go)
        if len(rec.violations) > n:
            w = None


def explore_pairs(name, assignment, text, how, rec):
    """All pairs of edits, fresh document each."""
    s = Setup(name, assignment)
    alphabet = PLANS[name][2]
    for e in edits_of(name, text):
        new = apply(text, e)
        for e2 in global_edits(new, ["", *alphabet]):
            if e2[1] > 1:
                continue
            h = [list(e), list(e2)]
            rec.run(dict(plan=name, assignment=assignment, how=how, text=text, history=h), run_history, s, how, text, h, rec)


def explore_mixed(name, assignment, text, rec):
    """All sequences of three of: edits, transformer off/on/swap, root lexicon changes."""
    s = Setup(name, assignment)
    alphabet = PLANS[name][2]
    ops = [[0, 0, alphabet[0]], [len(text) // 2, 1, ""], [len(text) // 2, 0, alphabet[-2]], ["off"], ["on"], ["swap"], ["lex", "none"], ["lex", name]]
    for how in ("worker", "builder", "both"):
        for h in itertools.product(ops, repeat=3):
            if how != "worker" and any(o[0] in ("off", "on", "swap") for o in h):
                continue
            n = len(text)
            ok = True
            for o in h:     # edits must stay inside the text
                if isinstance(o[0], int):
                    if o[0] + o[1] > n:
                        ok = False
                    n += len(o[2]) - o[1]
            if not ok:
                continue
            rec.run(dict(plan=name, assignment=assignment, how=how, text=text, history=list(h)), run_history, s, how, text, list(h), rec)


# ---- ItemList ------------------------------------------------------------

def run_items(kinds, rec):
    rec.transitions += 1
    toks = {"T": A.Text, "N": A.Name}
    items = ItemList("arg")
    for i, k in enumerate(kinds):
        items.append(Token(None, i, k, toks[k]) if k in toks else Item(k, i))
    equal(items.arg, "arg", "arg")
    equal([t.pos for t in items.tokens()], [i for i, k in enumerate(kinds) if k in toks], "tokens()")
    equal([tuple(t) for t in items.items()], [(k, i) for i, k in enumerate(kinds) if k not in toks], "items()")
    for names in (("a",), ("a", "b"), ("b", "a"), ("a", "b", "c"), ("c", "a")):
        want = []
        cur = None
        last = -1
        for i, k in enumerate(kinds):
            if k in names:
                j = names.index(k)
                if cur is None or j <= last:
                    cur = [None] * len(names)
                    want.append(cur)
                cur[j] = i
                last = j
        equal([list(g) for g in items.grouped_objects(*names)], want, "grouped_objects{!r} of {!r}".format(names, kinds))
    values = [toks.get(k, k) for k in kinds]
    for n in range(0, 3):
        for vals in itertools.product([A.Text, A.Name, "a", "b"], repeat=n):
            for index in range(-len(kinds) - 2, len(kinds) + 2):
                i = index + len(kinds) if index < 0 else index
                want = i >= 0 and i + n <= len(kinds) and values[i:i + n] == list(vals)
                equal(bool(items.peek(index, *vals)), want, "peek({}, *{!r}) of {!r}".format(index, vals, kinds))
    rec.outcome(kinds)


# ---- finding transforms --------------------------------------------------

def run_find(rec):
    """Automatic lookup of the transform classes next to the language."""
    from parce.lang.json import Json, JsonTransform
    from parce.lang.css import Css
    rec.transitions += 1
    t = Transformer()
    check(type(t.get_transform(Json)) is JsonTransform, "JsonTransform not found")
    check(t.get_transform(Json) is t.get_transform(Json), "transform not kept")
    t.add_transform(Json, None)
    check(t.get_transform(Json) is None, "None not kept")
    check(t.transform_text(Json.root, "[1]") is None, "transform not disabled")
    check(t.transform_tree(parce.root(Json.root, "[1]")) is None, "transform not disabled")
    for txt in ("[1, 2]", "{}", ""):
        tree = parce.root(Json.root, txt)
        a, b = transform_text(Json.root, txt), transform_tree(tree)
        equal(a, b, "convenience functions")
    t = Transformer()
    t.transform_name_template = "{}Trans"
    check(t.get_transform(Json) is None, "name template not used")
    equal(transform_text(None, "x") if False else Transformer().transform_text(None, "x"), None, "no root lexicon")
    rec.outcome("find")


# ---- shards --------------------------------------------------------------

def bounds(tier):
    q = tier == "quick"
    return ("{} languages x all assignments of (no method, method, method wanting untransformed contexts) to their lexicons; all texts up to length {}; "
        "all edits (remove <= 2, insert <= 1) at all positions of padded texts and their reverts; pairs of edits; all 3-step sequences of edits, transformer and root lexicon changes; "
        "all ItemLists up to length {}").format(len(PLANS), "3-5" if q else "4-6", 4 if q else 5)


def shards(tier):
    q = tier == "quick"
    out = [["find"]]
    for name, (root, languages, alphabet, n, pads) in PLANS.items():
        if q:
            n -= 1
        nass = 3 ** sum(len(lexicons_of(l)) for l in languages)
        # text: distribute the assignments over shards
        k = max(1, min(nass, nass * (len(alphabet) ** n) // 12000))
        for i in range(k):
            out.append(["text", name, n, i, k])
        k = max(1, nass // 8)
        for i in range(k):
            out.append(["edits", name, 0 if q and nass > 81 else 1, i, k])
        out.append(["pairs", name, q])
        out.append(["mixed", name, q])
    for first in "TNabc":
        out.append(["items", first, 4 if q else 5])
    return out


def some(assign, n):
    """A fixed spread of n assignments (those with a root method)."""
    l = [a for a in assign if a[[x[1] for x in a].index("root")][2]]
    step = max(1, len(l) // n)
    return l[::step][:n]


def run_shard(shard, rec):
    kind = shard[0]
    if kind == "find":
        rec.run(dict(find=1), run_find, rec)
    elif kind == "items":
        for n in range(0, shard[2]):
            for k in itertools.product("TNabc", repeat=n):
                kinds = shard[1] + "".join(k)
                rec.run(dict(items=kinds), run_items, kinds, rec)
        rec.run(dict(items=""), run_items, "", rec)
    else:
        ROOTS[shard[1]] = PLANS[shard[1]][0]
        name = shard[1]
        languages, alphabet = PLANS[name][1:3]
        assign = list(assignments(languages))
        if kind == "text":
            for a in assign[shard[3]::shard[4]]:
                s = Setup(name, a)
                if s.modes.get((s.root.language, "root")) == 0:
                    ts = strings(alphabet, 2)
                else:
                    ts = strings(alphabet, shard[2])
                for text in ts:
                    rec.state((name, str(a), text))
                    rec.run(dict(plan=name, assignment=a, how="text", text=text), run_text, s, text, rec)
        elif kind == "edits":
            for a in assign[shard[3]::shard[4]]:
                for pre, post in PLANS[name][4]:
                    for mid in strings(alphabet, shard[2]):
                        explore_edits(name, a, pre + mid + post, rec)
        elif kind == "pairs":
            for a in some(assign, 3 if shard[2] else 9):
                for how in ("worker", "builder"):
                    for text in strings(alphabet, 1 if shard[2] else 2):
                        explore_pairs(name, a, text, how, rec)
        elif kind == "mixed":
            for a in some(assign, 4 if shard[2] else 12):
                pre, post = PLANS[name][4][-1]
                explore_mixed(name, a, pre + post, rec)


def replay(case, rec):
    if "find" in case:
        rec.run(case, run_find, rec)
    elif "items" in case:
        rec.run(case, run_items, case["items"], rec)
    else:
        ROOTS[case["plan"]] = PLANS[case["plan"]][0]
        s = Setup(case["plan"], case["assignment"])
        if case["how"] == "text":
            rec.run(case, run_text, s, case["text"], rec)
        else:
            rec.run(case, run_history, s, case["how"], case["text"], case["history"], rec)
