"""Toy languages, each made to reach one mechanism of the lexer/tree builder.

PLANS maps a name to a dict:
    root      the root lexicon
    alphabet  the characters the exhaustive part is made of
    prefixes  left paddings (more than 10 tokens, different open contexts/groups)
    suffixes  right paddings
    inserts   extra multi-character insertions
"""
import re

from parce import Language, lexicon, default_action, default_target, skip
from parce.rule import bygroup, arg, ARG, MATCH, TEXT, ifeq, ifmember, derive, using
import parce.action as a


class Nest(Language):
    @lexicon
    def root(cls):
        yield r'\(', a.Delimiter, cls.par
        yield r'\[', a.Bracket, cls.par, cls.brk
        yield r'\w+', a.Name

    @lexicon
    def par(cls):
        yield r'\)', a.Delimiter, -1
        yield from cls.root

    @lexicon
    def brk(cls):
        yield r'\]', a.Bracket, -2
        yield from cls.root


class Consume(Language):
    @lexicon
    def root(cls):
        yield r'"', a.String, cls.string
        yield r'\{', a.Delimiter, cls.block
        yield r'\w', a.Name

    @lexicon(consume=True)
    def string(cls):
        yield r'"', a.String, -1
        yield r'\{', a.Delimiter, cls.block
        yield default_action, a.Text

    @lexicon(consume=True)
    def block(cls):
        yield r'\}', a.Delimiter, -1
        yield from cls.root


class Groups(Language):
    @lexicon
    def root(cls):
        yield r'(a+)(=)(b)?', bygroup(a.Name, a.Operator, a.Literal)
        yield r'(<)(a)(>)?', bygroup(a.Delimiter, a.Name, a.Delimiter), cls.tag
        yield r'b', a.Number

    @lexicon
    def tag(cls):
        yield r'(/)(>)', bygroup(a.Delimiter, a.Delimiter), -1
        yield from cls.root


class GroupConsume(Language):
    """Groups that open a consuming context."""
    @lexicon
    def root(cls):
        yield r'(<)(a)', bygroup(a.Delimiter, a.Name), cls.tag
        yield r'b', a.Number

    @lexicon(consume=True)
    def tag(cls):
        yield r'(/)(>)', bygroup(a.Delimiter, a.Delimiter), -1
        yield r'>', a.Delimiter, -1
        yield from cls.root


class Heredoc(Language):
    @lexicon
    def root(cls):
        yield r'<(\w)', a.Delimiter, derive(cls.doc, MATCH[1])
        yield r'\w', a.Name

    @lexicon
    def doc(cls):
        yield arg(), a.Delimiter, -1
        yield r'<(\w)', a.Delimiter, derive(cls.doc, MATCH[1])
        yield r'\w', a.Text


class Defaults(Language):
    """Like CSS: contexts entered and left by default targets."""
    @lexicon
    def root(cls):
        yield r'\s+', skip
        yield r'\}', a.Invalid
        yield default_target, cls.stmt

    @lexicon
    def stmt(cls):
        yield r';', a.Delimiter, -1
        yield r'\{', a.Bracket, -1, cls.body
        yield r'\s+', skip
        yield default_target, cls.sel, cls.name

    @lexicon
    def sel(cls):
        yield r'\.', a.Delimiter, cls.name
        yield default_target, -1

    @lexicon
    def name(cls):
        yield r'[a-c]+', a.Name
        yield default_target, -1

    @lexicon
    def body(cls):
        yield r'\}', a.Bracket, -1
        yield r'\s+', skip
        yield default_target, cls.stmt


class Look(Language):
    """Lookahead over up to seven following tokens, and lookbehind."""
    @lexicon
    def root(cls):
        yield r'x(?=.{0,6}!)', a.Keyword
        yield r'(?<=!)y', a.Comment
        yield r'\S', a.Name


class Comment(Language):
    """One character changes everything up to the end of the text."""
    @lexicon
    def root(cls):
        yield r'/\*', a.Comment, cls.comment
        yield r"'", a.String, cls.string
        yield r'[a\n]+', a.Name
        yield r'[/*]', a.Operator

    @lexicon
    def comment(cls):
        yield r'\*/', a.Comment, -1
        yield default_action, a.Comment

    @lexicon
    def string(cls):
        yield r"\\.", a.Escape
        yield r"'", a.String, -1
        yield r"\n", a.Invalid, -1
        yield default_action, a.String


class Skipper(Language):
    """Tokens and gaps; zero width targets; several pops and pushes at once."""
    @lexicon
    def root(cls):
        yield r'\(', a.Delimiter, cls.one, cls.two, cls.three
        yield r'a', a.Name
        yield r'(?=b)', None, cls.bees
        yield r's', skip

    @lexicon
    def one(cls):
        yield r'\)', a.Delimiter, -1
        yield r'a', a.Text

    @lexicon
    def two(cls):
        yield r'\)', a.Delimiter, -2
        yield r'\(', a.Delimiter, -1, cls.three
        yield r'a', a.Number

    @lexicon
    def three(cls):
        yield r'\)', a.Delimiter, -1
        yield r'\]', a.Delimiter, -3
        yield r'\(', a.Delimiter, 1
        yield r'a', a.String
        yield r's', skip, -1

    @lexicon
    def bees(cls):
        yield r'b+', a.Bracket
        yield default_target, -1


class Tags(Language):
    """Contexts whose closing depends on the derived argument; groups; consume."""
    @lexicon
    def root(cls):
        yield r'(<)(\w)(>)', bygroup(a.Delimiter, a.Name.Tag, a.Delimiter), derive(cls.tag, MATCH[2])
        yield r'(<)(/)(\w)(>)', bygroup(a.Delimiter, a.Delimiter, a.Invalid, a.Delimiter)
        yield default_action, a.Text

    @lexicon
    def tag(cls):
        yield r'(<)(/)(\w)(>)', bygroup(a.Delimiter, a.Delimiter, a.Name.Tag, a.Delimiter), \
            ifeq(MATCH[3], ARG, -1, 0)
        yield from cls.root


class Using(Language):
    """Sub-lexing of matched text and actions computed from the text."""
    @lexicon
    def root(cls):
        yield r'\((\w*)\)', using(cls.inner)
        yield r'\w', ifmember(TEXT, "ab", a.Name, a.Number)
        yield r'=', a.Operator, 1

    @lexicon
    def inner(cls):
        yield r'a', a.Keyword
        yield r'[()]', a.Delimiter
        yield default_action, a.Text


class Line(Language):
    """Line oriented: ^ and $ anchors, newline terminated contexts."""
    @lexicon(re_flags=re.MULTILINE)
    def root(cls):
        yield r'^#', a.Comment, cls.line
        yield r'^a', a.Special
        yield r'a$', a.Keyword
        yield r'[a#]', a.Text

    @lexicon(re_flags=re.MULTILINE)
    def line(cls):
        yield r'$', None, -1
        yield r'a', a.Comment
        yield r'#', a.Escape


def plan(root, alphabet, prefixes, suffixes, inserts=(), others=()):
    return dict(root=root, alphabet=alphabet, prefixes=prefixes, suffixes=suffixes,
        inserts=inserts, others=others)


PLANS = {
    "nest": plan(Nest.root, "([a)] ",
        ["", "a a a a a a a a a a a a ", "(a(a[a a a a(a a a a)a ", "[([a a a a a a a a a a a ][a a "],
        ["", " a a", ") a) a", "]a)(a)]a a"], ["(a)", "[ a"]),
    "consume": plan(Consume.root, '"{a} ',
        ["", 'aaaaaaaaaaaa', '"a"{a"b"aaaa"a{', '{{{a"a"a"{a"a"}aaa', 'aaaaaaaaaaaa"'],
        ["", 'a', '"a"', '}a"a}', '"a{a"}'], ['"a"']),
    "groups": plan(Groups.root, "a=b</>",
        ["", "a=ba=ba=ba=ba=ba=ba=b", "<ab<a>a=bbbbbbb<aa=/>a=b", "bbbbbbbbbbbbbba="],
        ["", "b", "=b", ">/>b", "a=b/>a=b"], ["a=b", "<a"]),
    "groupconsume": plan(GroupConsume.root, "<ab/>",
        ["", "bbbbbbbbbbbb", "<ab<abbbbbbbb<a", "<a<a<a<a<a<abb/>/>", "bbbbbbbbbbb<"],
        ["", "b", "ab", ">b/>b"], ["<a", "/>"]),
    "heredoc": plan(Heredoc.root, "<ab",
        ["", "ababababababab", "<ab<ba<bbabbbb<a", "<a<b<a<b<a<b<a<b<a<b<a<b"],
        ["", "a", "ba", "<abab", "bbbbbabab"], ["<a"]),
    "defaults": plan(Defaults.root, "a.;{} ",
        ["", "a;a;a;a;a;a;a;", "a{a.a;b;c{a;a.b.c;a{ab.c;", "a{a{a{a{a{a{a{a{", "a.b.c.a.b.c.a.b"],
        ["", "b", ".b;", "};a}", "b.c{a;}"], ["a{", ".a"]),
    "look": plan(Look.root, "xy!",
        ["", "xxxxxxxxxxxx", "xyx!xyxyxyxyx", "xxxxxxxxxxxxxxxxxxxxx!y"],
        ["", "x!", "yx", "!yxxxx!"], []),
    "comment": plan(Comment.root, "/*'\\a\n",
        ["", "a/a*a/a*a/a*a/a*", "a/**/a'a'a/*a*/a/a/a/a/*", "a/a/a/a/a/a/a'a\\'"],
        ["", "a", "/a", "*/a'a'", "'a/**/a"], ["/*", "*/"]),
    "skipper": plan(Skipper.root, "(ab)s]",
        ["", "aaaaaaaaaaaa", "(a)a(a]aaaaaa(a)a(a", "(((((((((((((a", "abbabbabbabsasaba"],
        ["", "a", ")a)a)a", "]ba", "bbsb"], ["(a"]),
    "tags": plan(Tags.root, "<ab/>",
        ["", "<a>x<b>x</b>x<b>x</b></a>", "<a><b><a><b><a>", "a<a>a<a>a</b>a</a>a</a>a<"],
        ["", "</a>", "b></a>a", "a</b>a</a>a"], ["<a>", "</a>"]),
    "using": plan(Using.root, "(a1=)",
        ["", "a1a1a1a1a1a1a1", "a(a1)(1a1)a(aaaa)(aa)a", "a=a=1=a=a=a=a"],
        ["", "a)", "1(a)", "=a"], ["(a)"]),
    "line": plan(Line.root, "a#\n",
        ["", "#aaa\naaaa\n#aa\n", "a\na\na\na\na\na\n", "aaaaaaaaaaaaaa#"],
        ["", "a", "\na", "a\n#a\na"], ["\n#"]),
}


def alt_roots():
    """Root lexicons used for root lexicon changes: (name, lexicon or None)."""
    return [("none", None), ("nest", Nest.root), ("par", Nest.par), ("doc", Heredoc.doc),
            ("doc-a", Heredoc.doc("a")), ("doc-b", Heredoc.doc("b")), ("string", Consume.string),
            ("heredoc", Heredoc.root)]
