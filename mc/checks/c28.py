"""C28: strings, comments and brackets of the bundled programming and typesetting languages end where the language says."""
import itertools
import re

import parce
import parce.action as A

from mc.core import Violation, check, equal

LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration of source texts, parsed by the real languages, against a character scanner per language written from the language's definition"
RULE = "every sequence of fragments up to the bound, at the top and inside the frames; an outcome is a distinct classification of the characters"
ASSUMPTIONS = ["texts that are errors in the language (a line end in a string, a bracket that closes nothing) are not asked",
    "JavaScript: a slash after a name or a closing bracket is not asked (division or regular expression depends on the grammar)",
    "C: character constants and a backslash at the end of a line are not asked (the language definition has neither)",
    "CSS: no comments in attribute selectors; Tcl: a # right after an opening bracket or at the start of a continuation line, braces in comments and inside words, and substitution in strings are not asked",
    "Bash: words, quotes, comments and command substitution; a # after a quote, escape or option in the same word is not asked"]


class Skip(Exception):
    """The text is not asked."""


# A scanner returns (classes, openers, open): a class for every character ("c" comment, "s" string,
# "." anything else), the positions of the last character of all opening brackets, and of those that are still open.

class Scan:
    def __init__(self, text):
        self.text = text
        self.pos = 0
        self.classes = []
        self.openers = []
        self.stack = []

    def at(self, s):
        return self.text.startswith(s, self.pos)

    def take(self, n, cls):
        self.classes += cls * n
        self.pos += n
        if self.pos > len(self.text):
            raise Skip

    def more(self):
        return self.pos < len(self.text)

    def until(self, end, cls, include=True):
        """To the end text; it must be there if included"""
        i = self.text.find(end, self.pos)
        if i < 0:
            if include:
                raise Skip
            i = len(self.text)
        elif include:
            i += len(end)
        self.take(i - self.pos, cls)

    def open(self, n, close, cls="."):
        self.take(n, cls)
        self.openers.append(self.pos - 1)
        self.stack.append((close, self.pos - 1))

    def close(self, n, close, cls="."):
        if not self.stack or self.stack.pop()[0] != close:
            raise Skip
        self.take(n, cls)

    def quoted(self, quote, escape="\\", newline=False):
        """A string; its first quote is at the position"""
        self.take(len(quote), "s")
        while not self.at(quote):
            if not self.more() or (self.at("\n") and not newline):
                raise Skip
            if escape and self.at(escape):
                self.take(1, "s")
                if self.at("\n") and not newline:
                    raise Skip
            self.take(1, "s")
        self.take(len(quote), "s")

    def result(self):
        return "".join(self.classes), self.openers, [p for c, p in self.stack if p is not None]


PAIRS = {"(": ")", "{": "}", "[": "]"}


def brackets(s, pairs="(){}[]"):
    """Handle a bracket."""
    c = s.text[s.pos]
    if c in pairs[::2]:
        s.open(1, pairs[pairs.index(c) + 1])
    elif c in pairs[1::2]:
        s.close(1, c)
    else:
        return False
    return True


def scan_c(text):
    s = Scan(text)
    while s.more():
        if s.at("/*"):
            s.take(2, "c")
            s.until("*/", "c")
        elif s.at("//"):
            s.until("\n", "c", False)
        elif s.at('"'):
            s.quoted('"')
        elif s.at("'") or s.at("\\"):
            raise Skip
        elif s.at("#include <"):
            s.take(9, ".")
            s.until(">", "x")
        elif not brackets(s, "(){}"):
            s.take(1, ".")
    return s.result()


def scan_javascript(text):
    s = Scan(text)
    before = ""     # last significant character
    while s.more():
        c = s.text[s.pos]
        if s.at("/*"):
            s.take(2, "c")
            s.until("*/", "c")
            continue
        if s.at("//"):
            s.until("\n", "c", False)
            continue
        if c in "'\"":
            s.quoted(c)
        elif c == "`":
            template(s)
        elif c == "}" and s.stack and s.stack[-1][0] == "}`":
            s.close(1, "}`")
            template(s, True)
        elif c == "/":
            if before and before not in "=(,;:[{!&|?+":
                raise Skip
            s.take(1, ".")
            inside = False
            while not s.at("/") or inside:
                if not s.more() or s.at("\n"):
                    raise Skip
                if s.at("\\"):
                    s.take(1, ".")
                    if s.at("\n"):
                        raise Skip
                elif s.at("["):
                    inside = True
                elif s.at("]"):
                    inside = False
                s.take(1, ".")
            s.take(1, ".")
            c = "/"
        elif c == "\\":
            raise Skip
        elif not brackets(s):
            s.take(1, ".")
        if not c.isspace():
            before = c
    return s.result()


def template(s, go_on=False):
    if not go_on:
        s.take(1, "s")
    while not s.at("`"):
        if not s.more():
            raise Skip
        if s.at("${"):
            s.open(2, "}`")
            return
        if s.at("\\"):
            s.take(1, "s")
        s.take(1, "s")
    s.take(1, "s")


def scan_css(text):
    s = Scan(text)
    while s.more():
        if s.at("/*"):
            if s.stack and s.stack[-1][0] == "]":
                raise Skip
            s.take(2, "c")
            s.until("*/", "c")
        elif s.at('"') or s.at("'"):
            s.quoted(s.text[s.pos])
        elif s.at("\\"):
            s.take(1, ".")
            if s.at("\n"):
                raise Skip
            s.take(1, ".")
        elif not brackets(s, "{}[]"):
            s.take(1, ".")
        elif any(c == "]" for c, p in s.stack[:-1]):
            raise Skip
    return s.result()


def scan_lilypond(text):
    s = Scan(text)
    words = "\\markup" in text or "\\lyricmode" in text       # where words can have a % inside
    while s.more():
        if s.stack and s.text.startswith("\\header") and (s.at("{") or s.at("<<")):
            raise Skip
        if words and s.at("%") and s.pos and not s.text[s.pos - 1].isspace() and s.text[s.pos - 1] not in '{}"':
            raise Skip
        if s.at("%{"):
            s.take(2, "c")
            s.until("%}", "c")
        elif s.at("%"):
            s.until("\n", "c", False)
        elif s.at('"'):
            s.quoted('"', newline=True)
        elif words and (s.at("<<") or s.at(">>")):
            raise Skip
        elif s.at("<<"):
            s.open(2, ">>")
        elif s.at(">>") and s.stack and s.stack[-1][0] == ">>":
            s.close(2, ">>")
        elif s.at("<") or s.at(">"):
            raise Skip
        elif s.at("\\"):
            m = re.compile(r"\\[a-z]+(?![a-z])").match(text, s.pos)
            if not m:
                raise Skip
            s.take(len(m.group()), ".")
        elif not brackets(s, "{}"):
            s.take(1, ".")
    return s.result()


def in_math(s):
    return any(c[0] == "$" or c in ("\\]", "\\)") or "math" in c for c, p in s.stack)


def scan_latex(text):
    s = Scan(text)
    while s.more():
        if s.at("%"):
            s.until("\n", "c", False)
        elif s.at("\\begin{") or s.at("\\end{"):
            m = re.compile(r"\\(begin|end)\{(\w+\*?)\}").match(text, s.pos)
            if not m or in_math(s):
                raise Skip
            if m.group(1) == "begin":
                s.open(len(m.group()), "\\end{" + m.group(2) + "}")
            else:
                s.close(len(m.group()), m.group())
        elif s.at("\\[") or s.at("\\("):
            if in_math(s):
                raise Skip
            s.open(2, "\\]" if s.at("\\[") else "\\)")
        elif s.at("\\]") or s.at("\\)"):
            s.close(2, s.text[s.pos:s.pos + 2])
        elif s.at("\\"):
            s.take(1, ".")
            if not s.more() or s.at("\n"):
                raise Skip
            s.take(1, ".")
        elif s.at("$"):
            # math
            m = "$$" if s.at("$$") else "$"
            top = s.stack[-1][0] if s.stack else None
            if top == m:
                s.stack.pop()
            elif in_math(s):
                raise Skip
            else:
                s.stack.append((m, None))
            s.take(len(m), ".")
        elif not brackets(s, "{}"):
            s.take(1, ".")
    return s.result()


def scan_texinfo(text):
    s = Scan(text)
    while s.more():
        if s.at("@c ") or s.at("@comment "):
            s.until("\n", "c", False)
        elif s.at("@ignore\n"):
            s.until("@end ignore", "c")
            if s.text[s.pos - 12] != "\n":
                raise Skip
            if s.more() and not s.at("\n"):
                raise Skip
        elif s.at("@verbatim\n"):
            s.until("@end verbatim", ".")
            if s.text[s.pos - 14] != "\n":
                raise Skip
            if s.more() and not s.at("\n"):
                raise Skip
        elif s.at("@a{"):
            s.open(3, "}")
        elif s.at("@"):
            s.take(1, ".")
            if not s.more() or s.text[s.pos] not in "@{}":
                raise Skip
            s.take(1, ".")
        elif s.at("{"):
            raise Skip
        elif not brackets(s, "{}"):
            s.take(1, ".")
    return s.result()


def scan_troff(text):
    s = Scan(text)
    while s.more():
        if s.at('\\"') or s.at("\\#"):
            s.until("\n", "c", False)
        elif s.at("\\"):
            s.take(1, ".")
            if not s.more() or s.at("\n"):
                raise Skip
            s.take(1, ".")
        elif s.at('"'):
            line = s.text[s.text.rfind("\n", 0, s.pos) + 1:s.pos]
            if not line.startswith(".a ") or not line.endswith(" ") or "\\" in line or '"' in line:
                raise Skip
            s.take(1, "s")
            while s.more() and not s.at('"') and not s.at("\n"):
                if s.at('\\"') or s.at("\\#"):
                    s.until("\n", "c", False)
                elif s.at("\\"):
                    s.take(2, "x")
                    if s.text[s.pos - 1] == "\n":
                        raise Skip
                else:
                    s.take(1, "s")
            if s.at('"'):
                s.take(1, "s")
        else:
            s.take(1, ".")
    return s.result()


def scan_tcl(text):
    """Tcl's rules for words, without the contents of braces being scripts or not."""
    s = Scan(text)
    start = True        # of a command
    word = True         # of a word
    while s.more():
        c = s.text[s.pos]
        if start and c == "#":
            if s.text[:s.pos].rstrip(" ")[-1:] in ("[", "{"):
                raise Skip
            p = s.pos
            s.until("\n", "c", False)
            if s.text[s.pos - 1] == "\\" or (s.stack and any(x in s.text[p:s.pos] for x in "{}]")):
                raise Skip
            continue
        if c == "\\":
            s.take(1, ".")
            if not s.more():
                raise Skip
            if s.at("\n"):
                s.take(1, ".")
                word = True
                if s.text[s.pos:].lstrip()[:1] == "#":
                    raise Skip      # a comment sign at the start of a continuation line
                continue
            s.take(1, ".")
            start = word = False
            continue
        if c in " \t":
            s.take(1, ".")
            word = True
            continue
        if c in "\n;":
            s.take(1, ".")
            start = word = True
            continue
        if c == '"':
            if not word or any(c == "}" for c, p in s.stack):
                raise Skip
            tcl_string(s)
            word = False
        elif c == "{":
            if not word:
                raise Skip
            s.open(1, "}")
            start = word = True
            continue
        elif c == "[":
            s.open(1, "]")
            start = word = True
            continue
        elif c in "]}":
            s.close(1, c)
            word = False
        else:
            s.take(1, ".")
            word = False
        start = False
    return s.result()


def tcl_string(s):
    s.take(1, "s")
    while not s.at('"'):
        if not s.more() or s.at("[") or s.at("$"):
            raise Skip
        if s.at("\\"):
            s.take(1, "x")      # an escape: no matter which class
            s.take(1, "x")
            continue
        s.take(1, "s")
    s.take(1, "s")
    if s.more() and s.text[s.pos] not in " \n;]":
        raise Skip


def scan_bash(text):
    """Words, quotes, comments, command substitution."""
    s = Scan(text)
    word = False        # in a word
    while s.more():
        c = s.text[s.pos]
        if c == "#" and not word:
            s.until("\n", "c", False)
        elif c == "'":
            s.quoted("'", None, True)
            word = True
        elif c == '"':
            word = bash_string(s)
        elif c == "\\":
            s.take(1, ".")
            if not s.more():
                raise Skip
            word = word or not s.at("\n")
            if s.at("$("):
                raise Skip
            s.take(1, ".")
        elif s.at("$((") or s.at("(("):
            raise Skip
        elif s.at("$("):
            s.open(2, ")")
            word = False
        elif c == ")":
            top = s.stack[-1] if s.stack else None
            if top is None or top[0][0] != ")":
                raise Skip
            s.close(1, top[0])
            word = True
            if top[0] == ')"':
                word = bash_string(s, True)
        elif c == "`":
            if s.stack and s.stack[-1][0] in ("`", '`"'):
                top = s.stack[-1][0]
                s.close(1, top)
                word = True
                if top == '`"':
                    word = bash_string(s, True)
            elif any(x[0] == "`" for x, p in s.stack):
                raise Skip
            else:
                s.open(1, "`")
                word = False
        elif s.at("${"):
            bash_parameter(s, "}")
            word = bash_string(s, True) if s.stack and s.stack[-1][0] == "dq" else True
        elif c == "(":
            if not bash_start(s):
                raise Skip
            s.open(1, ")")
            word = False
        elif s.at("{ "):
            if not bash_start(s):
                raise Skip
            s.open(1, "}")
            word = False
        elif c == "}":
            if not bash_start(s) or s.text[:s.pos].rstrip()[-1:] == "{" or s.text[s.pos + 1:s.pos + 2] not in ("", " ", "\n", ";"):
                raise Skip
            s.close(1, "}")
            word = True
        elif c in "{$" or (c == ";" and bash_start(s)):
            raise Skip
        elif c == "<":
            m = re.compile(r"<<(-?)(?:(\w+)|'(\w+)')\n").match(s.text, s.pos)
            if not m or s.stack or not s.text[:s.pos].endswith("a "):
                raise Skip
            name = m.group(2) or m.group(3)
            end = re.compile("^" + ("\t*" if m.group(1) else "") + name + "$", re.M).search(s.text, m.end())
            if not end or re.search("^\t*" + name + "[ \t]+$", s.text[m.end():end.start()], re.M) or "`" in s.text[m.end():end.start()] or "$" in s.text[m.end():end.start()]:
                raise Skip
            s.take(len(m.group()) - 1, "x")
            s.take(1, "x")
            s.take(end.end() - s.pos, ".")
            word = False
            if s.more() and not s.at("\n"):
                raise Skip
        elif c == "#":
            if re.search(r"[^ \n;]*$", s.text[:s.pos]).group().strip("a#") or s.text[max(s.pos - 2, 0)] == "\\":
                raise Skip      # after quotes, escapes and options
            s.take(1, ".")
        else:
            s.take(1, ".")
            word = c not in " \n;|&"
    return s.result()


def bash_start(s):
    """At the start of a command"""
    t = s.text[:s.pos].rstrip(" ")
    return not t or t[-1] in "\n;" or len(t) - 1 in s.openers


def bash_parameter(s, close):
    """${name...} without quotes"""
    s.take(2, ".")
    while not s.at("}"):
        if not s.more() or not (s.text[s.pos].isalnum() or s.text[s.pos] in ":-"):
            raise Skip
        s.take(1, ".")
    s.take(1, ".")


def bash_string(s, go_on=False):
    if not go_on:
        s.take(1, "s")
    while not s.at('"'):
        if not s.more():
            raise Skip
        if s.at("$(("):
            raise Skip
        if s.at("$("):
            s.open(2, ')"')
            return False
        if s.at("`"):
            if any(x[0] == "`" for x, p in s.stack):
                raise Skip
            s.open(1, '`"')
            return False
        if s.at("${"):
            bash_parameter(s, "}")
            continue
        if s.at("$"):
            raise Skip
        if s.at("\\"):
            s.take(1, "s")
        s.take(1, "s")
    s.take(1, "s")
    return True


def language(name):
    return {"c": "c.C", "javascript": "javascript.JavaScript", "css": "css.Css", "lilypond": "lilypond.LilyPond", "latex": "tex.Latex", "texinfo": "texinfo.Texinfo",
        "troff": "troff.Troff", "tcl": "tcl.Tcl", "bash": "bash.Bash"}[name]


ROOTS = {}

def root_lexicon(name):
    if name not in ROOTS:
        mod, cls = language(name).split(".")
        import importlib
        ROOTS[name] = getattr(importlib.import_module("parce.lang." + mod), cls).root
    return ROOTS[name]


# name -> [(set name, frames, fragments, quick bound, thorough bound)]
SETS = {
    "c": [
        ("text", [("", "")], ['"', "\\", "/", "*", "//", "/*", "*/", "\n", "a", "(", ")", "{", "}", " "], 5, 6),
        ("instring", [('"', '"'), ('a("', '");'), ('{ "', '" } // x\n')], ['\\"', "\\\\", "\\n", "\\", "/*", "//", "a", "'", "(", "}", "\\u0041", "?"], 4, 5),
        ("incomment", [("/*", "*/"), ("//", "\n"), ("a /*", "*/ b"), ("(/*", "*/)")], ["*", "/", '"', "\n", "\\", "TODO", "a", "http://x.y", "a@b.c", "(", "}", "*/"], 4, 5),
        ("code", [("", ""), ("{", "}"), ("f(", ")")], ["a", " ", "(", ")", "{", "}", '"x"', "/*y*/", "//z\n", "#include <b.h>\n", "#include \"/*.h\"\n", "#define a ", "struct ", "1", ";"], 4, 5),
    ],
    "javascript": [
        ("text", [("", "")], ['"', "'", "`", "\\", "//", "/*", "*/", "\n", "a", "(", ")", "${", "}", " "], 5, 6),
        ("instring", [('"', '"'), ("'", "'"), ("`", "`"), ("a('", "')")], ['\\"', "\\'", "\\\\", "\\n", "/*", "//", "a", "'", '"', "`", "(", "\\u0041", "\\`", "$", "{"], 4, 5),
        ("template", [("`", "`"), ("a(`", "`)"), ("`${", "}`"), ("`a${{", "}}`")], ["${", "}", "`", "a", "\\$", "$", "{", "'", '"}"', "\n", "\\`", "//x\n", "/*}*/"], 4, 5),
        ("regexp", [("a = /", "/;"), ("(/", "/)"), ("/", "/g;\n'x'")], ["\\/", "[", "]", "/", "'", '"', "a", "\\\\", "*", "(", "`", "\\["], 4, 5),
        ("code", [("", ""), ("{", "}"), ("f(", ")"), ("[", "]")], ["a", ".b", "(", ")", "[", "]", "{", "}", "'x'", "/*y*/", "//z\n", " ", "1", ";", ":", ","], 4, 5),
    ],
    "css": [
        ("text", [("", ""), ("a{", "}"), ("a{b:", "}")], ['"', "'", "\\", "/*", "*/", "*", "\n", "a", "{", "}", ":", ";", " "], 4, 5),
        ("instring", [('a{b:"', '"}'), ("a{b:'", "'}"), ('a[b="', '"]{}'), ('@x "', '";')], ['\\"', "\\'", "\\\\", "\\", "/*", "*/", "a", "'", '"', "{", "}", "\\41 "], 4, 5),
        ("media", [("@media a{", "}"), ("@supports (b:c){", "}"), ("", "")], ["b{}", "c{d:e}", "/*}*/", "@x{f:g}", "@media b{", "}", " ", 'h{i:"}"}', "@y;", "b,c{}", "\n"], 4, 5),
        ("atrule", [("@a ", ";b{c:d}"), ("@a{", "}")], ["b", "{", "}", ";", ":", '"x"', "/*y*/", "@c ", " ", "\n"], 4, 5),
    ],
    "lilypond": [
        ("text", [("", ""), ("{", "}"), ("a = ", "\n"), ("\\lyricmode {", "}"), ("\\markup {", "}"), ("\\header {", "}"), ("\\score { \\new Staff {", "} \\layout { } }"), ("c^\\markup { \\bold {", "} } d")], ['"', "%", "%{", "%}", "\n", "c", "{", "}", "<<", ">>", " ", "'"], 4, 5),
        ("instring", [('"', '"'), ('a = "', '"\n'), ('{ c "', '" }')], ['\\"', "\\\\", "%", "%{", "%}", "c", "{", "}", "\n", "\\", "#", "'"], 4, 5),
        ("incomment", [("%{", "%}"), ("%", "\n"), ("{ c %{", "%} d }"), ("a = %", "\n{}")], ["%", "{", "}", '"', "\n", "\\", "TODO", "c", "http://x.y", "%}", "%{"], 4, 5),
    ],
    "latex": [
        ("text", [("", ""), ("{", "}"), ("\\a{", "}")], ["%", "\\%", "\\\\", "\n", "a", "{", "}", "\\{", "\\}", " ", "&"], 5, 6),
        ("math", [("", ""), ("$", "$"), ("$$", "$$"), ("{", "}")], ["$", "$$", "\\$", "%", "\n", "{", "}", "x", "\\a ", "1"], 4, 5),
        ("environments", [("", ""), ("\\begin{a}", "\\end{a}"), ("{", "}")], ["\\begin{b}", "\\end{b}", "\\begin{math}", "\\end{math}", "\\[", "\\]", "\\(", "\\)", "{", "}", "%", "\n", "x", "$"], 4, 5),
        ("incomment", [("%", "\n"), ("{%", "\n}"), ("a % ", "\n\\b{}")], ["%", "{", "}", "\\", "a", "TODO", "$", "\n", "\\%"], 5, 6),
    ],
    "texinfo": [
        ("text", [("", ""), ("@a{", "}")], ["@c ", "@comment ", "@ignore\n", "@end ignore", "@verbatim\n", "@end verbatim", "\n", "a", "@a{", "}", "@@", "@{", "@}", " "], 5, 6),
    ],
    "troff": [
        ("text", [("", ""), (".a ", "\n"), ('.a "', '"\n'), ('.a b "', '" c\n')], ['\\"', "\\#", "\\\\", "\\&", "\n", "a", "#", "'", " ", "\\"], 5, 6),
    ],
    "tcl": [
        ("text", [("", ""), ("a ", "\n"), ("[a ", "]")], ['"', "#", ";", "\\", "\n", "a", "{", "}", "[", "]", " "], 5, 6),
        ("nested", [("", ""), ("a [b ", "]"), ("a {", "}"), ("set a [b {c ", "}]")], [")", "$a(x)", "$b ", "[", "]", "{", "}", " ", "c", "\n", "#", ";"], 4, 5),
    ],
    "bash": [
        ("text", [("", ""), ("a ", "\n"), ("$(a ", ")"), ('a "', '"')], ['"', "'", "#", "\\", "\n", "a", "$(", ")", " ", ";", "-x"], 5, 6),
        ("nested", [("", ""), ("a ", "\n"), ('a "', '"'), ("a `", "`"), ("(", ")"), ("{ ", "; }")], ["`", "${a}", "${a:-b}", "(", ")", "{ ", "}", "; ", "a", " ", '"', "\n", "$(", "#"], 4, 5),
        ("heredoc", [("a <<E\n", "\nE\n"), ("a <<'E'\n", "\nE\n"), ("a <<-E\n", "\n\tE\nb 'c'\n"), ("a <<E\n", "\nE")], ["E", "\n", "a", "'", '"', "#", "\\", "\t", " "], 4, 5),
    ],
}
SCANNERS = {k: globals()["scan_" + k] for k in SETS}


def classify(lang, text):
    """The same, of parce: classes (None where there is no token) and ancestors of the last token."""
    tree = parce.root(root_lexicon(lang), text)
    out = [None] * len(text)
    last = None
    for t in tree.tokens():
        c = "c" if t.action in A.Comment else "s" if t.action in A.String else "."
        for i in range(t.pos, t.end):
            out[i] = c
        last = t
    return out, last, tree


MARK = {"c": "\n;", "javascript": "\n;", "css": "\n/*z*/", "lilypond": '\n"z"', "latex": "\nzz", "texinfo": "\nzz", "troff": "\nzz", "tcl": "\n;", "bash": "\nzz"}


def run(lang, text):
    try:
        classes, openers, still = SCANNERS[lang](text)
    except Skip:
        return None
    mark = MARK[lang]
    got, last, tree = classify(lang, text + mark)
    for i, (g, w) in enumerate(zip(got, classes)):
        if w == "x" or g == w or (g is None and (w == "." or text[i].isspace())) or (w == "." and text[i].isspace()) or (g == "." and text[i].isspace()):
            continue
        raise Violation("{!r}: character {} ({!r}) is {}, expected {}".format(text, i, text[i], KIND[g], KIND[w]))
    # which brackets are open afterwards
    check(last is not None and last.end == len(text + mark), "nothing at the end of {!r}".format(text))
    pos = set()
    p = last.parent
    while p.parent is not None:
        first = p.first_token()
        if p.lexicon.consume:       # the bracket is in the context it opens
            pos.add(first.end - 1)
            if first.text[:1] == "\\" and first.text[1:2].isalpha() and first.next_token():
                pos.add(first.next_token().end - 1)
        elif first.previous_token() is not None:
            pos.add(first.previous_token().end - 1)
        p = p.parent
    equal([i for i in openers if i in pos], still, "positions of the open brackets after {!r}".format(text))
    return classes


KIND = {"c": "a comment", "s": "a string", ".": "code", None: "nothing"}


def shards(tier):
    out = []
    for lang, sets in SETS.items():
        for k, (name, frames, frags, q, t) in enumerate(sets):
            n = q if tier == "quick" else t
            out += [[lang, k, i, n] for i in range(len(frags))]
    out.sort(key=lambda s: -len(SETS[s[0]][s[1]][1]) * len(SETS[s[0]][s[1]][2]) ** s[3])
    return out


def bounds(tier):
    i = 3 if tier == "quick" else 4
    return "; ".join("{}: {}".format(lang, ", ".join("{} up to {} of {} fragments in {} frames".format(s[0], s[i], len(s[2]), len(s[1])) for s in sets)) for lang, sets in SETS.items())


def run_shard(shard, rec):
    lang, k, first, n = shard
    name, frames, frags, q, t = SETS[lang][k]
    for m in range(n):
        for rest in itertools.product(frags, repeat=m):
            inner = frags[first] + "".join(rest)
            for before, after in frames:
                text = before + inner + after
                r = rec.run(dict(lang=lang, text=text), run, lang, text)
                rec.transitions += 1
                if r is not None:
                    rec.state((lang, text))
                    rec.outcome((lang, r))


def replay(c, rec):
    rec.run(c, run, c["lang"], c["text"])
