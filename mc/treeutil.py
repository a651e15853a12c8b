"""Canonical forms and invariants of parce trees (own plain implementation)."""
from .core import Violation


def canon(node):
    """Nested tuple describing a tree completely; checks the parent links."""
    out = []
    for n in node:
        if n.parent is not node:
            raise Violation("wrong parent link at {!r}".format(n))
        if n.is_context:
            if not len(n):
                raise Violation("empty context {!r}".format(n.lexicon))
            out.append(canon(n))
        else:
            out.append((n.pos, n.text, n.action, n.group))
    return (id(node.lexicon), *out)


def show(c, names=None):
    """Readable form of a canon() tuple."""
    return repr(c)


def pretty(node):
    if node.is_token:
        g = "" if node.group is None else "/g{}".format(node.group)
        return "{}{!r}@{}{}".format(str(node.action).split(".")[-1], node.text, node.pos, g)
    arg = node.lexicon.arg if node.lexicon is not None else None
    name = node.lexicon.name if node.lexicon is not None else "None"
    return "{}{}[{}]".format(name, "" if arg is None else "({!r})".format(arg), " ".join(pretty(n) for n in node))


def tokens(node):
    """All tokens in document order, by plain recursion."""
    for n in node:
        if n.is_token:
            yield n
        else:
            yield from tokens(n)


def nodes(node):
    for n in node:
        yield n
        if n.is_context:
            yield from nodes(n)


def check_tree(root, text):
    """The well-formedness invariants of a tree built from text."""
    pos = 0
    def rec(c):
        nonlocal pos
        for n in c:
            if n.parent is not c:
                raise Violation("wrong parent link at {!r}".format(n))
            if n.is_context:
                if not len(n):
                    raise Violation("empty context {!r}".format(n))
                rec(n)
            else:
                if not n.text:
                    raise Violation("empty token {!r}".format(n))
                if n.pos < pos:
                    raise Violation("token {!r} overlaps or precedes position {}".format(n, pos))
                if text[n.pos:n.pos + len(n.text)] != n.text:
                    raise Violation("token {!r} does not carry the text at its position".format(n))
                if n.end != n.pos + len(n.text):
                    raise Violation("token end wrong {!r}".format(n))
                pos = n.pos + len(n.text)
    if root.parent is not None:
        raise Violation("root has a parent")
    rec(root)
    if pos > len(text):
        raise Violation("token beyond the text")


def scratch(lexicon, text):
    """(canonical tree, ids of open lexicons) of parsing text from scratch,
    derived from the plain event stream with own tree building code."""
    from parce.lexer import Lexer
    if not lexicon:
        return (id(None),), ()
    lexer = Lexer([lexicon])
    root = [id(lexicon)]
    stack = [root]
    for target, lexemes in lexer.events(text):
        if target:
            for _ in range(-target.pop):
                stack.pop()
            for l in target.push:
                c = [id(l)]
                stack[-1].append(c)
                stack.append(c)
        n = len(lexemes)
        if n == 1:
            p, t, act = lexemes[0]
            stack[-1].append((p, t, act, None))
        else:
            for i, (p, t, act) in enumerate(lexemes):
                stack[-1].append((p, t, act, i if i < n - 1 else -i))
    def freeze(c):
        return tuple(freeze(n) if isinstance(n, list) else n for n in c)
    return freeze(root), tuple(id(l) for l in lexer.lexicons[1:])
