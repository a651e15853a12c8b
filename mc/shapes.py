"""All small tree shapes, built as real parce trees with own bookkeeping.

A shape is a tuple of items; an item is 't' (a token) or a non-empty shape (a
context).  forests(n, d) are all shapes with n tokens in which contexts nest at
most d deep below the root; unary chains count as nesting.
"""
import functools

from parce import Language, lexicon, tree
from parce.action import Name, Keyword, Text


class Lang(Language):
    @lexicon
    def root(cls):
        yield r"x", Text

    @lexicon
    def one(cls):
        yield r"x", Text

    @lexicon
    def two(cls):
        yield r"x", Text


@functools.lru_cache(None)
def forests(n, depth):
    """All shapes with exactly n tokens."""
    if n == 0:
        return [()]
    out = []
    for first_n in range(1, n + 1):
        firsts = []
        if first_n == 1:
            firsts.append("t")
        if depth > 0:
            firsts.extend(forests(first_n, depth - 1))
        for f in firsts:
            for rest in forests(n - first_n, depth):
                out.append((f,) + rest)
    return out


TEXTS = ["a", "bb", "ab", "b", "cab", "a"]
ACTIONS = [Text, Name, Name.Tag, Keyword]


class Tree:
    """A real tree together with plain lists describing it."""

    def __init__(self, shape, gaps, groups=0, lexicons=0):
        """gaps: bit i = a gap of 2 before token i; groups: bit k = the k-th
        pair of adjacent sibling tokens belongs to one group; lexicons: bit k =
        the k-th context has lexicon two."""
        self.shape = shape
        self.tokens = []       # document order
        self.contexts = []     # document order, root first
        self.nodes = []        # all, document order, root first
        self.path = {}         # id -> tuple of indices from the root
        self.up = {}           # id -> list of ancestors, nearest first
        self.sib = {}          # id -> (list of siblings, index)
        self.group = {}        # id -> list of tokens in the same group
        self.pairs = 0
        self._gaps, self._groups, self._lex = gaps, groups, lexicons
        self._pos = 0
        self.root = tree.Context(Lang.root, None)
        self._note(self.root, (), [])
        self._build(self.root, shape, (), [])
        self.length = self._pos + 2

    def _note(self, n, path, up):
        self.nodes.append(n)
        (self.tokens if n.is_token else self.contexts).append(n)
        self.path[id(n)] = path
        self.up[id(n)] = up

    def _build(self, ctx, shape, path, up):
        up = [ctx] + up
        kids = []
        # split in runs of grouped tokens
        i = 0
        while i < len(shape):
            item = shape[i]
            if item == "t":
                n = 1
                while i + n < len(shape) and shape[i + n] == "t":
                    bit = self._groups >> self.pairs & 1
                    self.pairs += 1
                    if not bit:
                        break
                    n += 1
                lexemes = []
                for _ in range(n):
                    k = len(self.tokens) + len(lexemes)
                    if self._gaps >> k & 1:
                        self._pos += 2
                    text = TEXTS[k % len(TEXTS)]
                    lexemes.append((self._pos, text, ACTIONS[k % len(ACTIONS)]))
                    self._pos += len(text)
                if n == 1:
                    toks = [tree.Token(ctx, *lexemes[0])]
                else:
                    toks = [tree.GroupToken(g if g < n - 1 else -g, ctx, *l) for g, l in enumerate(lexemes)]
                for t in toks:
                    ctx.append(t)
                    self._note(t, path + (i,), up)
                    self.group[id(t)] = toks
                    i += 1
                kids.extend(toks)
            else:
                lex = Lang.root if self._lex == -1 else Lang.two if self._lex >> (len(self.contexts) - 1) & 1 else Lang.one
                c = tree.Context(lex, ctx)
                ctx.append(c)
                self._note(c, path + (i,), up)
                kids.append(c)
                self._build(c, item, path + (i,), up)
                i += 1
        for k, n in enumerate(kids):
            self.sib[id(n)] = (kids, k)

    def below(self, ctx):
        """The tokens below a context, document order (own bookkeeping)."""
        p = self.path[id(ctx)]
        return [t for t in self.tokens if self.path[id(t)][:len(p)] == p]


def count_pairs(shape):
    """Number of group bits a shape uses at most."""
    n = 0
    for a, b in zip(shape, shape[1:]):
        n += a == "t" and b == "t"
    return n + sum(count_pairs(s) for s in shape if s != "t")


def count_contexts(shape):
    return sum(1 + count_contexts(s) for s in shape if s != "t")
