"""C12: queries select exactly what the documented meaning of their steps selects."""
import itertools
import re

from parce.action import Name, Keyword, Text
from parce.query import Query

from mc.core import Violation, check, equal
from mc.shapes import Tree, Lang, forests, count_contexts

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of query chains x start nodes x tree shapes against a list-based reference evaluator; deletions against set removal"
RULE = ("every chain of query steps up to a length, from every node of every tree shape within the bound; every end point form of every chain; "
        "every chain followed by delete(); an outcome is a distinct selection")
ASSUMPTIONS = ["is_not before a step that is not invertible has no effect; is_not.in_range() selects the nodes that lie completely outside the range"]


def bounds(tier):
    return ("{} steps; chains of 2 from every node of all shapes with <= {} tokens, nesting <= {}; chains of {} from the root of all shapes "
            "with {} tokens; chains of <= 2 + delete() on the same shapes; delete() of every subset of the nodes of all trees with up to {} nodes, nesting <= 1").format(len(STEPS), *((3, 2, 3, 3, 9) if tier == "quick" else (4, 2, 3, "4 (and 4 steps from 3 shapes with 5)", 10)))


class M:
    """Reference evaluator on the bookkeeping of mc.shapes.Tree."""
    def __init__(self, T):
        self.T = T

    def kids(self, n):
        return list(list.__iter__(n)) if n.is_context else []

    def descendants(self, n):
        for k in self.kids(n):
            yield k
            yield from self.descendants(k)

    def up(self, n):
        return self.T.up[id(n)]

    def around(self, n):
        """(tokens before n, tokens after n), both in document order"""
        p = self.T.path[id(n)]
        before, after = [], []
        for t in self.T.tokens:
            q = self.T.path[id(t)]
            if q[:len(p)] != p:
                (before if q < p else after).append(t)
        return before, after

    def sib(self, n):
        return self.T.sib.get(id(n), ([n], 0))


def uniq(l):
    out = []
    for n in l:
        if not any(n is x for x in out):
            out.append(n)
    return out


def has(l, n):
    return any(n is x for x in l)


def nav(f):
    """Step that maps each node to a list of nodes."""
    return lambda m, l, inv: [x for n in l for x in f(m, n)]


def sel(f):
    """Non-invertible selection on each node."""
    return lambda m, l, inv: [n for n in l if f(m, n)]


def isel(f, only=None):
    """Invertible selection; nodes of the wrong kind never pass."""
    return lambda m, l, inv: [n for n in l if (only is None or getattr(n, only)) and bool(f(m, n)) != inv]


def pos(m, n):
    ts = [n] if n.is_token else m.T.below(n)
    return ts[0].pos if ts else 0


def end(m, n):
    ts = [n] if n.is_token else m.T.below(n)
    return ts[-1].pos + len(ts[-1].text) if ts else 0


def in_range(start, stop):
    def f(m, l, inv):
        if inv:
            return [n for n in l if end(m, n) <= start or pos(m, n) >= stop]
        return [n for n in l if pos(m, n) >= start and end(m, n) <= stop]
    return f


def item(i):
    return nav(lambda m, n: m.kids(n)[i:i+1 or None] if -len(m.kids(n)) <= i < len(m.kids(n)) else [])


def dup(n):
    return [n, n] if n.parent is not None else []


# name -> (apply to a Query, reference)
STEPS = {
    "children": (lambda q: q.children, nav(lambda m, n: m.kids(n))),
    "all": (lambda q: q.all, nav(lambda m, n: [n] + list(m.descendants(n)))),
    "alltokens": (lambda q: q.alltokens, nav(lambda m, n: [x for x in [n] + list(m.descendants(n)) if x.is_token])),
    "allcontexts": (lambda q: q.allcontexts, nav(lambda m, n: [x for x in [n] + list(m.descendants(n)) if x.is_context])),
    "parent": (lambda q: q.parent, nav(lambda m, n: m.up(n)[:1])),
    "ancestors": (lambda q: q.ancestors, nav(lambda m, n: m.up(n))),
    "first": (lambda q: q.first, nav(lambda m, n: m.kids(n)[:1])),
    "last": (lambda q: q.last, nav(lambda m, n: m.kids(n)[-1:])),
    "next": (lambda q: q.next, nav(lambda m, n: m.around(n)[1][:1])),
    "previous": (lambda q: q.previous, nav(lambda m, n: m.around(n)[0][-1:])),
    "forward": (lambda q: q.forward, nav(lambda m, n: m.around(n)[1])),
    "backward": (lambda q: q.backward, nav(lambda m, n: m.around(n)[0][::-1])),
    "right": (lambda q: q.right, nav(lambda m, n: m.sib(n)[0][m.sib(n)[1]+1:][:1])),
    "left": (lambda q: q.left, nav(lambda m, n: m.sib(n)[0][:m.sib(n)[1]][-1:])),
    "right_siblings": (lambda q: q.right_siblings, nav(lambda m, n: m.sib(n)[0][m.sib(n)[1]+1:])),
    "left_siblings": (lambda q: q.left_siblings, nav(lambda m, n: m.sib(n)[0][:m.sib(n)[1]][::-1])),
    "[0]": (lambda q: q[0], item(0)),
    "[1]": (lambda q: q[1], item(1)),
    "[-1]": (lambda q: q[-1], item(-1)),
    "[-2]": (lambda q: q[-2], item(-2)),
    "[1:]": (lambda q: q[1:], nav(lambda m, n: m.kids(n)[1:])),
    "[::-1]": (lambda q: q[::-1], nav(lambda m, n: m.kids(n)[::-1])),
    "map": (lambda q: q.map(dup), nav(lambda m, n: [n, n] if m.up(n) else [])),
    "filter": (lambda q: q.filter(lambda n: n.pos > 1), sel(lambda m, n: pos(m, n) > 1)),
    "tokens": (lambda q: q.tokens, sel(lambda m, n: n.is_token)),
    "contexts": (lambda q: q.contexts, sel(lambda m, n: n.is_context)),
    "uniq": (lambda q: q.uniq, lambda m, l, inv: uniq(l)),
    "slice(1)": (lambda q: q.slice(1), lambda m, l, inv: l[:1]),
    "slice(1,3)": (lambda q: q.slice(1, 3), lambda m, l, inv: l[1:3]),
    "slice(0,None,2)": (lambda q: q.slice(0, None, 2), lambda m, l, inv: l[::2]),
    "remove_descendants": (lambda q: q.remove_descendants, lambda m, l, inv: [n for n in l if not any(has(l, p) for p in m.up(n))]),
    "remove_ancestors": (lambda q: q.remove_ancestors, lambda m, l, inv: [n for n in l if not any(has(m.up(x), n) for x in l)]),
    "len(1)": (lambda q: q.len(1), isel(lambda m, n: len(m.kids(n)) == 1, "is_context")),
    "len(2,3)": (lambda q: q.len(2, 3), isel(lambda m, n: 2 <= len(m.kids(n)) <= 3, "is_context")),
    "in_range(1)": (lambda q: q.in_range(1), in_range(1, 10**9)),
    "in_range(1,5)": (lambda q: q.in_range(1, 5), in_range(1, 5)),
    "in_range(0,0)": (lambda q: q.in_range(0, 0), in_range(0, 0)),
    "('a')": (lambda q: q("a"), isel(lambda m, n: n.is_token and n.text == "a")),
    "(one)": (lambda q: q(Lang.one), isel(lambda m, n: n.is_context and n.lexicon is Lang.one)),
    "('bb',two)": (lambda q: q("bb", Lang.two), isel(lambda m, n: n.text == "bb" if n.is_token else n.lexicon is Lang.two)),
    "startingwith": (lambda q: q.startingwith("a"), isel(lambda m, n: n.text[0] == "a", "is_token")),
    "endingwith": (lambda q: q.endingwith("b"), isel(lambda m, n: n.text[-1] == "b", "is_token")),
    "containing": (lambda q: q.containing("a"), isel(lambda m, n: "a" in n.text, "is_token")),
    "matching": (lambda q: q.matching("^b"), isel(lambda m, n: n.text[0] == "b", "is_token")),
    "matching_i": (lambda q: q.matching("A$", re.I), isel(lambda m, n: n.text[-1] == "a", "is_token")),
    "action(Name)": (lambda q: q.action(Name), isel(lambda m, n: n.action is Name, "is_token")),
    "action(2)": (lambda q: q.action(Text, Name.Tag), isel(lambda m, n: n.action is Text or n.action is Name.Tag, "is_token")),
    "in_action(Name)": (lambda q: q.in_action(Name), isel(lambda m, n: n.action is Name or n.action is Name.Tag, "is_token")),
    "in_action(2)": (lambda q: q.in_action(Keyword, Name.Tag), isel(lambda m, n: n.action is Keyword or n.action is Name.Tag, "is_token")),
}
BASE = list(STEPS)
INVERTIBLE = BASE[BASE.index("len(1)"):]


def _inv(name):
    real, ref = STEPS[name]
    return (lambda q: real(q.is_not)), (lambda m, l, inv: ref(m, l, True))


for _n in INVERTIBLE + ["children", "tokens"]:
    STEPS["not " + _n] = _inv(_n)
STEPS["not not ('a')"] = (lambda q: STEPS["('a')"][0](q.is_not.is_not), STEPS["('a')"][1])
NAMES = list(STEPS)


def ids(l):
    return [id(n) for n in l]


def verify_query(q, want, m, rec, deep=True):
    got = list(q)
    if ids(got) != ids(want):
        raise Violation("selected {!r}, expected {!r}".format(got, want))
    rec.transitions += 1
    if not deep:
        return
    equal(q.count(), len(want), "count()")
    equal(bool(q), bool(want), "bool()")
    check(q.pick() is (want[0] if want else None), "pick()", q.pick())
    check(q.pick_last() is (want[-1] if want else None), "pick_last()")
    d = object()
    check(q.pick(d) is (want[0] if want else d) and q.pick_last(d) is (want[-1] if want else d), "pick(default)")
    equal(q.range(), (min(pos(m, n) for n in want), max(end(m, n) for n in want)) if want else (-1, -1), "range()")
    if ids(list(q)) != ids(want):
        raise Violation("second iteration differs")


def canon(n):
    if n.is_token:
        return (id(n), n.pos, n.text, n.action)
    return (id(n), n.lexicon, [canon(x) for x in list.__iter__(n)])


def run_chains(shape, gaps, lex, start, depth, first, rec):
    """All chains that begin with `first` from node number `start`."""
    T = Tree(shape, gaps, 0, lex)
    m = M(T)
    before = canon(T.root)
    base = dict(shape=shape, gaps=gaps, lex=lex, start=start)
    rec.state((shape, gaps, lex, start))

    def walk(q, l, chain):
        for name in ([first] if not chain else NAMES):
            real, ref = STEPS[name]
            c = chain + [name]
            case = dict(base, chain=c)
            def one():
                q2 = real(q)
                l2 = ref(m, l, False)
                verify_query(q2, l2, m, rec, len(c) <= 2)
                return q2, l2
            r = rec.run(case, one)
            if r is not None:
                rec.outcome((shape, tuple(T.path[id(n)] for n in r[1])))
                if len(c) < depth:
                    walk(r[0], r[1], c)
    if start == "nodes":
        l = T.nodes[::-1] + T.nodes[:2]
        q = Query.from_nodes(l)
    else:
        l = [T.nodes[start]]
        q = T.nodes[start].query
    walk(q, l, [])
    if canon(T.root) != before:
        rec.fail(dict(base, chain=[first]), "queries changed the tree")


def run_one(case, rec):
    shape = totuple(case["shape"])
    T = Tree(shape, case["gaps"], 0, case["lex"])
    m = M(T)
    if case["start"] == "nodes":
        l = T.nodes[::-1] + T.nodes[:2]
        q = Query.from_nodes(l)
    else:
        l = [T.nodes[case["start"]]]
        q = l[0].query
    before = canon(T.root)
    for name in case["chain"]:
        real, ref = STEPS[name]
        q, l = real(q), ref(m, l, False)
    if case.get("delete"):
        return delete(T, m, q, l, rec)
    verify_query(q, l, m, rec)
    equal(canon(T.root), before, "tree after a query")


def delete(T, m, q, l, rec):
    """delete(): exactly the selected nodes (and contexts that become empty) go."""
    chosen = set(ids(l))
    def prune(n):
        """canonical form without the chosen nodes, None if it goes"""
        if id(n) in chosen and n is not T.root:
            return None
        if n.is_token:
            return canon(n)
        if id(n) in chosen:     # the root: is cleared
            return (id(n), n.lexicon, [])
        kids = [k for k in map(prune, m.kids(n)) if k is not None]
        if not kids and n is not T.root:
            return None
        return (id(n), n.lexicon, kids)
    want = prune(T.root)
    # topmost removed nodes
    def tops(n):
        c = 0
        for k in m.kids(n):
            if prune(k) is None:
                c += 1
            else:
                c += tops(k) if k.is_context else 0
        return c
    n = tops(T.root) if id(T.root) not in chosen else len(m.kids(T.root))
    got = q.delete()
    equal(canon(T.root), want, "tree after delete()")
    equal(got, n, "number of nodes delete() returns")
    rec.transitions += 1
    for p in [T.root] + [x for x in T.contexts if x is not T.root]:
        for k in list.__iter__(p):
            if k.parent is not p:
                raise Violation("parent link after delete()")


def run_deletes(shape, depth, first, rec):
    for chain in itertools.chain.from_iterable(itertools.product([first], *[NAMES] * k) for k in range(depth)):
        T = Tree(shape, 0b0110, 0, 0b01)
        m = M(T)
        case = dict(shape=shape, gaps=0b0110, lex=1, start=0, chain=list(chain), delete=True)
        def one():
            q, l = T.root.query, [T.root]
            for name in chain:
                real, ref = STEPS[name]
                q, l = real(q), ref(m, l, False)
            delete(T, m, q, l, rec)
        rec.run(case, one)


SUBSETS_MAX = 7


def run_subset_deletes(shape, rec, most=SUBSETS_MAX):
    """delete() of every subset of the nodes of a small tree."""
    T = Tree(shape, 0b0110)
    rec.state((shape, "subsets"))
    k = len(T.nodes)
    if k > most + 1:
        return
    for bits in range(2 ** (k - 1)):
        T = Tree(shape, 0b0110)
        l = [n for i, n in enumerate(T.nodes[1:]) if bits >> i & 1]
        rec.run(dict(shape=shape, subset=bits), delete, T, M(T), Query.from_nodes(l[::-1] if bits & 1 else l), l, rec)


def shards(tier):
    out = []
    n2, n3 = (3, 3) if tier == "quick" else (4, 4)
    for f in NAMES:
        out.append(["chains", n2, f])
        out.append(["triples", n3 if tier != "quick" else 3, f])
        out.append(["delete", n2, f])
        if tier != "quick":
            out.append(["four", 5, f])
    for i in range(8):
        out.append(["subsets", 4 if tier == "quick" else 5, i])
        out.append(["wide", 6 if tier == "quick" else 7, i])
    return out


def run_shard(shard, rec):
    kind, n, f = shard
    if kind == "chains":
        for i in range(n + 1):
            for k, shape in enumerate(forests(i, 2)):
                T = Tree(shape, 0)
                starts = list(range(len(T.nodes))) + ["nodes"]
                for s in starts:
                    run_chains(shape, (0, 0b1010, 0b101)[k % 3], (0, 0b10110)[k % 2], s, 2, f, rec)
    elif kind == "triples":
        for k, shape in enumerate(forests(n, 1) if n == 3 else forests(n, 1) + forests(3, 2)):
            run_chains(shape, (0, 0b1010, 0b101)[k % 3], (0, 0b10110)[k % 2], 0, 3, f, rec)
        if n == 3:
            for k, shape in enumerate([((("t", "t"),), "t"), (("t", ("t",)), ("t", "t")), ("t", ("t", ("t", "t"), "t"), "t")]):
                run_chains(shape, 0b1010, 0b10110, 0, 3, f, rec)
    elif kind == "four":
        for k, shape in enumerate([("t", ("t", ("t", "t"), "t"), "t")]):
            run_chains(shape, 0b1010, 0b10110, 0, 4, f, rec)
    elif kind == "delete":
        for i in range(n + 1):
            for shape in forests(i, 2):
                run_deletes(shape, 2, f, rec)
    elif kind == "wide":
        # many siblings: slices of removed nodes in one parent
        shapes = [("t",) * i for i in range(5, n + 4)] + forests(5, 1) + forests(n, 1)
        for k, shape in enumerate(shapes):
            if k % 8 == f:
                run_subset_deletes(shape, rec, n + 3)
    else:
        for i in range(n + 1):
            for k, shape in enumerate(forests(i, 3)):
                if k % 8 == f:
                    run_subset_deletes(shape, rec)


def totuple(s):
    return s if s == "t" else tuple(totuple(x) for x in s)


def replay(case, rec):
    if "subset" in case:
        T = Tree(totuple(case["shape"]), 0b0110)
        l = [n for i, n in enumerate(T.nodes[1:]) if case["subset"] >> i & 1]
        rec.run(case, delete, T, M(T), Query.from_nodes(l[::-1] if case["subset"] & 1 else l), l, rec)
    else:
        rec.run(case, run_one, case, rec)
