"""C11: tree navigation and search agree with plain enumeration."""
import io
import itertools

from parce import tree as ptree, util
from parce.target import TargetFactory

from mc.core import Violation, check, equal
from mc.shapes import Tree, Lang, forests, count_pairs, count_contexts

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of tree shapes, gaps and groups x all nodes, node pairs and positions against plain enumeration"
RULE = ("every tree shape with n tokens and nesting <= d, with every placement of gaps between tokens (or every grouping of adjacent "
        "tokens), every navigation operation from every node, every pair of nodes and every position or pair of positions; an outcome is a distinct answer")
ASSUMPTIONS = ["trees are well-formed as C02 states: contexts below the root are not empty, tokens are in order, not empty and do not overlap"]

QUICK = dict(gaps=[(3, 3), (4, 2), (5, 1)], groups=[(4, 2), (6, 1)], delete=[(4, 3)])
THOROUGH = dict(gaps=[(4, 3), (5, 2)], groups=[(5, 3), (6, 2), (7, 1)], delete=[(5, 3), (6, 2)])


def bounds(tier):
    b = QUICK if tier == "quick" else THOROUGH
    return "(tokens, nesting) up to: all gap placements {gaps}; all groupings {groups}; deletions {delete}".format(**b)


def ids(nodes):
    return [id(n) for n in nodes]


def same(got, want, what):
    """Compare two iterables of nodes on identity."""
    got, want = list(got), list(want)
    if ids(got) != ids(want):
        raise Violation("{}: got {!r}, expected {!r}".format(what, got, want))


def is_same(got, want, what):
    if got is not want:
        raise Violation("{}: got {!r}, expected {!r}".format(what, got, want))


def verify_nodes(T, rec):
    root = T.root
    for n in T.nodes:
        rec.transitions += 1
        w = repr(n)
        up = T.up[id(n)]
        path = T.path[id(n)]
        is_same(n.root(), root, w + ".root()")
        equal(n.depth(), len(up), w + ".depth()")
        same(n.ancestors(), up, w + ".ancestors()")
        equal([(id(p), i) for p, i in n.ancestors_with_index()], [(id(p), T.path[id(c)][-1]) for p, c in zip(up, [n] + up)], w + ".ancestors_with_index()")
        mine = [t for t in T.tokens if T.path[id(t)][:len(path)] == path]
        before = [t for t in T.tokens if T.path[id(t)] < path and t not in mine]
        after = [t for t in T.tokens if T.path[id(t)] > path and not any(t is m for m in mine)]
        before = [t for t in before if not any(t is m for m in mine)]
        same(n.forward(), after, w + ".forward()")
        same(n.backward(), reversed(before), w + ".backward()")
        is_same(n.next_token(), after[0] if after else None, w + ".next_token()")
        is_same(n.previous_token(), before[-1] if before else None, w + ".previous_token()")
        for u in T.contexts:
            # not an ancestor: as without
            if any(u is a for a in up):
                k = [i for i, a in enumerate(up) if a is u][0]
                same(n.ancestors(u), up[:k+1], w + ".ancestors(upto)")
                inside = set(ids(T.below(u)))
                same(n.forward(u), [t for t in after if id(t) in inside], w + ".forward(upto)")
                same(n.backward(u), [t for t in reversed(before) if id(t) in inside], w + ".backward(upto)")
            else:
                same(n.ancestors(u), up, w + ".ancestors(upto)")
        if n is not root:
            sib, i = T.sib[id(n)]
            equal(n.parent_index(), i, w + ".parent_index()")
            is_same(n.parent, up[0], w + ".parent")
            is_same(n.left_sibling(), sib[i-1] if i else None, w + ".left_sibling()")
            is_same(n.right_sibling(), sib[i+1] if i + 1 < len(sib) else None, w + ".right_sibling()")
            same(n.left_siblings(), sib[:i][::-1], w + ".left_siblings()")
            same(n.right_siblings(), sib[i+1:], w + ".right_siblings()")
            equal(n.is_first(), i == 0, w + ".is_first()")
            equal(n.is_last(), i == len(sib) - 1, w + ".is_last()")
        if n.is_context:
            same(n.tokens(), mine, w + ".tokens()")
            same(n.tokens(True), mine[::-1], w + ".tokens(reverse)")
            same(util.tokens(n), mine, "util.tokens")
            same(util.tokens(n, True), mine[::-1], "util.tokens reversed")
            is_same(n.first_token(), mine[0] if mine else None, w + ".first_token()")
            is_same(n.last_token(), mine[-1] if mine else None, w + ".last_token()")
            equal(n.pos, mine[0].pos if mine else 0, w + ".pos")
            equal(n.end, mine[-1].pos + len(mine[-1].text) if mine else 0, w + ".end")
            equal(n.is_root(), n is root, w + ".is_root()")
            deepest = max((len(T.path[id(m)]) - len(path) for m in T.nodes if T.path[id(m)][:len(path)] == path), default=0)
            equal(n.height(), deepest, w + ".height()")
            for lex in (Lang.one, Lang.two):
                equal(lex in n, any(m.is_context and m.lexicon is lex for m in list.__iter__(n)), "lexicon in context")
            for text in ("a", "bb", "zz"):
                equal(text in n, any(m.is_token and m.text == text for m in list.__iter__(n)), "text in context")
        else:
            same(n.forward_including(), [n] + after, w + ".forward_including()")
            same(n.backward_including(), [n] + before[::-1], w + ".backward_including()")
            equal(n.end, n.pos + len(n.text), w + ".end")
            g = T.group[id(n)]
            if n.group is not None:
                same(n.get_group(), g, w + ".get_group()")
                is_same(n.get_group_start(), g[0], w + ".get_group_start()")
                is_same(n.get_group_end(), g[-1], w + ".get_group_end()")
        rec.outcome((w, tuple(ids2(T, after)), path))


def ids2(T, nodes):
    return [T.path[id(n)] for n in nodes]


def verify_pairs(T, rec):
    for a in T.nodes:
        for b in T.nodes:
            rec.transitions += 1
            pa, pb = T.path[id(a)], T.path[id(b)]
            # deepest context that contains (or is) both
            k = 0
            while k < len(pa) and k < len(pb) and pa[k] == pb[k]:
                k += 1
            c = node_at(T, pa[:k])
            if c.is_token:
                c = T.up[id(c)][0]
                k -= 1
            is_same(a.common_ancestor(b), c, "{!r}.common_ancestor({!r})".format(a, b))
            equal(a.is_ancestor_of(b), any(a is x for x in T.up[id(b)]), "{!r}.is_ancestor_of({!r})".format(a, b))
            if a.is_token and b.is_token:
                ia, ib = index(T.tokens, a), index(T.tokens, b)
                w = "{!r} to {!r}".format(a, b)
                if ia <= ib:
                    got = a.common_ancestor_with_trail(b)
                    is_same(got[0], c, "common_ancestor_with_trail: " + w)
                    equal((tuple(got[1]), tuple(got[2])), (pa[k:], pb[k:]), "trails: " + w)
                    r = a.range(b)
                    check_range(T, r, ia, ib, c, "range(): " + w)
                    same(a.forward_until_including(b), T.tokens[ia:ib+1], "forward_until_including: " + w)
                la = [x.lexicon for x in T.up[id(a)]]
                lb = [x.lexicon for x in T.up[id(b)]]
                equal(bool(a.state_matches(b)), la == lb, "state_matches: " + w)
                equal(bool(a.equals(b)), la == lb and a.text == b.text and a.action is b.action, "equals: " + w)
                equal(a == b, a is b, "token ==")
                equal(a != b, a is not b, "token !=")


def node_at(T, path):
    n = T.root
    for i in path:
        n = list.__getitem__(n, i)
    return n


def index(lst, node):
    for i, n in enumerate(lst):
        if n is node:
            return i
    raise Violation("node {!r} not in the tree".format(node))


def check_range(T, r, ia, ib, ancestor, what):
    """The range consists of exactly the tokens ia..ib."""
    check(r is not None, what, "is None")
    if ancestor is not None:
        is_same(r.ancestor, ancestor, what + " ancestor")
    want = T.tokens[ia:ib+1]
    same(r.tokens(), want, what + " tokens")
    equal(r.pos, want[0].pos, what + " pos")
    equal(r.end, want[-1].pos + len(want[-1].text), what + " end")
    # the slices and the targets in between
    seen = []
    tf = TargetFactory()
    cur = None
    for ctx, sl in r.slices(tf):
        rec_tokens = [t for t in flat(list.__getitem__(ctx, sl))]
        seen.extend(rec_tokens)
        t = tf.get()
        pop, push = (0, ()) if not t else (t.pop, t.push)
        if cur is not None:
            p = cur
            for _ in range(-pop):
                p = T.up[id(p)][0]
            chain = [x.lexicon for x in [ctx] + T.up[id(ctx)]]
            want_chain = list(reversed(push)) + [x.lexicon for x in [p] + T.up[id(p)]]
            equal(chain, want_chain, what + " target between slices")
        cur = ctx
    same(seen, want, what + " slices")


def flat(nodes):
    for n in nodes:
        if n.is_token:
            yield n
        else:
            yield from flat(list.__iter__(n))


def verify_positions(T, rec):
    for c in T.contexts:
        toks = T.below(c)
        base = T.path[id(c)]
        for pos in range(-1, T.length + 1):
            rec.transitions += 1
            w = "{!r} pos={}".format(c, pos)
            at = next((t for t in toks if t.pos + len(t.text) > pos), None)
            left = next((t for t in reversed(toks) if t.pos < pos), None)
            after = next((t for t in toks if t.pos >= pos), None)
            before = next((t for t in reversed(toks) if t.pos + len(t.text) <= pos), None)
            is_same(c.find_token(pos), at, w + " find_token")
            is_same(c.find_token_left(pos), left, w + " find_token_left")
            is_same(c.find_token_after(pos), after, w + " find_token_after")
            is_same(c.find_token_before(pos), before, w + " find_token_before")
            tr = (lambda t: (None, None) if t is None else (t, list(T.path[id(t)][len(base):])))
            for name, t in (("find_token_with_trail", at), ("find_token_left_with_trail", left)):
                got = getattr(c, name)(pos)
                is_same(got[0], t, w + " " + name)
                equal(got[1] and list(got[1]), tr(t)[1], w + " " + name)
            equal(c.find(pos), -1 if at is None else T.path[id(at)][len(base)], w + " find")
            equal(c.find_left(pos), -1 if left is None else T.path[id(left)][len(base)], w + " find_left")
            inside = [x for x in T.contexts if T.path[id(x)][:len(base)] == base and x is not c
                      and spans(T, x, pos)]
            want = max(inside, key=lambda x: len(T.path[id(x)]), default=c)
            is_same(c.find_context(pos), want, w + " find_context")
            rec.outcome((pos, at and at.pos, left and left.pos, after and after.pos, before and before.pos, T.path[id(want)]))


def spans(T, x, pos):
    b = T.below(x)
    return b[0].pos <= pos < b[-1].pos + len(b[-1].text)


def verify_ranges(T, rec):
    for c in T.contexts:
        toks = T.below(c)
        for start in range(0, T.length + 1):
            for end in [None] + list(range(0, T.length + 1)):
                rec.transitions += 1
                r = c.range(start, end)
                e = T.length + 9 if end is None else end
                want = [t for t in toks if t.pos + len(t.text) > start and t.pos < e]
                if end is not None and end <= start:
                    want = []
                got = list(r.tokens()) if r is not None else []
                same(got, want, "{!r}.range({}, {})".format(c, start, end))
                if want and r is not None:
                    check_range(T, r, index(T.tokens, want[0]), index(T.tokens, want[-1]), None, "{!r}.range({}, {})".format(c, start, end))


def canon(n):
    if n.is_token:
        return (n.pos, n.text, n.action, n.group, type(n).__name__)
    return (n.lexicon, [canon(x) for x in list.__iter__(n)])


def verify_copy(T, rec):
    for n in T.nodes:
        other = ptree.Context(Lang.two, None)
        c = n.copy(other)
        equal(canon(c), canon(n), "copy of {!r}".format(n))
        is_same(c.parent, other, "parent of the copy")
        if n.is_context:
            orig = set(id(x) for x in T.nodes)
            stack = [c]
            while stack:
                x = stack.pop()
                check(id(x) not in orig, "the copy shares nodes")
                for y in list.__iter__(x):
                    is_same(y.parent, x, "parent in the copy")
                    if y.is_context:
                        stack.append(y)
            is_same(n.copy().parent, None, "parent of a copy")
            out = io.StringIO()
            n.dump(out, "ascii")
            lines = out.getvalue().splitlines()
            members = [m for m in T.nodes if T.path[id(m)][:len(T.path[id(n)])] == T.path[id(n)]]
            equal(len(lines), len(members), "lines of dump()")
            for l, m in zip(lines, members):
                check(l.endswith(repr(m)), "dump() line", l)
                equal(len(l) - len(repr(m)), 3 * (len(T.path[id(m)]) - len(T.path[id(n)])), "dump() depth")


def run_tree(shape, gaps, groups, lexicons, rec):
    T = Tree(shape, gaps, groups, lexicons)
    before = canon(T.root)
    rec.state((shape, gaps, groups, lexicons))
    verify_nodes(T, rec)
    verify_pairs(T, rec)
    verify_positions(T, rec)
    verify_ranges(T, rec)
    verify_copy(T, rec)
    equal(canon(T.root), before, "the tree after looking at it")


def run_delete(shape, k, rec):
    """Node.delete() of the k-th node below the root."""
    T = Tree(shape, 0b01010)
    n = T.nodes[k]
    rec.transitions += 1
    # which ancestors become empty?
    drop = n
    up = T.up[id(n)]
    result = None
    for p in up:
        if len(T.sib[id(drop)][0]) > 1:
            result = p
            break
        if p is T.root:
            break
        drop = p
    path = T.path[id(drop)]
    def without(node, p):
        if node.is_token:
            return canon(node)
        return (node.lexicon, [without(x, p + (i,)) for i, x in enumerate(list.__iter__(node)) if p + (i,) != path])
    want = without(T.root, ())
    got = n.delete()
    is_same(got, result, "delete() result of {}".format(n))
    equal(canon(T.root), want, "tree after deleting {!r}".format(n))
    rec.outcome(repr(want))


def all_shapes(limits):
    seen = set()
    for n, d in limits:
        for i in range(n + 1):
            for s in forests(i, d):
                if s not in seen:
                    seen.add(s)
                    yield i, s


def shards(tier):
    b = QUICK if tier == "quick" else THOROUGH
    m = 64 if tier == "quick" else 160
    return [["gaps", b["gaps"], i, m] for i in range(m)] + [["groups", b["groups"], i, m // 2] for i in range(m // 2)] + [
        ["delete", b["delete"], i, 8] for i in range(8)]


def run_shard(shard, rec):
    kind, limits, part, parts = shard
    for k, (n, shape) in enumerate(all_shapes([tuple(x) for x in limits])):
        if k % parts != part:
            continue
        if kind == "gaps":
            # lexicon labels: one pattern per shape and its complement
            for gaps in range(2 ** n):
                lex = 0 if gaps % 2 else 0b0101101
                rec.run(dict(shape=shape, gaps=gaps, groups=0, lexicons=lex), run_tree, shape, gaps, 0, lex, rec)
            # one lexicon that is recursive
            rec.run(dict(shape=shape, gaps=0, groups=0, lexicons=-1), run_tree, shape, 0, 0, -1, rec)
        elif kind == "groups":
            for g in range(1, 2 ** count_pairs(shape)):
                gaps = (0b10110, 0)[g & 1]
                rec.run(dict(shape=shape, gaps=gaps, groups=g, lexicons=0), run_groups, shape, gaps, g, rec)
        else:
            for i in range(1, n + 1 + count_contexts(shape)):
                rec.run(dict(shape=shape, delete=i), run_delete, shape, i, rec)


def run_groups(shape, gaps, groups, rec):
    T = Tree(shape, gaps, groups)
    rec.state((shape, gaps, groups))
    verify_nodes(T, rec)
    verify_copy(T, rec)
    for t in T.tokens:
        g = T.group[id(t)]
        if len(g) > 1:
            made = ptree.make_tokens([(x.pos, x.text, x.action) for x in g], t.parent)
            equal([canon(x) for x in made], [canon(x) for x in g], "make_tokens")


def totuple(s):
    return s if s == "t" else tuple(totuple(x) for x in s)


def replay(case, rec):
    shape = totuple(case["shape"])
    if "delete" in case:
        rec.run(case, run_delete, shape, case["delete"], rec)
    elif case["groups"]:
        rec.run(case, run_groups, shape, case["gaps"], case["groups"], rec)
    else:
        rec.run(case, run_tree, shape, case["gaps"], case["groups"], case["lexicons"], rec)
