"""C04: the reported region covers everything that changed; previews are right."""
import itertools

from parce.treebuilder import TreeBuilder

from mc import langs
from mc.core import Violation
from mc.checks import c03
from mc.checks.c01 import get_root, BUNDLED
from mc.edits import strings, apply, inverse, local_edits, global_edits

LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all edit transitions, token-wise comparison outside the reported region"
RULE = ("every edit in the bound on every text in the bound, alone, merged with a second pending change, and with a "
        "second change arriving at every point of the build; an outcome is a distinct (region, text length, edit) report")
ASSUMPTIONS = ["tokens are compared by value (position, text, action, group, lexicons of all ancestors)"]


def bounds(tier):
    return "as C01 (toy and bundled languages) with middle <= {} chars; C03 far menus for combined changes".format(2 if tier == "quick" else 3)


def flat(node, anc=()):
    anc = anc + (id(node.lexicon),)
    for n in node:
        if n.is_context:
            yield from flat(n, anc)
        else:
            yield (n.pos, n.text, n.action, n.group, anc)


def check_region(old, new, region, oldlen, newlen, what=""):
    start, end = region
    if not 0 <= start <= end <= newlen:
        raise Violation("{} region {} is not within the text of length {}".format(what, region, newlen))
    head = [t for t in new if t[0] + len(t[1]) <= start]
    if head != old[:len(head)]:
        raise Violation("{} tokens before the region {} differ: {} was {}".format(what, region, head, old[:len(head)]))
    tail = [t for t in new if t[0] >= end]
    n = len(tail)
    delta = newlen - oldlen
    oldtail = [(p + delta, t, a, g, anc) for p, t, a, g, anc in old[len(old) - n:]] if n else []
    if tail != oldtail:
        raise Violation("{} tokens after the region {} differ: {} was (shifted) {}".format(what, region, tail[:3], oldtail[:3]))
    if len(head) + n > len(old) and len(new) != len(old):
        raise Violation("{} region {} hides new tokens".format(what, region))
    # removed tokens: the old tokens that are neither head nor tail must have been inside
    for p, t, a, g, anc in old[len(head):len(old) - n] if n else old[len(head):]:
        if p + len(t) <= start and (p, t, a, g, anc) not in new:
            raise Violation("{} token {!r} removed before the region {}".format(what, t, region))
        if p + delta >= end and (p + delta, t, a, g, anc) not in new:
            raise Violation("{} token {!r} removed after the region {}".format(what, t, region))


class Walker:
    def __init__(self, name, lexicon, text, rec, peek=0):
        self.name, self.lexicon, self.text, self.rec = name, lexicon, text, rec
        self.b = TreeBuilder(lexicon)
        self.b.peek_threshold = peek
        self.events = []
        self.peeks = []
        self.b.connect("updated", lambda s, e: self.events.append((s, e)))
        self.b.connect("peek", lambda s, t: self.peeks.append((s, list(flat(t)), t)))
        self.b.rebuild(text)
        self.toks = list(flat(self.b.root))
        if self.events != [(0, len(text))] or (self.b.start, self.b.end) != (0, len(text)):
            raise Violation("first build of {!r} reported {}".format(text, self.events))
        self.check_peeks()
        self.events.clear()

    def check_peeks(self):
        for s, toks, tree in self.peeks:
            if not toks:
                raise Violation("empty preview")
            for t in toks:
                if t not in self.toks:
                    raise Violation("preview token {} is not in the tree".format(t))
            i = self.toks.index(toks[0])
            if self.toks[i:i + len(toks)] != toks:
                raise Violation("preview is not contiguous")
            if not self.b.start <= s <= self.b.end and s != self.b.start:
                raise Violation("preview start {} outside the region".format(s))
            self.rec.note("peeks")
        self.peeks.clear()

    def step(self, e):
        new = apply(self.text, e)
        self.b.rebuild(new, False, e[0], e[1], len(e[2]))
        self.rec.transitions += 1
        toks = list(flat(self.b.root))
        if len(self.events) != 1 or self.events[0] != (self.b.start, self.b.end):
            raise Violation("updated events {} but region ({}, {})".format(self.events, self.b.start, self.b.end))
        region = self.events.pop()
        check_region(self.toks, toks, region, len(self.text), len(new))
        self.rec.outcome((region, len(new), e))
        self.text, self.toks = new, toks
        self.rec.state((self.name, new))
        self.check_peeks()

    def there_and_back(self, e):
        inv = inverse(self.text, e)
        self.step(e)
        self.step(inv)


def history(lexicon, text, edits, rec, peek=0):
    w = Walker("", lexicon, text, rec, peek)
    for e in edits:
        w.step(tuple(e))


def explore(name, lexicon, text, edits, rec, peek=0):
    w = None
    for e in edits:
        case = dict(kind="history", lang=name, text=text, history=[list(e), list(inverse(text, e))], peek=peek)
        n = len(rec.violations)
        if w is None:
            def fresh():
                nonlocal w
                w = Walker(name, lexicon, text, rec, peek)
            rec.run(case, fresh)
            if w is None:
                return
        rec.run(case, w.there_and_back, e)
        if len(rec.violations) > n:
            w = None


def combined(lexicon, text, first, plan, rec=None):
    d = c03.Driver(lexicon, text, plan)
    old = []
    events = []
    def started():
        old[:] = [list(flat(d.b.root)), oldlen[0]]
    oldlen = [len(text)]
    d.b.connect("started", started)
    d.b.connect("updated", lambda s, e: events.append((s, e)))
    d.run(first)
    if d.plan:
        return -1
    new = list(flat(d.b.root))
    if not events or events[-1] != (d.b.start, d.b.end) or len(events) != 2:
        raise Violation("updated events {}".format(events))
    check_region(old[0], new, events[-1], len(text), len(d.text), "combined:")
    if rec is not None:
        rec.outcome((events[-1], len(d.text)))
    return d.point


def ccase(rec, lang, lexicon, text, first, plan):
    rec.transitions += 1
    return rec.run(dict(kind="combined", lang=lang, text=text, first=[list(c) for c in first],
        plan=[[p, list(c)] for p, c in plan]), combined, lexicon, text, first, plan, rec)


def document_case(rec, worker, text, es):
    """The worker and the document pass on the same region."""
    import parce
    from parce.work import Worker, BackgroundWorker
    log = []
    b = TreeBuilder(langs.Nest.root)
    w = Worker(b)
    w.connect("tree_updated", lambda s, e: log.append(("w", s, e)))
    d = parce.Document(langs.Nest.root, text, worker=w)
    d.connect("tree_updated", lambda s, e: log.append(("d", s, e)))
    t = text
    for e in es:
        log.clear()
        old = list(flat(b.root))
        with d:
            d[e[0]:e[0] + e[1]] = e[2]
        new = apply(t, e)
        if d.text() != new:
            raise Violation("text differs")
        r = d.modified_range()
        if log != [("w", *r), ("d", *r)] and log != [("d", *r), ("w", *r)]:
            raise Violation("events {} for region {}".format(log, r))
        check_region(old, list(flat(b.root)), r, len(t), len(new), "document:")
        t = new


def shards(tier):
    out = []
    for name, p in langs.PLANS.items():
        for i in range(len(p["prefixes"])):
            out.append(dict(kind="toy", lang=name, prefix=i, tier=tier))
        out.append(dict(kind="global", lang=name, tier=tier))
        out.append(dict(kind="combined", lang=name, tier=tier))
        out.append(dict(kind="peek", lang=name, tier=tier))
    out.append(dict(kind="document", tier=tier))
    out.append(dict(kind="roots", tier=tier))
    for name, (pre, frag, suf) in BUNDLED.items():
        out.append(dict(kind="bundled", lang=name, tier=tier))
    return out


def run_shard(s, rec):
    thorough = s["tier"] == "thorough"
    if s["kind"] == "document":
        text = "(a a) a [a a] a a a a a a a a a a (a a)"
        es = list(global_edits(text, ["", ")", "["]))[:: 1 if thorough else 3]
        for e in es:
            t1 = apply(text, e)
            rec.run(dict(kind="document", text=text, history=[list(e), list(inverse(text, e))]),
                document_case, rec, "w", text, [e, inverse(text, e)])
        return
    if s["kind"] == "roots":
        names = [n for n, _ in langs.alt_roots()]
        for r0, text in itertools.product(names, ["<ab(a)b", "(a a a a a a a a a a a a<ba(a)b"]):
            lex = dict(langs.alt_roots())[r0]
            n = len(text)
            for f in [(0, 0, "("), (n, 0, "a"), (n // 2, 1, "b")] + [("root", r) for r in names]:
                n1 = len(text) if f[0] == "root" else len(apply(text, f))
                for sec in [("root", r) for r in names] + [(0, 0, "<"), (n1, 0, "a")]:
                    ccase(rec, "@" + r0, lex, text, [f, sec], [])
                    k = 0
                    while True:
                        r = ccase(rec, "@" + r0, lex, text, [f], [(k, sec)])
                        if r is None or r < 0:
                            break
                        if k < 4 or thorough:
                            ccase(rec, "@" + r0, lex, text, [f], [(k, sec), (k + 5, (0, 1, ""))])
                        k += 1
        return
    if s["kind"] == "bundled":
        import parce
        root = parce.find(s["lang"])
        pre, frag, suf = BUNDLED[s["lang"]]
        for pr, sf in itertools.product(pre, suf):
            for l in range(2 if not thorough else 3):
                for t in itertools.product(frag, repeat=l):
                    text = pr + "".join(t) + sf
                    lo, hi = len(pr), len(pr) + sum(map(len, t))
                    explore(s["lang"], root, text, local_edits(text, lo, hi, 1, ["", *frag]), rec)
        return
    p = langs.PLANS[s["lang"]]
    lang, lex, al = s["lang"], p["root"], p["alphabet"]
    if s["kind"] == "toy":
        pre = p["prefixes"][s["prefix"]]
        inserts = list(dict.fromkeys(["", *al, *p["inserts"]]))
        for suf in p["suffixes"]:
            n = 2 if thorough else 1
            for mid in strings(al, n):
                text = pre + mid + suf
                explore(lang, lex, text, local_edits(text, len(pre) - 1, len(pre) + len(mid) + 1, 2, inserts), rec)
    elif s["kind"] == "global":
        inserts = ["", *al, *p["inserts"]] if thorough else ["", *al[:2]]
        for text in [pre + suf for pre in p["prefixes"] for suf in p["suffixes"]][:: 1 if thorough else 2] + c03.LONG[lang]:
            explore(lang, lex, text, global_edits(text, inserts), rec)
    elif s["kind"] == "peek":
        for text in [pre + suf for pre in p["prefixes"] for suf in p["suffixes"]]:
            for peek in (1, 4, 9):
                explore(lang, lex, text, local_edits(text, 0, len(text), 1, ["", *al[:3]]), rec, peek)
    elif s["kind"] == "combined":
        for text in c03.LONG[lang][: 2 if thorough else 1]:
            for e1 in c03.far_edits(text, al, thorough):
                t1 = apply(text, e1)
                for e2 in c03.far_edits(t1, al, thorough):
                    ccase(rec, lang, lex, text, [e1, e2], [])
                    k = 0
                    while True:
                        r = ccase(rec, lang, lex, text, [e1], [(k, e2)])
                        if r is None or r < 0:
                            break
                        k += 1
        text = c03.LONG[lang][0]
        # three changes: the last two arrive together or apart around the stages
        es = c03.far_edits(text, al, False)
        for e1 in es[::3]:
            t1 = apply(text, e1)
            for e2 in c03.far_edits(t1, al, False)[::3]:
                t2 = apply(t1, e2)
                for e3 in c03.far_edits(t2, al, False)[::3]:
                    k = 0
                    while True:
                        r = ccase(rec, lang, lex, text, [e1], [(k, e2), (k + 9, e3)])
                        if r is None or r < 0:
                            break
                        k += 1 if thorough else 6


def replay(case, rec):
    k = case["kind"]
    if k == "document":
        rec.run(case, document_case, rec, "w", case["text"], [tuple(e) for e in case["history"]])
    elif k == "combined":
        name = case["lang"]
        lex = dict(langs.alt_roots())[name[1:]] if name.startswith("@") else get_root(name)
        rec.run(case, combined, lex, case["text"], [tuple(c) for c in case["first"]],
            [(p, tuple(c)) for p, c in case["plan"]])
    else:
        rec.run(case, history, get_root(case["lang"]), case["text"], case["history"], rec, case.get("peek", 0))
