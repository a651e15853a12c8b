"""C08: undo and redo restore exact earlier texts and modified states."""
import itertools

import parce
from parce.document import Document
from parce.work import Worker
from parce.treebuilder import TreeBuilder

from mc.core import Violation, check, equal

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of operation histories on the real Document against a timeline model"
RULE = ("every sequence of operations (edits, grouped edits, refused and cancelled edits, undo, redo, clear, setting modified) up to the "
        "depth; an outcome is a distinct (text, modified, undo/redo availability, position in the timeline)")
ASSUMPTIONS = ["edits made while undo_redo_enabled is False are not undone afterwards",
    "grouped edits that cancel each other out completely are not explored"]

OPS = ["ins", "app", "delfirst", "dellast", "set", "group", "groupadj", "group3", "noop", "cancel", "overlap", "undo", "redo", "clear", "mod0", "mod1", "ctxundo", "replace"]
CORE = ["ins", "dellast", "groupadj", "group", "undo", "redo", "mod0", "mod1", "noop"]
DEEP = ["app", "groupadj", "undo", "redo", "mod0"]


def bounds(tier):
    return "all histories of length {} over 18 operations, of length {} over 9, of length {} over 5; 3 initial texts, 2 document classes".format(
        *((4, 5, 8) if tier == "quick" else (5, 6, 10)))


class Model:
    def __init__(self, text):
        self.states = [(text, 0)]
        self.i = 0
        self.saved = 0
        self.next = 1

    @property
    def text(self):
        return self.states[self.i][0]

    def modified(self):
        return self.states[self.i][1] != self.saved

    def can_undo(self):
        return self.i > 0

    def can_redo(self):
        return self.i < len(self.states) - 1

    def edit(self, new):
        if new != self.text:
            del self.states[self.i + 1:]
            self.states.append((new, self.next))
            self.next += 1
            self.i += 1
            return 1
        return 0


class Cancel(Exception):
    pass


def step(d, m, op):
    """Perform op on document and model; return the number of text changes."""
    t = m.text
    n = len(t)
    if op == "ins":
        d[0:0] = "a"
        return m.edit("a" + t)
    if op == "app":
        d.append("b")
        return m.edit(t + "b")
    if op == "delfirst":
        del d[0:1]
        return m.edit(t[1:])
    if op == "dellast":
        d[n - 1 if n else 0:n] = ""
        return m.edit(t[:-1])
    if op == "set":
        d.set_text("xy")
        return m.edit("xy")
    if op == "group":
        with d:
            if n:
                d.append(">")
            d[0:0] = "<"
            if not n:
                d.append(">")
        return m.edit("<" + t + ">")
    if op == "groupadj":
        with d:
            d[0:1] = ""
            d.insert(1, "pq")
        return m.edit(("" if n else "") + "pq" + t[1:])
    if op == "group3":
        head = "((" if t[:2] != "((" else "["
        with d:
            d[0:1] = head
            with d:
                d.insert(min(n, 2), "|")
            if n > 2:
                d[3:] = "zz" if t[3:] != "zz" else "z"
        return m.edit(head + t[1:2] + "|" + t[2:3] + (("zz" if t[3:] != "zz" else "z") if n > 2 else ""))
    if op == "replace":
        d.replace("a", "bb")
        return m.edit(t.replace("a", "bb"))
    if op == "noop":
        d[0:1] = t[0:1]
        d[n:n] = ""
        with d:
            d[0:n] = t
        return 0
    if op == "cancel":
        try:
            with d:
                d[0:0] = "k"
                d[n:] = "kk"
                raise Cancel
        except Cancel:
            pass
        return 0
    if op == "overlap":
        if n >= 2:
            try:
                with d:
                    d[0:2] = "o"
                    d[1:2] = "oo"
                raise Violation("overlapping edits were accepted")
            except RuntimeError:
                pass
        return 0
    if op == "ctxundo":
        with d:
            for f in (d.undo, d.redo):
                try:
                    f()
                    raise Violation("undo or redo inside an edit context was accepted")
                except RuntimeError:
                    pass
        return 0
    if op == "undo":
        d.undo()
        if m.can_undo():
            m.i -= 1
            return 1
        return 0
    if op == "redo":
        d.redo()
        if m.can_redo():
            m.i += 1
            return 1
        return 0
    if op == "clear":
        d.clear_undo_redo()
        m.states = [m.states[m.i]]
        m.i = 0
        return 0
    if op == "mod0":
        d.modified = False
        m.saved = m.states[m.i][1]
        return 0
    if op == "mod1":
        d.modified = True
        if not m.modified():
            m.saved = -1
        return 0
    raise ValueError(op)


def make(kind, text):
    if kind == "doc":
        return Document(text)
    return parce.Document(None, text, worker=Worker(TreeBuilder()))


def one(kind, text, ops, rec=None):
    d = make(kind, text)
    m = Model(text)
    log = []
    d.connect("modification_changed", lambda v: log.append(("m", v)))
    d.connect("undo_available", lambda v: log.append(("u", v)))
    d.connect("redo_available", lambda v: log.append(("r", v)))
    d.connect("text_change", lambda p, r, a: log.append(("t", p, r, a)))
    for i, op in enumerate(ops):
        before = dict(m=m.modified(), u=m.can_undo(), r=m.can_redo())
        old = m.text
        del log[:]
        n = step(d, m, op)
        w = "after {}".format(" ".join(ops[:i + 1]))
        equal(d.text(), m.text, w + ": text")
        equal(d.modified, m.modified(), w + ": modified")
        equal(d.can_undo(), m.can_undo(), w + ": can_undo")
        equal(d.can_redo(), m.can_redo(), w + ": can_redo")
        after = dict(m=m.modified(), u=m.can_undo(), r=m.can_redo())
        for k in "mur":
            got = [e[1] for e in log if e[0] == k]
            want = [after[k]] if after[k] != before[k] else []
            if got != want:
                raise Violation("{}: notifications {} sent {!r}, expected {!r}".format(w, dict(m="modification_changed", u="undo_available", r="redo_available")[k], got, want))
        ch = [e for e in log if e[0] == "t"]
        equal(len(ch), n, w + ": number of text changes reported")
        if ch:
            _, p, r, a = ch[0]
            check(old[:p] == m.text[:p] and old[p + r:] == m.text[p + a:], w, "wrong change reported", ch)
    if rec is not None:
        rec.outcome((m.text, m.modified(), m.i, len(m.states)))
    return m


def shards(tier):
    q = tier == "quick"
    out = []
    texts = ["", "ab", "aXa"]
    for first in OPS:
        out.append(dict(ops="all", n=4 if q else 5, first=first, texts=texts, kind="doc"))
        out.append(dict(ops="all", n=3 if q else 4, first=first, texts=texts[1:2], kind="full"))
    for first in CORE:
        out.append(dict(ops="core", n=5 if q else 6, first=first, texts=texts[1:2], kind="doc"))
    for first in DEEP:
        out.append(dict(ops="deep", n=8 if q else 10, first=first, texts=texts[1:2], kind="doc"))
    return out


def run_shard(s, rec):
    ops = dict(all=OPS, core=CORE, deep=DEEP)[s["ops"]]
    rec.sample(dict(text=s["texts"][0], ops=[s["first"]] + ops[:s["n"] - 1]))
    for text in s["texts"]:
        for rest in itertools.product(ops, repeat=s["n"] - 1):
            seq = (s["first"],) + rest
            rec.transitions += len(seq)
            m = rec.run(dict(kind=s["kind"], text=text, ops=seq), one, s["kind"], text, seq, rec)
            if m:
                rec.state((tuple(m.states), m.i, m.saved))


def replay(case, rec):
    rec.run(case, one, case["kind"], case["text"], case["ops"])
