"""C22: languages are found as registered."""
import fnmatch
import itertools
import re

import parce
from parce.registry import Registry, Entry, registry
from parce.lexicon import Lexicon

from mc.core import Violation, check, equal

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small registries, fallback chains, queries and registration histories against a reference model"
RULE = ("every ordered registry of <= 3 entries over a menu of entries x every query of the menu; every fallback chain; every history "
        "of add, override, inherit, delete, copy; every bundled entry x every registered name, alias, pattern, mime type; an outcome is a distinct answer")
ASSUMPTIONS = ["file name patterns are matched with fnmatch's rules for this platform",
    "the score is: best file name weight + best mime type weight; when nothing matches or the two best are equal, the matching content guesses' weights are added"]

QUALS = ["parce.lang.json.Json.root", "parce.lang.css.Css.root", "parce.lang.ini.Ini.root"]


def E(name, aliases=(), filenames=(), mimetypes=(), guesses=(), section="", author=""):
    return dict(name=name, desc="d", aliases=list(aliases), filenames=list(filenames),
        mimetypes=list(mimetypes), guesses=list(guesses), section=section, author=author)


MENU = [
    E("Foo"),
    E("foo"),
    E("Bar", ["foo"]),
    E("bar", ["FOO", "Json"]),
    E("Baz", ["css"], [("*.x", .5)]),
    E("F1", filenames=[("*.x", 1), ("a*", .3)], mimetypes=[("t/a", .2)]),
    E("F2", filenames=[("a*", .5), ("*.x", .3)], guesses=[("^#!", .5), ("zz", .1)]),
    E("F3", filenames=[("[ab].y", .5)], mimetypes=[("t/a", .5), ("t/a", .1), ("t/b", 1)], guesses=[("^#!", .3)]),
    E("F4", filenames=[("a.y", .5)], mimetypes=[("t/a", .5)], guesses=[("zz", .5)]),
    E("F5", guesses=[("zz$", .2), ("#!", .5), ("end", 1)]),
    E("F6", filenames=[("A.X", 1)], mimetypes=[("T/A", 1)], guesses=[("(?i)ZZ", .4)]),
    E("F7", filenames=[("*.x", 0)], mimetypes=[("t/b", .3)], guesses=[("zz", -.2)]),
]
NAMES = ["Foo", "foo", "FOO", "Bar", "json", "JSON", "css", "Css", "ini", "nope", "baz", "root", "F1"]
FILES = [None, "a.x", "b.y", "a.y", "A.X", "none"]
MIMES = [None, "t/a", "t/b", "T/a"]
LONG = "y" * 4998
CONTENTS = [None, "#!zz", " zz", "zz\n#!", LONG + "zz" + "end", LONG + "  zz"]


def bounds(tier):
    return "{} menu entries, ordered registries of <= {} entries, {} name + {} other queries; fallback chains of 3; histories of {} operations; all {} bundled entries".format(
        len(MENU), 3, len(NAMES), len(FILES) * len(MIMES) * len(CONTENTS), 4 if tier == "quick" else 5, len(registry))


# ---- reference ---------------------------------------------------------------
def ref_qualname(entries, name):
    """entries: list of (qualname, Entry-like dict)"""
    tests = [
        lambda q, e: e["name"] == name,
        lambda q, e: name in e["aliases"],
        lambda q, e: name.lower() in [n.lower() for n in [e["name"]] + list(e["aliases"])],
        lambda q, e: q.split(".")[-2].lower() == name.lower(),
    ]
    for t in tests:
        for q, e in entries:
            if t(q, e):
                return q
    return None


def ref_suggest(entries, filename, mimetype, contents):
    """Return list of groups: [(score, [qualnames])] best first."""
    score = {}
    order = []
    for q, e in entries if filename else ():
        w = [w for p, w in e["filenames"] if fnmatch.fnmatch(filename, p)]
        if w and max(w):
            score[q] = max(w)
            order.append(q)
    for q, e in entries if mimetype else ():
        w = [w for m, w in e["mimetypes"] if m == mimetype]
        if w and max(w):
            if q not in score:
                order.append(q)
            score[q] = score.get(q, 0) + max(w)
    best = sorted(score.values(), reverse=True)
    if len(best) == 1 or (len(best) > 1 and best[0] > best[1]):
        pass
    elif contents:
        for q, e in entries:
            if best and q not in score:
                continue
            w = sum(w for r, w in e["guesses"] if re.search(r, contents[:5000]))
            if w:
                if q not in score:
                    order.append(q)
                score[q] = score.get(q, 0) + w
    return score


def ref_best(entries, filename, mimetype, contents):
    """The set of languages the find() may return (best score, ties by registration)."""
    score = ref_suggest(entries, filename, mimetype, contents)
    if not score:
        return None
    top = max(score.values())
    return [q for q, e in entries if q in score and score[q] == top]


def verify_suggest(got, entries, f, m, c, what):
    score = ref_suggest(entries, f, m, c)
    equal(sorted(got), sorted(score), what + ": languages suggested")
    s = [score[q] for q in got]
    check(all(x >= y for x, y in zip(s, s[1:])), what, ": not in order of relevance", got, score)
    # ties: by registration among those that matched by the same kind of evidence
    order = [q for q, e in entries]
    kinds = {q: kind_of(e, f, m, c) for q, e in entries}
    for x, y in zip(got, got[1:]):
        if score[x] == score[y] and kinds[x] == kinds[y]:
            check(order.index(x) < order.index(y), what, ": tie not by registration", got)


def kind_of(e, f, m, c):
    return (bool(f) and any(fnmatch.fnmatch(f, p) and w for p, w in e["filenames"]),
            bool(m) and any(t == m and w for t, w in e["mimetypes"]),
            bool(c) and any(re.search(r, c[:5000]) for r, w in e["guesses"]))


def make(entries, fallback=None):
    r = Registry(fallback)
    for q, e in entries:
        r.add(q, **e)
    return r


def queries(r, entries, rec):
    what = repr(sorted((q, e["name"]) for q, e in entries))
    for n in NAMES:
        rec.transitions += 1
        got = r.qualname(n)
        want = ref_qualname(entries, n)
        equal(got, want, what + " qualname({!r})".format(n))
        rec.outcome(("q", n, got))
        lex = r.find(n)
        equal(lex, lex_of(want), what + " find({!r})".format(n))
    for f, m, c in itertools.product(FILES, MIMES, CONTENTS):
        rec.transitions += 1
        got = r.suggest(f, m, c)
        verify_suggest(got, entries, f, m, c, what + " suggest{!r}".format((f, m, c and c[-9:])))
        rec.outcome(("s", f, m, c, tuple(got)))
        lex = r.find(filename=f, mimetype=m, contents=c)
        equal(lex, lex_of(got[0] if got else None), what + " find")


_lex = {}
def lex_of(q):
    if q is None:
        return None
    if q not in _lex:
        mod, cls, root = q.rsplit(".", 2)
        import importlib
        _lex[q] = getattr(getattr(importlib.import_module(mod), cls), root)
    return _lex[q]


def run_registry(entries, rec):
    r = make(entries)
    queries(r, entries, rec)
    # asking changes nothing
    equal(list(r.items()), list(make(entries).items()), "registry after asking")
    sec = r.by_section()
    equal(sorted(q for d in sec.values() for q in d), sorted(q for q, e in entries), "by_section")
    for s, d in sec.items():
        for q, e in d.items():
            equal(e.section, s, "section")
            check(r[q] is e, "by_section gives another entry")


# ---- fallback chains ---------------------------------------------------------
CHAIN_REGS = [[], [(0, 0)], [(1, 2)], [(0, 5), (1, 6)], [(2, 4), (1, 7)], [(2, 9)]]


def run_chain(indices, rec):
    reg = None
    regs = []
    for i in reversed(indices):
        entries = [(QUALS[a], MENU[b]) for a, b in CHAIN_REGS[i]]
        if reg is not None or len(regs) % 2:
            reg = make(entries, reg)
        else:
            reg = make(entries)
        regs.insert(0, (reg, entries))
    def first(f):
        for r, e in regs:
            v = f(e)
            if v is not None:
                return v
    for n in NAMES:
        rec.transitions += 1
        got = reg.find(n)
        equal(got, lex_of(first(lambda e: ref_qualname(e, n))), "find({!r}) in chain {}".format(n, indices))
        rec.outcome((n, repr(got)))
        # own answer only
        equal(reg.qualname(n), ref_qualname(regs[0][1], n), "qualname")
    for f, m, c in itertools.product(FILES, MIMES, CONTENTS):
        rec.transitions += 1
        got = reg.find(filename=f, mimetype=m, contents=c)
        want = None
        for r, e in regs:
            s = r.suggest(f, m, c)
            if s:
                want = s[0]
                break
        equal(got, lex_of(want), "find{!r} in chain {}".format((f, m, c and c[-9:]), indices))
    cp = reg.copy()
    check(cp.fallback is reg.fallback and type(cp) is type(reg) and dict(cp) == dict(reg) and cp is not reg, "copy")
    for n in NAMES:
        equal(cp.find(n), reg.find(n), "find in the copy")


# ---- histories -----------------------------------------------------------------
def ops():
    for q in QUALS[:2]:
        yield "add", q, 2
        yield "add", q, 5
        yield "del", q
        for t in QUALS[:2]:
            yield "inherit", q, t, "full"
            yield "inherit", q, t, "min"
    yield "copy",
    yield "bad", QUALS[0]


FULL = dict(name="New", desc="nd", section="ns", author="na", aliases=["n1"], filenames=[("n", .1)], mimetypes=[("n/n", .1)], guesses=[("n", .1)])


def run_history(hist, rec):
    """Registration operations against a plain list of entries."""
    r = Registry()
    model = []      # (qualname, dict)
    aside = None
    for op in hist:
        rec.transitions += 1
        before = list(r.items())
        kind = op[0]
        if kind == "add":
            r.add(op[1], **MENU[op[2]])
            put(model, op[1], MENU[op[2]])
        elif kind == "del":
            if any(q == op[1] for q, e in model):
                del r[op[1]]
                model = [(q, e) for q, e in model if q != op[1]]
        elif kind == "bad":
            for kw in (dict(name="x"), dict(desc="x"), dict(name="", desc="x")):
                try:
                    r.add(op[1], **kw)
                except ValueError:
                    pass
                else:
                    raise Violation("add() accepted {}".format(kw))
            equal(list(r.items()), before, "registry after a refused add()")
        elif kind == "inherit":
            q, t = op[1], op[2]
            kw = FULL if op[3] == "full" else {}
            old = dict(model).get(t)
            try:
                r.add(q, inherit=t, **kw)
            except KeyError:
                check(old is None, "inherit of an existing entry raises KeyError")
                equal(list(r.items()), before, "registry after a refused inherit")
            else:
                check(old is not None, "inherit of a missing entry was accepted")
                model = [(k, e) for k, e in model if k != t]
                new = dict(old)
                for k in ("name", "desc", "section"):
                    new[k] = kw.get(k) or old[k]
                a, b = old["author"], kw.get("author", "")
                new["author"] = a if not b or a == b else a + " + " + b if a else b
                for k in ("aliases", "filenames", "mimetypes", "guesses"):
                    new[k] = list(old[k]) + list(kw.get(k, ()))
                put(model, q, new)
        elif kind == "copy":
            aside = (r, list(r.items()))
            r = r.copy()
        got = [(q, {k: (list(v) if k in ("aliases", "filenames", "mimetypes", "guesses") else v) for k, v in e._asdict().items()}) for q, e in r.items()]
        equal(dict(got), {q: full(e) for q, e in model}, "entries after {}".format(op))
        equal([q for q, e in got], [q for q, e in model], "registration order after {}".format(op))
        rec.state(repr(got))
        if aside:
            equal(list(aside[0].items()), aside[1], "the registry that was copied")
    for n in ("foo", "Bar", "New", "n1", "json"):
        equal(r.qualname(n), ref_qualname(model, n), "qualname({!r})".format(n))
    for f, m, c in itertools.product(["a.x", "n", None], ["t/a", "n/n", None], ["n", None]):
        verify_suggest(r.suggest(f, m, c), model, f, m, c, "suggest{!r}".format((f, m, c)))
    rec.outcome(repr(model))


def full(e):
    d = dict(section="", author="")
    d.update(e)
    return d


def put(model, q, e):
    for i, (k, _) in enumerate(model):
        if k == q:
            model[i] = q, e
            return
    model.append((q, e))


# ---- bundled languages -----------------------------------------------------------
def instances(pattern):
    """File names that match a glob pattern of the kinds used here."""
    out = [""]
    i = 0
    while i < len(pattern):
        ch = pattern[i]
        if ch == "*":
            out = [o + x for o in out for x in ("", "name")]
        elif ch == "?":
            out = [o + "q" for o in out]
        elif ch == "[":
            j = pattern.index("]", i + 2)
            chars = pattern[i+1:j]
            if "-" in chars or chars[0] == "!":
                chars = [c for c in map(chr, range(33, 127)) if fnmatch.fnmatchcase(c, "[" + chars + "]")]
            out = [o + x for o in out for x in chars]
            i = j
        else:
            out = [o + ch for o in out]
        i += 1
    return out


def bundled(rec):
    return [(q, e._asdict()) for q, e in registry.items()]


def run_bundled(q, rec):
    entries = bundled(rec)
    e = dict(entries)[q]
    lex = registry.lexicon(q)
    check(isinstance(lex, Lexicon), q, "is not a lexicon")
    equal(lex, lex_of(q), "lexicon()")
    equal(str(lex), ".".join(q.split(".")[-2:]), "the lexicon named " + q)
    equal(registry.qualname(e["name"]), q, "qualname of the language's own name")
    check(parce.find(e["name"]) is lex, "find by own name")
    for n in {e["name"], e["name"].lower(), e["name"].upper(), q.split(".")[-2]} | set(e["aliases"]):
        rec.transitions += 1
        got = registry.qualname(n)
        equal(got, ref_qualname(entries, n), "qualname({!r})".format(n))
        check(parce.find(n) is lex_of(got), "find", n)
        rec.outcome((n, got))
    for p, w in e["filenames"]:
        check(0 < w <= 1, "weight out of range", p)
        for f in instances(p):
            for m in [None] + [m for m, w in e["mimetypes"]]:
                rec.transitions += 1
                got = registry.suggest(f, m)
                check(q in got, f, "does not suggest", q)
                verify_suggest(got, entries, f, m, None, "suggest({!r},{!r})".format(f, m))
                check(parce.find(filename=f, mimetype=m) is lex_of(got[0]), "find by file name", f)
                rec.outcome((f, m, tuple(got)))
    for m, w in e["mimetypes"]:
        rec.transitions += 1
        got = registry.suggest(mimetype=m)
        check(q in got, m, "does not suggest", q)
        verify_suggest(got, entries, None, m, None, "mime " + m)
        check(parce.find(mimetype=m) is lex_of(got[0]), "find by mime type", m)
    for r, w in e["guesses"]:
        re.compile(r)


def shards(tier):
    out = []
    n = len(MENU)
    for a in range(n):
        out.append(["reg", a])
    for a in range(len(CHAIN_REGS)):
        out.append(["chain", a])
    k = list(ops())
    for i in range(len(k)):
        out.append(["hist", i, 4 if tier == "quick" else 5])
    out.append(["bundled"])
    out.append(["global"])
    return out


def run_shard(shard, rec):
    if shard[0] == "reg":
        a = shard[1]
        for extra in range(3):
            for rest in itertools.product(range(len(MENU)), repeat=extra):
                for perm in (0, 1):
                    quals = QUALS if not perm else QUALS[::-1]
                    entries = [(quals[i], MENU[j]) for i, j in enumerate((a,) + rest)]
                    rec.run(dict(kind="reg", perm=perm, menu=[a, *rest]), run_registry, entries, rec)
        if a == 0:
            rec.run(dict(kind="reg", perm=0, menu=[]), run_registry, [], rec)
    elif shard[0] == "chain":
        for rest in itertools.product(range(len(CHAIN_REGS)), repeat=2):
            rec.run(dict(kind="chain", regs=[shard[1], *rest]), run_chain, [shard[1], *rest], rec)
        rec.run(dict(kind="chain", regs=[shard[1]]), run_chain, [shard[1]], rec)
    elif shard[0] == "hist":
        k = list(ops())
        for n in range(shard[2]):
            for rest in itertools.product(k, repeat=n):
                h = [k[shard[1]], *rest]
                rec.run(dict(kind="hist", hist=h), run_history, h, rec)
    elif shard[0] == "bundled":
        for q in list(registry):
            rec.run(dict(kind="bundled", q=q), run_bundled, q, rec)
    else:
        rec.run(dict(kind="global"), run_global, rec)


def run_global(rec):
    """register() and parce.find() work on the global registry (put back afterwards)."""
    from parce.registry import register
    saved = dict(registry)
    try:
        check(parce.find("no such language") is None, "find of nothing")
        check(parce.find(filename="no.such.name.zzz") is None, "find of nothing")
        check(parce.find() is None, "find without arguments")
        register("parce.lang.json.Json.array", name="Special", desc="x", aliases=["spec"], filenames=[("*.spec", 1)])
        check(parce.find("spec") is lex_of("parce.lang.json.Json.array"), "a registered language is not found")
        check(parce.find(filename="a.spec") is lex_of("parce.lang.json.Json.array"), "a registered language is not found")
        check(parce.find("json") is lex_of("parce.lang.json.Json.root"), "another language changed")
        for q in saved:
            check(registry[q] is saved[q], "another entry changed", q)
        reg = Registry(registry)
        check(reg.find("spec") is lex_of("parce.lang.json.Json.array"), "not found via fallback")
        reg.add("parce.lang.css.Css.rule", name="spec", desc="y")
        check(reg.find("spec") is lex_of("parce.lang.css.Css.rule"), "own registry not preferred")
        rec.transitions += 10
    finally:
        registry.clear()
        registry.update(saved)


def replay(case, rec):
    if case["kind"] == "reg":
        quals = QUALS if not case["perm"] else QUALS[::-1]
        entries = [(quals[i], MENU[j]) for i, j in enumerate(case["menu"])]
        rec.run(case, run_registry, entries, rec)
    elif case["kind"] == "chain":
        rec.run(case, run_chain, case["regs"], rec)
    elif case["kind"] == "hist":
        rec.run(case, run_history, [tuple(h) for h in case["hist"]], rec)
    elif case["kind"] == "bundled":
        rec.run(case, run_bundled, case["q"], rec)
    else:
        rec.run(case, run_global, rec)
