"""C18: saving and loading a document round-trips its text and encoding."""
import codecs
import functools
import itertools
import os
import shutil
import tempfile

from mc.core import Violation, check, equal

LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration: texts x declarations x encodings x byte order marks x newline settings, saved and loaded by the real code, against the documented order of encodings written with Python's codecs"
RULE = ("every combination of a text (from pieces that exercise encodings and line ends), a declaration in the syntax of its language, the encodings given on saving and loading, byte order marks and newline settings; "
        "an outcome is a distinct result (bytes or exception)")
ASSUMPTIONS = ["a declaration is within the first 5000 bytes, and in an encoding that shows ASCII as such or is written with a byte order mark",
    "the bytes of a text without byte order mark do not happen to start with one", "os.linesep is \\n"]

#: language -> declarations
DECLS = {
    None: ["{}", "encoding: {}", 'encoding="{}"', "# -*- coding: {} -*-", "coding:\t{};"],
    "lilypond": ["% encoding: {}"],
    "python": ["# -*- coding: {} -*-"],
    "xml": ['<?xml version="1.0" encoding="{}"?>'],
    "html": ['<meta charset="{}">', '<meta http-equiv="Content-Type" content="text/html; charset={}"/>', '<html><head><meta CONTENT="a; charset={}" http-equiv="content-type">'],
    "css": ['@charset "{}";'],
}
#: the first of None declares nothing
ENCS = ["utf-8", "latin1", "cp1252", "ascii", "koi8-r", "utf-16", "shift_jis", "utf-8-sig", "bogus", "hex"]
VALID = set(ENCS) - {"bogus", "hex"}
TAILS = ["", "a", "\xe9", "\u20ac", "\u05d0", "\u3042", "\U0001f600", "\xe9\n\u20ac", "a\r\nb\rc\n", "\xd7"]
HEADS = ["", "\n", "\xe9", "\u05d0 "]
NEWLINES = [None, "", "\n", "\r", "\r\n"]
BOMS = {"utf-8": codecs.BOM_UTF8, "utf-16-le": codecs.BOM_UTF16_LE, "utf-16-be": codecs.BOM_UTF16_BE, "utf-32-le": codecs.BOM_UTF32_LE, "utf-32-be": codecs.BOM_UTF32_BE}


def any_bom(data):
    return data.startswith(tuple(BOMS.values()))


@functools.cache
def lexicon(lang):
    import parce
    return parce.find(lang) if lang else None


def make(lang, decl, enc, head, tail):
    """The text, and the encoding it declares (or None)."""
    if decl is None:
        return head + tail, None
    pattern = DECLS[lang][decl]
    text = head + pattern.format(enc) + tail
    if pattern == "{}":
        return text, None
    if pattern.endswith("{}"):
        # an ASCII letter belongs to the name
        enc += tail[:1] if tail[:1].isascii() and tail[:1].isalnum() else ""
    return text, enc if enc in VALID else None


def newlines_out(text, newline):
    return text.replace("\n", newline) if newline in ("\r", "\r\n") else text


def newlines_in(text, newline):
    return text.replace("\r\n", "\n").replace("\r", "\n") if newline is None else text


def attempt(f, *args):
    """Result of f(*args) or the exception's name."""
    try:
        return f(*args)
    except UnicodeError as e:
        return "UnicodeError"


def make_doc(text, lang, encoding=None):
    from parce import Document
    from parce.treebuilder import TreeBuilder
    from parce.work import Worker
    return Document(lexicon(lang), text, None, encoding, Worker(TreeBuilder(lexicon(lang))))


def load(data, lang, encoding, newline, errors=None):
    from parce import Document
    from parce.treebuilder import TreeBuilder
    from parce.work import Worker
    lex = lexicon(lang)
    return Document.from_bytes(data, root_lexicon=lex, encoding=encoding, newline=newline, errors=errors, worker=Worker(TreeBuilder(lex)))


def run_save(lang, decl, enc, head, tail, given, docenc, newline):
    """to_bytes() gives what is expected; loading that again gives the text."""
    text, declared = make(lang, decl, enc, head, tail)
    d = make_doc(text, lang, docenc)
    used = given or docenc or declared or "utf-8"
    want = attempt(lambda: newlines_out(text, newline).encode(used))
    got = attempt(d.to_bytes, given, newline)
    equal(got, want, "bytes of {!r} in {}".format(text, used))
    check(d.text() == text and d.encoding == docenc, "document changed by to_bytes()")
    if got == "UnicodeError":
        return got
    # load it in the way that finds the encoding again
    has_bom = used in ("utf-16", "utf-8-sig")
    if any_bom(got) and not has_bom:
        return None     # ambiguous: starts with what is a mark in another encoding
    if declared and declared != used and not has_bom:
        return got      # the declaration is believed when loading
    d2 = load(got, lang, used, "" if newline != "\r\n" else None)
    want = text if newline != "\r\n" else newlines_in(newlines_out(text, newline), None)
    if newline == "\r":
        want = text.replace("\n", "\r")
    equal(d2.text(), want, "text after saving as {} and loading".format(used))
    equal(d2.encoding, used, "encoding of the loaded document")
    if not given and not docenc:
        # and without being told the encoding
        d3 = load(got, lang, None, "" if newline != "\r\n" else None)
        equal(d3.text(), want, "text after saving and loading without an encoding")
        again = attempt(lambda: load(d3.to_bytes(), lang, None, "").text())
        equal(again, want, "text after saving again")
    return got


def run_load(lang, decl, enc, head, tail, actual, bom, given, newline, errors):
    """from_bytes() of data in a certain encoding."""
    text, declared = make(lang, decl, enc, head, tail)
    try:
        data = text.encode(actual)
    except UnicodeError:
        return None
    if bom:
        data = BOMS[bom] + data
        used = bom
    else:
        if any_bom(data):
            if actual not in ("utf-16", "utf-8-sig"):
                return None
            used = actual
        else:
            used = declared or given or "utf-8"
    body = data
    for b in ([BOMS[bom]] if bom else BOMS.values()):
        if data.startswith(b) and (bom or used in ("utf-16", "utf-8-sig")):
            body = data[len(b):]
            if not bom:
                used = {"utf-16": "utf-16-le" if b == codecs.BOM_UTF16_LE else "utf-16-be", "utf-8-sig": "utf-8"}[used]
            break
    had_bom = len(body) < len(data)
    want = attempt(lambda: newlines_in(codecs.getincrementaldecoder(used)(errors or "strict").decode(body, True), newline))
    got = attempt(load, data, lang, given, newline, errors)
    if isinstance(got, str):
        equal(got, want, "loading {!r} as {}".format(data, used))
        return got
    equal(got.text(), want, "text of {!r} read as {}".format(data, used))
    if given:
        equal(got.encoding, given, "encoding of the document")
    elif not had_bom:
        # the one in the document is remembered
        equal(got.encoding, declared, "encoding of the document")
    check(got.root_lexicon() is lexicon(lang), "root lexicon")
    if not given and errors is None:
        # nothing is lost when it is saved and loaded again
        data2 = attempt(got.to_bytes, None, "")
        if isinstance(data2, str):
            check(had_bom and declared, "can't be saved again as", got.encoding)
        elif had_bom or not any_bom(data2):
            again = load(data2, lang, None, "")
            equal(again.text(), want, "text after saving again as {}".format(got.encoding))
    return got.text()


#: language -> a file name, a mime type, and the qualified name of the root lexicon
LANG = {"lilypond": ("a.ly", None, "parce.lang.lilypond.LilyPond.root"), "python": ("a.py", "text/x-python", "parce.lang.python.Python.root"), "xml": ("a.xml", "text/xml", "parce.lang.xml.Xml.root"),
    "html": ("a.html", "text/html", "parce.lang.html.Html.root"), "css": ("a.css", "text/css", "parce.lang.css.Css.root")}
HOW = ["name", "filename", "path", "mimetype", "registry name", "registry filename", "registry mimetype", "file"]

def run_how(lang, decl, enc, tail, actual, given, how):
    """Whichever way the language is told, the text is read in the same way."""
    from parce import Document
    from parce.registry import Registry
    from parce.treebuilder import TreeBuilder
    from parce.work import Worker
    text, declared = make(lang, decl, enc, "", tail)
    data = attempt(text.encode, actual)
    if data == "UnicodeError" or any_bom(data):
        return None
    want = attempt(load, data, lang, given, "")
    filename, mime, qual = LANG[lang]
    args = dict(root_lexicon=True, encoding=given, newline="", worker=Worker(TreeBuilder(lexicon(lang))))
    if how.startswith("registry"):
        # a registry that knows the language by other names
        args["registry"] = reg = Registry()
        reg.add(qual, name="json", desc="d", filenames=[("*.json", 1)], mimetypes=[("application/json", 1)])
        reg.add("parce.lang.ini.Ini.root", name=lang, desc="d", filenames=[("*" + filename[1:], 1)], mimetypes=[(mime, 1)] if mime else [])
        filename, mime, name = "a.json", "application/json", "json"
    else:
        name = lang
    how = how.replace("registry ", "")
    d = None
    try:
        if how == "name":
            args["root_lexicon"] = name
        elif how == "filename":
            args["url"] = filename
        elif how == "path":
            args["url"] = "/x.json/a.ini/" + filename
        elif how == "mimetype":
            if mime is None:
                return None
            args["mimetype"] = mime
        if how == "file":
            d = tempfile.mkdtemp(prefix="mc-c18-")
            path = os.path.join(d, filename)
            with open(path, "wb") as f:
                f.write(data)
            got = attempt(lambda: Document.load(path, **args))
        else:
            got = attempt(lambda: Document.from_bytes(data, **args))
    finally:
        if d:
            shutil.rmtree(d)
    if isinstance(want, str) or isinstance(got, str):
        equal(got, want, "loading {!r}".format(data))
        return got
    equal((got.root_lexicon(), got.text(), got.encoding), (lexicon(lang), want.text(), want.encoding), "lexicon, text and encoding of {!r}".format(data))
    equal(got.url, path if how == "file" else args.get("url"), "url")
    return got.text()


URLS = ["{d}/f.txt", "file://{d}/f.txt", "file:{d}/f.txt", "{d}/a b.txt"]

def run_file(url, text, enc, newline, second):
    """Save to and load from a real file; a failing save does not touch it."""
    from parce import Document
    from parce.treebuilder import TreeBuilder
    from parce.work import Worker
    d = tempfile.mkdtemp(prefix="mc-c18-")
    try:
        url = url.format(d=d)
        path = url[7:] if url.startswith("file://") else url[5:] if url.startswith("file:") else url
        doc = make_doc("", None)
        doc.set_text(text)
        check(doc.modified == bool(text), "modified after setting the text")
        doc.save(url, enc, newline)
        equal(os.listdir(d), [os.path.basename(path)], "files written")
        with open(path, "rb") as f:
            data = f.read()
        equal(data, newlines_out(text, newline).encode(enc or "utf-8"), "file contents")
        check(not doc.modified, "modified after saving")
        equal((doc.url, doc.encoding), (url, enc), "url and encoding of the document")
        d2 = Document.load(url, None, enc, None, newline, worker=Worker(TreeBuilder()))
        equal(d2.text(), newlines_in(newlines_out(text, newline), newline), "text loaded")
        equal((d2.url, d2.encoding), (url, enc or None), "url and encoding of the loaded document")
        check(not d2.modified and not d2.can_undo(), "loaded document modified")
        # a second save to the same place
        doc.append(second)
        want = attempt(lambda: (text + second).encode(enc or "utf-8"))
        r = attempt(doc.save)
        if want == "UnicodeError":
            equal(r, want, "saving text that can't be encoded")
            with open(path, "rb") as f:
                equal(f.read(), data, "file after a failed save")
            check(doc.modified, "not modified after a failed save")
        else:
            with open(path, "rb") as f:
                equal(f.read(), want, "file after the second save")
            check(not doc.modified, "modified after saving")
        equal(doc.text(), text + second, "text of the document")
        return want
    finally:
        shutil.rmtree(d)


def run_localfile(url, want):
    from parce.docio import localfile
    try:
        got = localfile(url)
    except ValueError:
        got = None
    equal(got, want, "localfile({!r})".format(url))


LOCAL = [("/a/b", "/a/b"), ("a", "a"), ("file:/a/b", "/a/b"), ("file:///a/b", "/a/b"), ("file://host/a", None), ("http://x/a", None), ("//x/a", None), ("a b#c?d", "a b#c?d"), ("ftp:/x", None)]


def shards(tier):
    quick = tier == "quick"
    r = []
    for lang, decls in DECLS.items():
        for decl in [None] + list(range(len(decls))):
            for enc in (ENCS if decl is not None and decls[decl] != "{}" else ["utf-8"]):
                r.append(["save", lang, decl, enc, quick])
                r.append(["load", lang, decl, enc, quick])
                if lang:
                    r.append(["how", lang, decl, enc])
    for url in URLS:
        r.append(["file", url])
    return r


def bounds(tier):
    return ("{} declarations in 6 languages x {} encodings (2 of them not usable) x {} texts before x {} texts after it x encodings given x {} newline settings x 5 byte order marks; {} ways to tell the language; {} url forms").format(
        sum(map(len, DECLS.values())), len(ENCS), len(HEADS), len(TAILS), len(NEWLINES), len(HOW), len(URLS))


def run_shard(shard, rec):
    what = shard[0]
    if what == "save":
        _, lang, decl, enc, quick = shard
        heads = HEADS if lang in (None, "css", "lilypond", "python") else ["", "\n"]
        for head, tail in itertools.product(heads, TAILS):
            for given in [None, "utf-8", "latin1", "utf-16"]:
                for docenc in [None, "utf-8", "cp1252", "koi8-r"]:
                    for newline in (NEWLINES if lang is None or not quick else [None, "\r\n"]):
                        case = dict(lang=lang, decl=decl, enc=enc, head=head, tail=tail, given=given, docenc=docenc, newline=newline)
                        out = rec.run(case, run_save, lang, decl, enc, head, tail, given, docenc, newline)
                        rec.outcome(out)
                        rec.state((lang, decl, enc, head, tail))
    elif what == "load":
        _, lang, decl, enc, quick = shard
        heads = HEADS if lang in (None, "css", "lilypond", "python") else ["", "\n"]
        for head, tail in itertools.product(heads, TAILS):
            ways = [(a, None) for a in VALID] + [(b, b) for b in BOMS]
            for actual, bom in sorted(ways, key=str):
                for given in [None, "utf-8", "latin1", "utf-16"]:
                    for newline in (NEWLINES if lang is None and not quick else [None, ""]):
                        for errors in (None, "replace") if given in (None, "utf-8") else (None,):
                            case = dict(lang=lang, decl=decl, enc=enc, head=head, tail=tail, actual=actual, bom=bom, given=given, newline=newline, errors=errors)
                            out = rec.run(case, run_load, lang, decl, enc, head, tail, actual, bom, given, newline, errors)
                            rec.outcome(out)
                            rec.state((lang, decl, enc, head, tail, "load"))
    elif what == "how":
        _, lang, decl, enc = shard
        for tail, actual, given, how in itertools.product(TAILS[:5], ["utf-8", "latin1", "koi8-r"], [None, "latin1"], HOW):
            case = dict(lang=lang, decl=decl, enc=enc, tail=tail, actual=actual, given=given, how=how)
            rec.outcome(rec.run(case, run_how, lang, decl, enc, tail, actual, given, how))
            rec.state((lang, decl, enc, tail, actual, how))
    else:
        for u, w in LOCAL:
            rec.run(dict(url=u, want=w), run_localfile, u, w)
        for text in TAILS:
            for enc in (None, "utf-8", "latin1", "utf-16", "koi8-r"):
                try:
                    if any_bom(text.encode(enc or "utf-8")) and enc != "utf-16":
                        continue
                except UnicodeError:
                    continue
                for newline in NEWLINES:
                    for second in ("x", "\xe9", "\u20ac"):
                        case = dict(url=shard[1], text=text, enc=enc, newline=newline, second=second)
                        rec.outcome(rec.run(case, run_file, shard[1], text, enc, newline, second))
                        rec.state((shard[1], text, enc, newline))


def replay(case, rec):
    c = case
    if "want" in c:
        rec.run(c, run_localfile, c["url"], c["want"])
    elif "url" in c:
        rec.run(c, run_file, c["url"], c["text"], c["enc"], c["newline"], c["second"])
    elif "how" in c:
        rec.run(c, run_how, c["lang"], c["decl"], c["enc"], c["tail"], c["actual"], c["given"], c["how"])
    elif "actual" in c:
        rec.run(c, run_load, c["lang"], c["decl"], c["enc"], c["head"], c["tail"], c["actual"], c["bom"], c["given"], c["newline"], c["errors"])
    else:
        rec.run(c, run_save, c["lang"], c["decl"], c["enc"], c["head"], c["tail"], c["given"], c["docenc"], c["newline"])
