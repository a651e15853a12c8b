"""Enumeration of texts and edits shared by C01, C03, C04, C06."""
import itertools


def strings(alphabet, n, minlen=0):
    """All strings over alphabet, shortest first."""
    for l in range(minlen, n + 1):
        for t in itertools.product(alphabet, repeat=l):
            yield "".join(t)


def apply(text, e):
    start, removed, ins = e
    return text[:start] + ins + text[start + removed:]


def inverse(text, e):
    start, removed, ins = e
    return (start, len(ins), text[start:start + removed])


def local_edits(text, lo, hi, maxremove, inserts):
    """All edits (start, removed, inserted) that touch [lo, hi]."""
    lo = max(0, lo)
    hi = min(len(text), hi)
    for start in range(lo, hi + 1):
        for removed in range(0, min(maxremove, len(text) - start) + 1):
            for ins in inserts:
                if removed == 0 and not ins:
                    continue
                if text[start:start + removed] == ins:
                    continue
                yield (start, removed, ins)


def global_edits(text, inserts):
    n = len(text)
    for start in range(n + 1):
        for removed in range(n - start + 1):
            for ins in inserts:
                if removed == 0 and not ins:
                    continue
                if text[start:start + removed] == ins:
                    continue
                yield (start, removed, ins)
