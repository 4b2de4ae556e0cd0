"""Unicode data for the specification (constants of CharTable.tla), from Python's unicodedata and data/."""
import bisect, gzip, os, unicodedata as ud
from core import VERIF

# assigned after Unicode 15.0 (Python's version) but known to utf8proc 2.9
UNSTABLE = [(0x2EBF0, 0x2EE5D), (0x2FFC, 0x2FFF), (0x31EF, 0x31EF)]
WB_NAMES = ["Other", "CR", "LF", "Newline", "Extend", "Regional_Indicator", "Format", "Katakana", "Hebrew_Letter",
            "ALetter", "Single_Quote", "Double_Quote", "MidNumLet", "MidLetter", "MidNum", "Numeric", "ExtendNumLet"]
_wb = None


def wb_ranges():
    global _wb
    if _wb is None:
        r = []
        for line in gzip.open(os.path.join(VERIF, "data", "WordBreakProperty.txt.gz"), "rt", encoding="utf8"):
            line = line.split("#")[0].strip()
            if line:
                rng, name = (x.strip() for x in line.split(";"))
                a, _, b = rng.partition("..")
                r.append((int(a, 16), int(b or a, 16), name))
        _wb = sorted(r)
    return _wb


def wb(cp):
    r = wb_ranges()
    i = bisect.bisect_right(r, (cp, 0x110000, "")) - 1
    return r[i][2] if i >= 0 and r[i][0] <= cp <= r[i][1] else "Other"


def stable(cp):
    return not any(a <= cp <= b for a, b in UNSTABLE)


def scalar(cp):
    return 0 <= cp <= 0x10FFFF and not 0xD800 <= cp <= 0xDFFF


def lower(cp):
    if cp == 0x130:
        return 0x69      # simple (one to one) mapping
    s = chr(cp).lower()
    return ord(s) if len(s) == 1 else cp


def kind(cp):
    """0: shown as hexadecimal; 1: shown as itself; 2: combining mark."""
    c = ud.category(chr(cp))
    if c in ("Mn", "Mc", "Me"):
        return 2
    return 1 if c[0] in "LNPS" or c == "Co" or cp == 0x20 else 0


def wordstart(cp):
    c = ud.category(chr(cp))
    return c[0] in "LMN" or c in ("Pc", "Co")


def nfd(cp):
    if 0xD800 <= cp <= 0xDFFF:
        return [cp]
    return [ord(x) for x in ud.normalize("NFD", chr(cp))]


def _closure(cps):
    """The characters that lower-casing, decomposing and composing reach from cps, and the compositions among them."""
    S = set()
    todo = set(cps)
    while todo:
        c = todo.pop()
        if c in S:
            continue
        S.add(c)
        for d in [lower(c)] + nfd(c):
            if d not in S:
                todo.add(d)
    # compositions reachable by composing pairs, repeatedly
    comp = {}
    new = set(S)
    marks = {c for c in S if ud.combining(chr(c)) or 0x1100 <= c <= 0x11FF or ud.category(chr(c))[0] == "M"}
    while new:
        found = set()
        for a in new | (S if any(x in marks for x in new) else set()):
            for b in marks:
                if (a, b) in comp:
                    continue
                x = ud.normalize("NFC", chr(a) + chr(b))
                if len(x) == 1 and ud.normalize("NFD", x) == "".join(chr(q) for q in nfd(a) + nfd(b)) and not ud.combining(chr(a)):
                    comp[(a, b)] = ord(x)
                    if ord(x) not in S:
                        found.add(ord(x))
        S |= found
        new = found
    return S, comp


def tables(cps, groups=()):
    """The CharTable constants for a set of code points, and for groups of code points that occur together."""
    S, comp = _closure(cps)
    for g in set(map(frozenset, groups)):
        s, k = _closure(g)
        S |= s
        comp.update(k)
    return {"chars": [[c, lower(c), kind(c), 1 if wordstart(c) else 0, WB_NAMES.index(wb(c)), ud.combining(chr(c)), nfd(c)]
                      for c in sorted(S)],
            "comp": [[a, b, c] for (a, b), c in sorted(comp.items())]}
