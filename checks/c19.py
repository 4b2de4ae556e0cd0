"""C19: words are the Unicode word segments that start with a word character."""
import itertools, unicodedata
import gen, uni, words
from words import CLASS, sequence

KS = sorted(CLASS)
NOISY = ["ALetter", "ALetter", "Numeric", "Extend", "Format", "MidLetter", "MidNum", "MidNumLet", "Single_Quote", "Double_Quote", "Hebrew_Letter", "ExtendNumLet", "Katakana",
         "Regional_Indicator", "LF", "Newline", "Other"]


def lines(seqs, per):
    """Several sequences per file; a newline starts anew."""
    return [("\n".join(seqs[i:i + per]),) for i in range(0, len(seqs), per)]


def cases(c):
    rng = c.rng
    out = [("",), ("\n",), ("\u0301",), ("\u00ad\u00ad",)]
    seqs = [sequence(rng, k) for n in (1, 2, 3) for k in itertools.product(KS, repeat=n)]
    if not c.quick:
        seqs += [sequence(rng, k) for k in itertools.product(KS, repeat=4) if "Newline" not in k[:1]]
    out += lines(seqs, 12)
    n = 700 if c.quick else 8000
    for i in range(n):       # longer sequences, alone in a file
        out.append((sequence(rng, [rng.choice(NOISY) for _ in range(rng.randint(4, 14))]),))
    # the bounds of every range of word break classes, in contexts that tell the classes apart
    rs = uni.wb_ranges()
    cp = sorted({q for a, b, _ in rs for q in (a - 1, a, b, b + 1, (a + b) // 2) if uni.scalar(q) and uni.stable(q)})
    if not c.quick:
        cp = sorted(set(cp) | set(q for q in rng.sample(range(0x110000), 30000) if uni.scalar(q) and uni.stable(q)))
    probe = []
    for q in cp:
        ch = chr(q)
        probe.append("a%sb %s%s 1%s2 \u05d0%s\u05d0 \u30ab%s\u30ab _%s_ a%s %s \U0001F1E6%s %s:%s %s,%s %s.%s %s\"%s \u05d0%s! %s'!" % ((ch,) * 20))
    out += lines(probe, 8)
    # characters of every general category and word break class, at the start of a text, of a line and of a word
    groups = {}
    for q in range(0x110000):
        if uni.scalar(q) and uni.stable(q) and q not in (10, 94):
            groups.setdefault((unicodedata.category(chr(q)), uni.wb(q)), []).append(q)
    for g in sorted(groups, key=str):
        qs = groups[g] if len(groups[g]) <= (40 if c.quick else 400) else rng.sample(groups[g], 6 if c.quick else 60)
        for k in range(0, len(qs), 12):
            out.append((chr(qs[k]) + "b\n" + "\n".join(f % chr(q) for q in qs[k:k + 12] for f in ("%s", "%sb", "%s 1", "b %s1")),))
    # word starts, lower case and normalization
    cased = [q for q in range(0x110000) if uni.scalar(q) and uni.stable(q) and (uni.lower(q) != q or uni.nfd(q) != [q])]
    hangul = [q for q in cased if 0xAC00 <= q < 0xD7A4]
    cased = [q for q in cased if not 0xAC00 <= q < 0xD7A4]
    cased = cased + rng.sample(hangul, 60 if c.quick else 1500)
    out += lines(["x%s %s" % (chr(q), chr(q)) for q in cased], 20)
    marks = [chr(q) for q in range(0x300, 0x345)] + ["\u05b0", "\u05bc", "\u093c", "\u0b56", "\u0327", "\u031b", "\u0323"]
    base = "aAeEoOuU\u00e9\u01d6\u1e69\u0438\u05e9\u0928\u0b47\u1100\u1161\u11a8\uac00\u212b\u2126\ufb2c"
    for i in range(300 if c.quick else 4000):      # combining sequences in any order
        s = "".join(rng.choice(base) + "".join(rng.choice(marks) for _ in range(rng.randint(0, 4))) for _ in range(rng.randint(1, 4)))
        out.append((s,))
    for i in range(100 if c.quick else 1000):      # marked, spaced text
        out.append((gen.rand_string(rng, "ab'.1_ ^~\n\t:,A\u00e9", 5, 60),))
    for i in range(2 if c.quick else 10):          # long words
        k = rng.choice((500, 3000))
        out.append(("".join(rng.choice("ab\u00e9\u0301\U00010400") for _ in range(k)) + " " + "1." * k,))
    return out


def body(c):
    c.build()
    c.model("MCWordBreaks", what="the one-pass scanner finds exactly the boundaries of the rules; segments tile the text")
    if not c.quick:
        c.model("MCWordBreaks", "MCWordBreaksThorough", what="same, longer texts")
    cs = cases(c)
    ev = words.check(c, cs, "texts segmented")
    c.sample(lambda: {"text": ev[400]["_case"][0], "words": [bytes(w).decode("utf8", "replace") for w, n in ev[400]["alpha"]]})
