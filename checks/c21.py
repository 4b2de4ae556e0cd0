"""C21: the breakdowns of the word accuracy report."""
import gen, wordacc
from c20 import edited, text
from c08 import STOPS

BUILTIN = ("a about after all also an and any are as at back be because been but by can could did do does down each first for from get good had has have he her him "
           "his how i if in into is it its just know like little long made make man many may me more most my new no not now of on one only or other our out over said "
           "same see she so some than that the their them then there these they this to too two up us used very was way we were what when where which who why will "
           "with woman would you your").split()
NEAR = "ab thee off hers being cannot been's wont aa i'm t st whose goods mens womens newly d s".split()
ODD = ["\u00e9t\u00e9", "E\u0301te\u0301", "\u0391\u0392\u0393", "\u03b1\u03b2\u03b3", "can't", "3.14", "1,000", "x_y", "\u30ab\u30bf", "\u4e2d", "\U00010400\U00010401", "\U0001D7D8\U0001D7D9",
       "\u212b", "\u00e5", "na\u00efve", "a\u00adb", "\ufb21\u05d0", "1st", "\u0939\u093f", "\uac00", "\u1100\u1161", "\ue000", "\U000F0000", "\U00100000", "\U0010FFFD"]


def word_of_length(rng, n):
    """n characters after normalization."""
    return "".join(rng.choice("ab\u00e9\u0436\U00010428e0") for _ in range(n))


def cases(c):
    rng = c.rng
    out = [{"a": "", "b": ""}, {"a": "", "b": "x y"}, {"a": "x y", "b": ""}, {"a": "the", "b": ""}, {"a": "the", "b": "the"}, {"a": " . ", "b": "the"},
           {"a": "x " * 8, "b": ""}, {"a": "x " * 7, "b": "x"}, {"a": "x " * 9, "b": "x x"}]
    # stopwords: each built-in one, neighbours, case; lists of every kind
    for i in range(30 if c.quick else 300):
        ws = rng.sample(BUILTIN, 12) + rng.sample(NEAR, 4)
        rng.shuffle(ws)
        ws = [rng.choice((w, w, w.upper(), w.capitalize())) for w in ws]
        out.append({"a": text(rng, ws), "b": text(rng, edited(rng, ws, NEAR, 0.3))})
    out.append({"a": " ".join(BUILTIN), "b": " ".join(BUILTIN[::2])})
    for i in range(350 if c.quick else 4000):
        pool = rng.sample(BUILTIN, 4) + rng.sample(NEAR, 3) + rng.sample(ODD, 5)
        ws = [rng.choice(pool) for _ in range(rng.choice((1, 3, 8, 12, 25)))]
        k = rng.random()
        S = None
        if k < 0.6:
            S = text(rng, [rng.choice(pool) for _ in range(rng.choice((0, 1, 3, 6)))])
            if rng.random() < 0.15:
                S = "^" + S.replace(" ", "^ ")
            if rng.random() < 0.1:
                S = "  \n\u2028 ~ . \n" + S.upper()
        out.append({"a": text(rng, ws), "b": text(rng, edited(rng, ws, pool, rng.choice((0.1, 0.4)))), "S": S, "at": rng.randint(0, 2), "to": rng.choice(("out", "file"))})
    # long stopword files; the words of the text are anywhere in them, often last
    for i in range(4 if c.quick else 40):
        n = rng.choice((130, 257, 400, 600))
        S = ["s%d" % j for j in range(n)]
        rng.shuffle(S)
        ws = [rng.choice(S + S[-3:] * n + S[:3] * n + ["x", "y"] * n) for _ in range(12)]
        out.append({"a": text(rng, ws), "b": text(rng, edited(rng, ws, ["q"], 0.3)), "S": rng.choice((" ", "\n", ", ")).join(S) + rng.choice(("", "\n"))})
    # marks without a letter, at the start of lines and after blanks
    for i in range(40 if c.quick else 400):
        al = ["\u0301", "\u0903", "a", "b", " ", "  ", "\n", " \n ", "\t", "\u2028", "."]
        S, a = ("".join(rng.choice(al) for _ in range(rng.randint(1, 14))) for _ in range(2))
        out.append({"a": a, "b": gen.mutate(rng, a, "ab \n\u0301", 0.2), "S": S})
    # lengths, in characters, around all limits
    for i in range(60 if c.quick else 600):
        ls = [rng.choice((1, 2, 9, 10, 48, 49, 50, 51, 52, 60, 127, 128, 255, 256, 300)) for _ in range(rng.randint(3, 8))]
        ws = [word_of_length(rng, n) for n in ls]
        S = None
        if rng.random() < 0.4:
            S = " ".join(rng.sample(ws, len(ws) // 2))
        out.append({"a": text(rng, ws), "b": text(rng, edited(rng, ws, ["q"], 0.4)), "S": S})
    for n in (4, 8, 16, 24, 32, 40, 50, 64, 128, 255, 256, 300):       # words that differ only at the end
        ws = gen.alike(rng, n)
        out.append({"a": text(rng, [rng.choice(ws) for _ in range(6)]), "b": text(rng, [rng.choice(ws) for _ in range(6)]), "S": text(rng, rng.sample(ws, rng.randint(0, 3)))})
    # numbers of occurrences around 10, all of them missed or not; word order (unique matching) is kept
    for i in range(80 if c.quick else 800):
        ws, b = [], []
        for w in rng.sample(NEAR + ODD + BUILTIN, rng.randint(1, 6)):
            n = rng.choice((1, 2, 9, 10, 11, 12, 13))
            m = rng.choice((0, n, rng.randint(0, n)))
            ws += [w] * n
            b += [w] * m + ["zz%d" % i] * rng.randint(0, 2)
        out.append({"a": text(rng, ws), "b": text(rng, b)})
    # words that occur very often
    for i in range(24 if c.quick else 240):
        ws = rng.sample([w for w in NEAR if "'" not in w] + ["\u00e9t\u00e9", "x_y", "3.14", "na\u00efve", "q" * 60] + BUILTIN, rng.randint(1, 7))
        out.append({"runs": [[w, rng.choice((1, 9, 10, 11, 254, 255, 256, 257, 258, rng.randint(259, 600), 1000) + ((32767, 32769) if not i % 6 else ())), rng.random() < 0.6] for w in ws],
                    "gap": rng.choice((" ", "\n", ". ")), "S": " ".join(rng.sample(ws, len(ws) // 2)) if rng.random() < 0.4 else None})
    for i in range(1 if c.quick else 4):
        out.append({"runs": [["x", 65537, False], ["the", 300, True], ["of", 65536, False], ["y", rng.choice((256, 512)), True]], "gap": " "})
    # phrases
    for i in range(150 if c.quick else 1500):
        n = rng.choice((1, 2, 6, 7, 8, 9, 10, 20, 40))
        ws = ["p%d" % j for j in range(n)]
        b = [w if rng.random() > 0.15 else "q" for w in ws]
        out.append({"a": text(rng, ws), "b": text(rng, b)})
    # suspect markers and reject characters are no parts of words
    for i in range(40 if c.quick else 400):
        a = gen.rand_string(rng, "ab. \n~'1", 0, 40)
        b = gen.rand_string(rng, "ab. \n~'1^", 0, 40)
        out.append({"a": a, "b": b})
    # a big page
    for i in range(1 if c.quick else 10):
        ws = [rng.choice(BUILTIN) if rng.random() < 0.5 else "t%d" % rng.randrange(60) for _ in range(180)]
        out.append({"a": text(rng, ws), "b": text(rng, edited(rng, ws, ["qq", "qr"], 0.1)), "to": "file"})
    return out


def body(c):
    c.build()
    c.model("MCWordacc", what="the set of recognized words that the report is judged with is unique, or one of those enumerated")
    c.model("MCBreakdown", what="counting words, then terms in any order, then phrases gives the declared tables, whose totals agree")
    if not c.quick:
        c.model("MCBreakdown", "MCBreakdownThorough", what="same, texts of up to 5 words", timeout=800)
    ev = wordacc.check(c, cases(c), "word accuracy reports")
    c.sample(lambda: {"correct": ev[60]["_files"]["a"].decode(), "stopwords": ev[60]["_case"].get("S"), "report": ev[60]["_out"].decode()[:300]})
