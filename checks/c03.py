"""C03: confusions are listed completely, merged by displayed form, and in order."""
import gen, account
from c02 import ALPHA, rand_cp

# characters whose displays take 1, 2, 3, 4, 5 (dotted circle), 4 (<XX>), 6 (<XXXX>), 7, 8 bytes
WIDTHS = ["a", "\u00e9", "\u4e00", "\U0001F600", "\u0301", "\x01", "\u200b", "\U000E0001", "\U0010FFFF", "\n", "\u20d0", "\U0001D165", " "]


def side(rng, n, al):
    return "".join(rng.choice(al) for _ in range(n))


def cases(c):
    rng = c.rng
    out = []
    # every total width around the limit, from characters of every width; anchors '(' and ')' keep the segment apart
    for i in range(500 if c.quick else 6000):
        al = [rng.choice(WIDTHS) for _ in range(rng.choice((1, 2, 3, 5)))]
        per = max(1, 24 // max(1, sum(len(x.encode()) for x in al) // len(al)))
        x = side(rng, max(0, per + rng.randint(-4, 4)), al)
        y = side(rng, rng.choice((0, 1, per, per + rng.randint(-3, 3))) if rng.random() < 0.8 else 60, [q for q in WIDTHS if q not in al] or ["z"])
        out.append(("QQ(" + x + ")QQ", "QQ(" + y + ")QQ") if rng.random() < 0.5 else ("QQ(" + y + ")QQ", "QQ(" + x + ")QQ"))
    for k in range(1, 40):
        out.append(("(" + "a" * k + ")", "()")); out.append(("()", "(" + "a" * k + ")"))
        out.append(("(" + "\u4e00" * k + ")", "(" + "\x01" * k + ")"))
        out.append(("(" + "a" * k + "\u4e00b)", "(" + "c" * k + "\U00010FFFFd)"))
    # many distinct confusions with equal and different counts; prefixes; high bytes against low
    for i in range(150 if c.quick else 1500):
        pool = rng.choice(("abcdefgh", "aé中\U0001F600\x7f\x01~", "abAB{}-<>", "a-}{", "ab~^c"))
        n = rng.randint(2, 40)
        A, B = [], []
        for k in range(n):
            s = "XY"[k % 2] * rng.randint(4, 6)
            u, v = side(rng, rng.choice((0, 1, 1, 2)), pool), side(rng, rng.choice((0, 1, 1, 2)), pool)
            if rng.random() < 0.3 and v:
                v = "^" + v
            A += [s, u]; B += [s, v]
        out.append(("".join(A), "".join(B)))
    for i in range(300 if c.quick else 4000):
        al = ALPHA[i % len(ALPHA)]
        out.append(gen.pair(rng, al, rng.choice((10, 40, 120))))
    for n in range(1, 24):       # confusions that differ only at the end
        ws = [w[:24] for w in gen.alike(rng, n, 6)]
        out.append(("QQQ(".join([")QQQ"] + [w + ")QQQ" for w in ws]), "QQQ(".join([")QQQ"] + [rng.choice(("", "\u00e9" * 12)) + ")QQQ" for w in ws])))
        out.append((out[-1][1], out[-1][0]))
    for n in (100, 126, 127, 128, 200, 254, 255, 256, 257, 300, 512, 600):       # long regions with many wildcards, rejects and marks
        for m in (n - 3, n, n + 2, n + 20):
            k = rng.randint(0, 12)
            out.append(("((" + "~" * n + "x" * k + "))", "((" + "y" * m + "))"))
            out.append(("((" + "x" * (n - k) + "))", "((" + "~" * rng.choice((0, m)) + "^y" * rng.choice((k, m)) + "))"))
    # many confusions at once (sorting)
    for i in range(3 if c.quick else 20):
        n = 400 if c.quick else 1200
        A, B = [], []
        for k in range(n):
            A.append("(((" + chr(0x4E00 + rng.randrange(300)) * rng.randint(0, 2)); B.append("(((" + chr(0x5E00 + rng.randrange(20)) * rng.randint(0, 2) + ("~" if rng.random() < 0.1 else ""))
        out.append(("".join(A), "".join(B)))
    return out


def body(c):
    c.build()
    c.model("MCAccount", what="confusions add up to the errors and the marked errors, whatever the alignment")
    cs = cases(c)
    ev = account.check(c, "C03", cs, "confusion lists with the alignment of synctext")
    c.sample(lambda: {"texts": cs[5], "confusions": [[x[0], x[1], bytes(x[2]).decode("utf8", "replace")] for x in ev[5]["rep"].get("conf", [])]})
