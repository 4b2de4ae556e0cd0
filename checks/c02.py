"""C02: the accuracy report counts exactly what the alignment shows."""
import gen, uni, account

ALPHA = ["ab~", "ab~^", "abc \n~^", "abAB01.,~", "aé中😀~^", "a{}<>=~^", "".join(map(chr, (0, 1, 8, 14, 127, 128, 159, 160, 0xAD, 0x301, 0x5B0, 0x20D0))) + "ab~^",
         "abcdefgh", "ab ~ \n", gen.ALIKE]


def rand_cp(rng):
    while True:
        q = rng.choice((rng.randrange(0x100), rng.randrange(0x700), rng.randrange(0x3500), rng.randrange(0x10000), rng.randrange(0x110000)))
        if uni.scalar(q) and uni.stable(q):
            return chr(q)


def cases(c):
    rng = c.rng
    small = []
    for al, n in (("a~^", 3), ("ab~", 2 if c.quick else 3)):
        ss = list(gen.strings(al, n))
        small += [(x, y) for x in ss for y in ss]
    if c.quick:
        small = [k for k in small if len(k[0]) + len(k[1]) <= 3] + rng.sample(small, 700)
    out = list(dict.fromkeys(small))
    for i in range(700 if c.quick else 9000):
        al = ALPHA[i % len(ALPHA)]
        hi = rng.choice((5, 12, 30, 80))
        x, y = gen.pair(rng, al, hi)
        if i % 4 == 0:      # runs of rejects and marks
            y = "".join(("~" * rng.randint(1, 3) if rng.random() < 0.15 else "^" + ch if rng.random() < 0.3 else ch) for ch in y)
        if i % 5 == 0:
            x = "".join(("~" * rng.randint(1, 4) if rng.random() < 0.15 else ch) for ch in x)
        out.append((x, y))
    for i in range(150 if c.quick else 3000):      # characters of every class
        cpl = [rand_cp(rng) for _ in range(6)] + ["a", " ", "~"]
        out.append(gen.pair(rng, cpl, 25))
    import re
    bounds = sorted({q for a, b, _ in RANGES() for q in (a - 1, a, b, b + 1) if uni.scalar(q) and uni.stable(q) and q not in (94, 126)})
    for i in range(0, len(bounds), 12):
        s = "".join(map(chr, bounds[i:i + 12]))
        out += [(s, ""), (s, s), ("", s), (s + "x", s[::2])]
    # long texts (percentages far from simple fractions)
    for i in range(6 if c.quick else 60):
        out.append(gen.pair(rng, "abcdefghijklmnop \n~^", 3000))
    # segments of many characters, wildcards, rejects and marks
    def many(*kinds):
        s = [k for k in kinds for _ in range(rng.choice((0, 1, 2, 126, 128, 255, 256, 257, 300, 512)))]
        rng.shuffle(s)
        return "".join(s)
    for i in range(40 if c.quick else 400):
        ends = ("", "") if i % 2 else ("m", "n")
        out.append((ends[0] + many("~", "a", *rng.choice(((), "b"))) + ends[1], ends[0] + many("x", "~", *rng.choice(((), ("^x",), ("y", "^~")))) + ends[1]))
        out.append((ends[0] + many("~") + ends[1], ends[0] + many(rng.choice(("x", "~", "^x"))) + ends[1]))
    for i in range(3 if c.quick else 20):
        out.append(rng.choice((("~" * 33000, "x" * rng.randint(0, 3)), ("a" * 66000, "x" * rng.randint(0, 3)))))
        out.append(rng.choice((("a" * rng.randint(0, 3), "~" * 33000), ("~", "^x" * 66000), ("~" * rng.randint(0, 3), "x" * 66000))))
    return out


def RANGES():
    import os, re
    from core import SPEC
    return [(int(a), int(b), n) for a, b, n in re.findall(r'<<(\d+), (\d+), "([^"]*)">>', open(os.path.join(SPEC, "CharClass.tla")).read())]


def body(c):
    c.build()
    c.model("MCAccount", what="every account kept segment by segment is consistent, and matched segments add no errors")
    ev = account.check(c, "C02", cases(c), "accuracy reports with the alignment of synctext")
    c.sample(lambda: {k: ev[300][k] for k in ("a", "b", "segs")})
