"""C16: the transposed alignment matches longest blocks first and prices the rest."""
import gen, blocks
from blocks import ALPH


def shuffled(rng, al, k, hi):
    """A text and a rearrangement of its blocks, with some noise."""
    bl = [gen.rand_string(rng, al, 1, hi) for _ in range(k)]
    a = "".join(b + rng.choice(("", "", "x", "~")) for b in bl)
    rng.shuffle(bl)
    b = "".join(b + rng.choice(("", "", "y", "~")) for b in bl)
    return a, b


def cases(c):
    rng = c.rng
    ps = []
    for al, n in (("ab", 4), ("ab~", 3), ("abc", 3), ("a \n", 3)):
        ss = list(gen.strings(al, n))
        ps += [(x, y) for x in ss for y in ss]
    if c.quick:
        ps = rng.sample(ps, 900)
    for i in range(700 if c.quick else 8000):
        al = rng.choice(ALPH)
        if rng.random() < 0.5:
            ps.append(gen.pair(rng, al, rng.choice((6, 12, 25, 50))))
        else:
            ps.append(shuffled(rng, al, rng.randint(1, 7), rng.choice((2, 5, 9))))
    for i in range(40 if c.quick else 400):       # long blocks of equal, or nearly equal, lengths
        n = rng.choice((31, 32, 33, 40, 63, 64, 65, 100, rng.randint(30, 150), rng.choice((127, 128, 129, 255, 256, 257)) if not i % 8 else 41))
        bl = [gen.rand_string(rng, "abcdefgh", m, m) for m in (n, n + rng.choice((-1, 0, 1, 1, 2)), n + rng.choice((0, 0, 1)))][:2 if n > 60 else 3]
        if rng.random() < 0.3:
            bl.append(bl[0])
        a = rng.choice("xy").join(bl)
        rng.shuffle(bl)
        ps.append((a, rng.choice("zw").join(bl)))
    out = []
    for i, p in enumerate(ps):
        out.append(("transposed", p, ["-T"]) if i % 3 else ("editop", p, []))
        if i % 5 == 0:
            out.append(("editop", p, []) if i % 3 else ("transposed", p, ["-T"]))
    for n in (33000, 66000) if c.quick else (32767, 32768, 33000, 65535, 65536, 66000, 132000):       # much that is only in one text
        out += [("editop", (rng.choice(("", "z", "~")), "a" * n), []), ("editop", ("a" * n, rng.choice(("", "z", "~"))), [])]
    for i in range(60 if c.quick else 600):
        out.append(("transposed", gen.pair(rng, "ABab", 15), ["-T", "-i"]))
    for i in range(4 if c.quick else 30):
        out.append((("transposed", "editop")[i % 2], shuffled(rng, "abcdefghijkl", 12, 20), ["-T"] if i % 2 == 0 else []))
    return out


def body(c):
    c.build()
    c.model("MCTranspose", what="the machine ends, rebuilds both texts, takes blocks in order of decreasing length and leaves nothing common")
    if not c.quick:
        c.model("MCTranspose", "MCTransposeThorough", what="same, longer texts")
    cs = cases(c)
    ev = blocks.check(c, cs, "transposed alignments and edit operation counts")
    c.sample(lambda: {"texts": cs[-1][1], "event": {k: v for k, v in ev[-1].items() if k[0] != "_" and k != "texts"}})
