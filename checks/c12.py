"""C12: voting outputs, position by position, the candidate with the most votes."""
import gen, voting
from voting import family, fraction

ALPH = ("ab", "abc", "ab~", "abc~", "abcdefgh", "ab \n~", "abcdefghij   \n", "a\u00e9\u0301\u4e00\U0001F600\x01", "ab{}=", gen.ALIKE, gen.ALIKE + "~^")


def cases(c):
    rng = c.rng
    out = []
    # every short column: three and four voters, each one character, marked or not, ~ or nothing
    cells = ["", "a", "^a", "b", "^b", "~"]
    three = [(x, y, z) for x in cells for y in cells for z in cells]
    rules = [(None, None), ((1, 2), (1, 2)), ((2, 3), (2, 3)), ((1, 3), (5, 6)), ((1, 1), (2, 3))]
    for i, t in enumerate(three):
        for w, s in (rules if not c.quick else [rules[i % 5], rules[(i + 2) % 5]]):
            out.append((t, w, s, False, ""))
    for i in range(400 if c.quick else 3000):
        k = rng.choice((2, 4, 4, 5))
        out.append((tuple("x" * (i % 2) + "".join(rng.choice(cells) for _ in range(2)) for _ in range(k)), rng.choice((None, fraction(rng))), rng.choice((None, fraction(rng))), False, ""))
    for i in range(1300 if c.quick else 14000):
        al = rng.choice(ALPH)
        k = rng.choice((2, 3, 3, 3, 4, 5, 7)) if rng.random() < 0.95 else rng.randint(8, 16)
        odd = any(x in al for x in "{}=\x01\u0301")
        out.append((tuple(family(rng, al, k, rng.choice((4, 10, 25, 60)) if k < 8 else 25)), rng.choice((None, fraction(rng), fraction(rng))),
                    rng.choice((None, fraction(rng), fraction(rng))), False, "lens" if odd else rng.choice(("", "lens", "lens", "o", "D"))))
    for i in range(120 if c.quick else 1200):     # many candidates at one position; the winner may be among the last
        k = rng.randint(9, 16)
        d = rng.randint(6, k)
        pool = rng.sample("abcdefghijklmnopqrstuvwxyz", d)
        if rng.random() < 0.6:
            pool[rng.randrange(d // 2, d)] = ""
        if rng.random() < 0.2:
            pool[rng.randrange(d)] = "~"
        col = pool + [rng.choice(pool[d // 2:] if rng.random() < 0.7 else pool) for _ in range(k - d)]
        if rng.random() < 0.3:
            rng.shuffle(col)
        col = [("^" if x and rng.random() < 0.3 else "") + x for x in col]
        ends = rng.choice((("", ""), ("1", "2"), ("", "2")))
        out.append((tuple(ends[0] + x + ends[1] for x in col), rng.choice((None, fraction(rng))), rng.choice((None, fraction(rng))), False, ""))
    for i in range(90 if c.quick else 900):       # -O, which only changes the order of few voters
        k = rng.choice((2, 2, 3))
        out.append((tuple(family(rng, rng.choice(("ab", "ab~", "abcdef")), k, rng.choice((3, 8, 20)))), rng.choice((None, fraction(rng))), rng.choice((None, fraction(rng), fraction(rng))), True, rng.choice(("", "o"))))
    for i in range(15 if c.quick else 150):
        out.append((tuple(family(rng, "abcdefghijklm ", 3, 300, 0.05)), fraction(rng), fraction(rng), False, "lens"))
    return out


def body(c):
    c.build()
    c.model("MCVote", what="two voters: rounds elect the declared candidate, voting ends, equal voters give their text")
    c.model("MCVote", "MCVote3", what="three voters, several weights")
    if not c.quick:
        c.model("MCVote", "MCVoteThorough", what="three voters, longer texts")
    cs = cases(c)
    ev = voting.check(c, cs, "votes")
    e = ev[-20]
    c.sample(lambda: {"command": e["_cmd"], "texts": e["_case"][0], "output": e["_out"].decode("utf8", "replace")})
