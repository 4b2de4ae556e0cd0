"""C14: the heuristic alignment repeatedly takes the longest common substring."""
import gen, blocks
from blocks import ALPH


def cases(c):
    rng = c.rng
    out = []
    for al, n in (("ab", 4), ("ab~", 3), ("a \n", 3), ("abc", 3)):
        ss = list(gen.strings(al, n))
        out += [(x, y) for x in ss for y in ss]
    out = [("heuristic", t, ["-H"]) for t in (out if not c.quick else rng.sample(out, 900))]
    three = list(gen.strings("ab", 3)) + ["a~b", "~", "ba~"]
    tri = [(x, y, z) for x in three for y in three for z in three]
    out += [("heuristic", t, ["-H"] if i % 3 == 0 else []) for i, t in enumerate(tri if not c.quick else rng.sample(tri, 700))]
    for i in range(1400 if c.quick else 16000):
        al = rng.choice(ALPH + ("ABab",))
        k = rng.choice((2, 2, 3, 3, 3, 4, 5, 6)) if rng.random() < 0.95 else rng.randint(7, 16)
        hi = rng.choice((6, 12, 25, 50)) if k < 7 else 20
        base = gen.rand_string(rng, al, 0, hi)
        texts = []
        for _ in range(k):
            texts.append(gen.rand_string(rng, al, 0, hi) if rng.random() < 0.05 else gen.mutate(rng, base, al, rng.choice((0.02, 0.05, 0.1, 0.3))))
        rng.shuffle(texts)
        opts = (["-H"] if k == 2 or rng.random() < 0.3 else []) + (["-i"] if al == "ABab" else [])
        out.append(("heuristic", tuple(texts), opts))
    for i in range(40 if c.quick else 300):     # many equally long candidates, at the end of narrowed candidates
        u = gen.rand_string(rng, "abc", 2, 5)
        texts = ["".join(rng.choice((u, u[1:], u[:-1], u[::-1], "~", "x")) for _ in range(rng.randint(1, 6))) for _ in range(rng.choice((2, 3, 4)))]
        out.append(("heuristic", tuple(texts), ["-H"]))
    for i in range(12 if c.quick else 60):      # the common substring lies far from the start of some of the texts
        u = gen.rand_string(rng, "abc", 8, 20)
        k = rng.choice((2, 3, 3, 4))
        texts = []
        for j in range(k):
            p = rng.choice((0, 3, 60, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300)) + rng.randint(0, 2)
            texts.append(gen.rand_string(rng, "uvwxyz"[j] + "UVWXYZ"[j], p, p) + gen.mutate(rng, u, "abc", 0.1) + gen.rand_string(rng, "uvwxyz"[j], 0, 5))
        out.append(("heuristic", tuple(texts), ["-H"]))
    for i in range(8 if c.quick else 60):       # little in common, somewhere in one long text
        n = rng.choice((1100, 2100, 4200) if c.quick else (1100, 2100, 4200, 9000))
        u = rng.choice(("a", "ab", "abc", "a~b"))
        p = rng.choice((0, n - len(u), n - len(u), rng.randint(0, n - len(u))))
        texts = ["u" * p + u + "u" * (n - len(u) - p), rng.choice((u, "v" + u, u + "v", u[-1] + "vv" + u, "b")), rng.choice((u, u[-1], "w" + u))][: rng.choice((2, 3))]
        if i % 2:
            rng.shuffle(texts)
        out.append(("heuristic", tuple(texts), ["-H"]))
    for i in range(4 if c.quick else 30):
        a, b = gen.pair(rng, "abcdefghijkl", 200)
        out.append(("heuristic", (a, b), ["-H"]))
    return out


def body(c):
    c.build()
    c.model("MCSync", what="two texts: splitting ends, is confluent, rebuilds the texts, leaves nothing common")
    c.model("MCSync", "MCSync3", what="three texts: splitting ends, is confluent and rebuilds the texts")
    cs = cases(c)
    ev = blocks.check(c, cs, "heuristic alignments")
    c.sample(lambda: {"texts": cs[-50][1], "segments": ev[-50].get("segs")})
