"""C13: optimized voting uses the three texts closest to the median of all."""
import os, re
from itertools import groupby
import gen, voting
from voting import family, fraction


def cases(c):
    rng = c.rng
    out = []
    ss = list(gen.strings("ab", 3)) + ["a~b", "~a", "~~", "a~a", "^ab", "b^a"]
    for i in range(700 if c.quick else 6000):     # small texts: distances are often equal
        k = rng.choice((4, 4, 5, 6, 3, 2))
        out.append((tuple(rng.choice(ss) for _ in range(k)), rng.choice((None, fraction(rng))), rng.choice((None, fraction(rng))), True, rng.choice(("D", "D", "", "o"))))
    for i in range(900 if c.quick else 10000):
        al = rng.choice(("ab", "abc", "ab~", "abcdefgh", "abcd~ \n", "the cat\n", "a\u00e9\u0301\u4e00\U0001F600\x01", "<0aF>\x0a\n", gen.ALIKE))
        k = rng.choice((2, 3, 4, 4, 5, 5, 6, 7, 8)) if rng.random() < 0.93 else rng.randint(9, 16)
        t = family(rng, al, k, rng.choice((5, 12, 30, 60)) if k < 9 else 20)
        if rng.random() < 0.15:      # copies
            t[rng.randrange(k)] = t[rng.randrange(k)]
        out.append((tuple(t), rng.choice((None, fraction(rng))), rng.choice((None, fraction(rng))), True, rng.choice(("D", "D", "", "o"))))
    for i in range(10 if c.quick else 60):
        t = family(rng, "abcdefghijklm ", 6, 200, 0.05)
        out.append((tuple(t), None, fraction(rng), True, "D"))
    return out


def body(c):
    c.build()
    c.model("MCDistance", what="distances are unchanged by permuting the texts, and copies of the median text are at distance 0")
    c.model("MCVote", "MCVote3", what="three voters: rounds elect the declared candidate")
    cs = cases(c)
    ev = voting.check(c, cs, "optimized votes")
    # texts of many millions of characters, whose distances differ by very little
    c.memory = 12 << 30
    fs = [(8388615, 8388611, 8388612, 8388613), (40000, 3, 32000, 70000), (65540, 300, 33000, 5, 131080)] + ([] if c.quick else [(8388612, 8388611, 8388613), (8388700, 8388610, 8388611, 8388700, 8388613), (9, 8388611, 8388612, 8388614)])
    far_ev = [far(c, f) for f in fs]
    for e, clauses in c.judge("TraceVote", far_ev, "votes of huge texts", tables=voting.tables):
        if c.judge("TraceVote", [far(c, e["_case"])], "re-runs", tables=voting.tables):
            c.violation("vote -O -D of texts of %s equal characters: %s" % (e["_case"], "+".join(clauses)), {"dist": e["dist"], "out": e["outruns"]}, {}, ["vote", "-O", "-D", "..."])
    e = next(e for e in reversed(ev) if e["hasdist"])
    c.sample(lambda: {"command": e["_cmd"], "texts": e["_case"][0], "order and doubled distances": e["dist"]})


def far(c, ns):
    """Votes of texts that consist of ns[i] letters a."""
    d = c.dir()
    names = [chr(65 + i) for i in range(len(ns))]
    for n, k in zip(names, ns):
        gen.write(os.path.join(d, n), "a" * k)
    r = c.run("vote", ["-O", "-D", *names], d, timeout=100)
    e = {"st": "ok" if r.rc == 0 else "tool-failed", "runs": [[[97, k]] for k in ns], "dist": [], "outruns": [], "texts": [], "_case": ns}
    out = r.out
    for n in names:
        os.remove(os.path.join(d, n))
        m = re.match(rb" *(\d+)\.(\d) ([A-P])\n", out)
        if not m or m.group(2) not in (b"0", b"5"):
            return {**e, "st": e["st"] if r.rc else "layout"}
        e["dist"].append([m.group(3)[0] - 64, 2 * int(m.group(1)) + (m.group(2) == b"5")])
        out = out[m.end():]
    k = len(out)
    e["outruns"] = [[97, k]] if out == b"a" * k else [[0, 0]]
    return e
