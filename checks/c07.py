"""C07: summed accuracy reports are the pointwise sum of their inputs."""
import os
import gen, render, sums, uni, parse
from c02 import ALPHA, rand_cp

ODD = [0, 1, 9, 10, 31, 32, 0x3C, 0x3E, 0x7B, 0x7D, 0x2D, 0x2E, 0x5C, 0x5E, 0x7F, 0x80, 0x9F, 0xA0, 0xAD, 0xFF, 0x100, 0x300, 0x301, 0x378, 0x483,
       0x5B0, 0x903, 0x25CC, 0x200B, 0x2028, 0x20DD, 0xD7FF, 0xE000, 0xFEFF, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x1D165, 0xE0001, 0xF0000, 0xFFFFF, 0x10FFFD, 0x10FFFF]


def side(rng):
    al = [rng.choice(["a", "b", " ", "é", "中", "\U0001F600", "}", "{", "-", ".", "<", "\\n>", "<\\n>", "<01>", "\u25cc\u0301", "1", "%", "\t"[:0] + "x"])
          for _ in range(3)]
    s = b""
    for _ in range(rng.choice((0, 1, 1, 2, 3, 10))):
        x = rng.choice(al).encode()
        if len(s) + len(x) > 24:
            return s + b"..."
        s += x
    return s


def synth(rng, few):
    """A consistent report with arbitrary counts."""
    if rng.random() < 0.12:
        return render.acc({}, {}, ((0, 0, 0), (0, 0, 0)), *([0] * 3 if rng.random() < 0.7 else [sums.count(rng), sums.count(rng), 0]))
    pool = [97, 98, 65, 48, 32, 10] + rng.sample(ODD, 6) if few else ODD + [ord(rand_cp(rng)) for _ in range(20)]
    pool = [q for q in pool if q not in (126,)]
    chars = {}
    for q in rng.sample(pool, rng.randint(0, min(len(pool), 14))):
        n = sums.count(rng) + 1
        chars[q] = (n, sums.missed(rng, n))
    ops = [[sums.count(rng) if rng.random() < 0.7 else 0 for _ in range(3)] for _ in range(2)]
    conf = {}
    for k, o in enumerate(ops):
        left = sum(o)
        parts = []
        while left > 0 and len(parts) < 8:
            v = rng.randint(1, left) if rng.random() < 0.6 else min(left, rng.randint(1, 3))
            parts.append(v); left -= v
        if left > 0:
            parts.append(left)
        for v in parts:
            key = b"{" + side(rng) + b"}-{" + side(rng) + b"}"
            a, b = conf.get(key, (0, 0))
            conf[key] = (a + v, b + (v if k == 0 else 0))
    return render.acc(chars, conf, ops, sums.count(rng), sums.count(rng), sums.count(rng))


def real(c, case):
    a, b = case
    d = c.dir()
    gen.write(os.path.join(d, "A"), a); gen.write(os.path.join(d, "B"), b)
    r = c.run("accuracy", ["A", "B"], d)
    return r.out if r.rc == 0 else None


def cases(c):
    rng = c.rng
    pairs = []
    for i in range(160 if c.quick else 1500):
        al = ALPHA[i % len(ALPHA)] if i % 3 else [chr(rng.choice(ODD)) for _ in range(6)] + ["a", "~"]
        pairs.append(gen.pair(rng, al, rng.choice((0, 3, 12, 40))))
    reals = [x for x in c.pmap(lambda k: real(c, k), pairs) if x]
    if len(reals) < len(pairs) // 2:
        c.notes.append("most accuracy runs failed; synthetic reports only")
    out = []
    for i in range(220 if c.quick else 2600):
        n = rng.choice((2, 2, 3, 4, 5))
        fs = [rng.choice(reals) if reals and rng.random() < 0.5 else synth(rng, rng.random() < 0.6) for _ in range(n)]
        if i % 7 == 0:
            fs[rng.randrange(n)] = render.acc({}, {}, ((0, 0, 0), (0, 0, 0)))
        out.append((fs, sums.group_plan(rng, n)))
    out.append(([rng.choice(reals or [synth(rng, True)]) for _ in range(40)], []))
    for n in (130, 260, 520, 1030) if c.quick else (130, 260, 520, 1030, 2050, 4100):      # many reports
        few = [rng.choice(reals or [synth(rng, True)]) for _ in range(6)] + [render.acc({}, {}, ((0, 0, 0), (0, 0, 0)))]
        out.append(([min(few, key=len) if rng.random() < 0.8 else rng.choice(few) for _ in range(n)], []))
    # every single real report survives being read back
    e = render.acc({}, {}, ((0, 0, 0), (0, 0, 0)))
    out += [([r, e], [[1, 0]]) for r in reals[:60 if c.quick else 600]]
    # counts of up to 19 digits
    for i in range(12 if c.quick else 100):
        fs = []
        for _ in range(2):
            conf = {}
            for _ in range(rng.randint(1, 3)):
                t = rng.randint(10 ** rng.choice((12, 15, 16, 17)), 5 * 10 ** 17)
                conf[b"{%s}-{%s}" % tuple(rng.choice(b"abcdefghijkl".decode()).encode() * 24 + rng.choice((b"...", b"...", b"")) for _ in range(2))] = (t, rng.choice((0, t)))
            m = sum(v[1] for v in conf.values()); t = sum(v[0] for v in conf.values())
            chars = {q: (n, rng.randint(0, n)) for q, n in ((q, rng.randint(10 ** 16, 10 ** 18)) for q in rng.sample((97, 0x10FFFF, 0x301, 10), 2))}
            fs.append(render.acc(chars, conf, ((m, 0, 0), (0, t - m, 0))))
        out.append((fs, [[1, 0]]))
    for k in range(1, 24):       # confusions that differ only at the end
        fs = []
        for _ in range(rng.randint(2, 3)):
            first = rng.choice((b"", b"x" * 24, b"y" * 24 + b"..."))
            conf = {b"{%s}-{%s}" % (first, w[:24].encode()): (rng.randint(1, 9), 0) for w in gen.alike(rng, k, rng.randint(1, 6))}
            fs.append(render.acc({97: (9, 1)}, conf, ((0, 0, 0), (0, sum(v[0] for v in conf.values()), 0))))
        out.append((fs, sums.group_plan(rng, len(fs))))
    # many confusions in one report
    for _ in range(2 if c.quick else 12):
        conf = {b"{%s}-{%s}" % (chr(0x4E00 + k).encode(), b"x" * (k % 3)): (k % 5 + 1, k % 2) for k in rng.sample(range(5000), 300)}
        m = sum(v[1] for v in conf.values()); t = sum(v[0] for v in conf.values())
        out.append(([render.acc({97: (9, 1)}, conf, ((m, 0, 0), (0, t - m, 0))), synth(rng, True), rng.choice(reals or [e])], [[2, 1], [3, 0]]))
    return out


def body(c):
    c.build()
    c.model("MCReport", what="whatever the order and grouping of sums, the final report is the pointwise sum of the originals")
    c.model("MCBigInt", what="the arithmetic used on counts of any size is that of the integers")
    ev = sums.check(c, "acc", cases(c))
    c.sample(lambda: {"inputs": [x.decode("utf8", "replace")[:300] for x in ev[0]["_files"][:2]], "sum": ev[0]["_o"].decode("utf8", "replace")[:300]})
