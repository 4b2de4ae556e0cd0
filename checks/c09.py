"""C09: summed edit operation reports are the pointwise sum of their inputs."""
import os
import gen, render, sums


def synth(rng):
    if rng.random() < 0.1:
        return render.ed(0, 0, {})
    mv = {}
    for _ in range(rng.choice((0, 0, 1, 3, 12, 100))):
        mv[rng.choice((1, 2, 99, 100, rng.randint(1, 100)))] = sums.count(rng) + 1
    if rng.random() < 0.05:
        mv = {k: rng.randint(1, 5) for k in range(1, 101)}
    return render.ed(sums.count(rng), sums.count(rng), mv)


def real(c, case):
    d = c.dir()
    gen.write(os.path.join(d, "A"), case[0]); gen.write(os.path.join(d, "B"), case[1])
    r = c.run("editop", ["A", "B"], d)
    return r.out if r.rc == 0 else None


def cases(c):
    rng = c.rng
    pairs = []
    for i in range(150 if c.quick else 1000):
        blocks = ["".join(chr(0x4E00 + 200 * k + j) for j in range(rng.choice((1, 2, 5, 120) if i % 10 == 0 else (1, 2, 5)))) for k in range(rng.randint(0, 7))]
        a = "".join(blocks)
        rng.shuffle(blocks)
        b = "".join(blocks)
        pairs.append((a + rng.choice(("", "xyz", "~")), b + rng.choice(("", "uv", "^~"))))
    reals = [x for x in c.pmap(lambda k: real(c, k), pairs) if x]
    out = []
    for i in range(350 if c.quick else 3500):
        n = rng.choice((2, 2, 3, 4, 5, 6))
        fs = [rng.choice(reals) if reals and rng.random() < 0.4 else synth(rng) for _ in range(n)]
        if i % 7 == 0:
            fs[rng.randrange(n)] = render.ed(0, 0, {})
        out.append((fs, sums.group_plan(rng, n)))
    e = render.ed(0, 0, {})
    out += [([r, e], [[1, 0]]) for r in reals[:60 if c.quick else 400]]
    out.append(([synth(rng) for _ in range(40)], []))
    for n in (130, 260, 520, 1030) if c.quick else (130, 260, 520, 1030, 2050, 4100):      # many reports
        out.append(([rng.choice(reals or [e]) for _ in range(n)], []))
    return out


def body(c):
    c.build()
    c.model("MCReport", what="whatever the order and grouping of sums, the final report is the pointwise sum of the originals")
    c.model("MCBigInt", what="the arithmetic used on counts of any size is that of the integers")
    ev = sums.check(c, "ed", cases(c))
    c.sample(lambda: {"inputs": [x.decode()[:300] for x in ev[0]["_files"][:2]], "sum": ev[0]["_o"].decode()[:300]})
