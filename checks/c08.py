"""C08: summed word accuracy reports are the pointwise sum of their inputs."""
import os
import gen, render, sums

STOPS = "the of and a i to in is it was he".split()


def length(t):
    return min(50, len(t.decode("utf8")))


def term(rng):
    k = rng.random()
    if k < 0.4:
        return gen.rand_string(rng, "abc", 1, 4).encode()
    if k < 0.6:
        return rng.choice(STOPS).encode()
    if k < 0.75:
        return gen.rand_string(rng, "éñßжя中ひカ\U00010400\U0001D7D8", 1, 12).encode()
    if k < 0.85:     # much like the layout of a report
        return rng.choice((b"total", b"1", b"11", b"0", b"5", b"50", b"3.14", b"1,000", b"a_b", b"_", b"words", b"can't", b"stopwords", b"100.00", b"a\xc2\xadb", b"e\xe2\x80\x8d"))
    if k < 0.95:     # long
        return gen.rand_string(rng, rng.choice(("ab", "é", "\U00010400a")), 45, 130).encode()
    return gen.rand_string(rng, "ab0_", 60, 500).encode()


def synth(rng):
    if rng.random() < 0.1:
        return render.wac({}, {}, {}, {}, length)
    def terms(n, of):
        t = {}
        for _ in range(n):
            v = sums.count(rng) + 1 if rng.random() < 0.5 else rng.randint(1, 15)
            t[of()] = (v, sums.missed(rng, v))
        return t
    stop = terms(rng.choice((0, 0, 1, 4)), lambda: rng.choice(STOPS).encode())
    non = terms(rng.choice((0, 1, 5, 10)), lambda: term(rng))
    dist = {}
    for n, m in non.values():
        k = min(n, 11)
        a, b = dist.get(k, (0, 0))
        dist[k] = (a + 1, b + (n == m))
    w = sum(v[0] for v in [*stop.values(), *non.values()])
    phrase = {}
    for k in range(1, 9):
        if w - k + 1 > 0:
            phrase[k] = (w - k + 1, rng.randint(0, w - k + 1))
    return render.wac(stop, non, dist, phrase, length)


def text(rng):
    return " ".join(rng.choice(STOPS) if rng.random() < 0.4 else term(rng).decode() for _ in range(rng.choice((0, 1, 3, 10, 30))))


def real(c, case):
    d = c.dir()
    gen.write(os.path.join(d, "A"), case[0]); gen.write(os.path.join(d, "B"), case[1])
    r = c.run("wordacc", ["A", "B"], d)
    return r.out if r.rc == 0 else None


def cases(c):
    rng = c.rng
    pairs = []
    for i in range(150 if c.quick else 1500):
        t = text(rng)
        w = t.split(" ")
        u = " ".join(x if rng.random() < 0.8 else rng.choice(STOPS + ["zz"]) for x in w if rng.random() < 0.9)
        pairs.append((t, u))
    reals = [x for x in c.pmap(lambda k: real(c, k), pairs) if x]
    out = []
    for i in range(250 if c.quick else 2600):
        n = rng.choice((2, 2, 3, 4, 5))
        fs = [rng.choice(reals) if reals and rng.random() < 0.5 else synth(rng) for _ in range(n)]
        if i % 7 == 0:
            fs[rng.randrange(n)] = render.wac({}, {}, {}, {}, length)
        out.append((fs, sums.group_plan(rng, n)))
    for n in (4, 8, 12, 16, 20, 24, 28, 32, 40, 50, 64, 100, 127, 128, 200, 255, 256, 300, 512, 1000, 1024, 2000):       # words that differ only at the end
        fs = [render.wac({}, {w.encode(): (rng.randint(2, 9), rng.randint(0, 2)) for w in gen.alike(rng, n, rng.randint(1, 6))}, {}, {}, length) for _ in range(rng.randint(2, 4))]
        out.append((fs, sums.group_plan(rng, len(fs))))
    e = render.wac({}, {}, {}, {}, length)
    out += [([r, e], [[1, 0]]) for r in reals[:60 if c.quick else 600]]
    out.append(([rng.choice(reals or [e]) for _ in range(40)], []))
    for n in (130, 260, 520, 1030) if c.quick else (130, 260, 520, 1030, 2050, 4100):      # many reports
        few = sorted((rng.choice(reals or [e]) for _ in range(6)), key=len)
        out.append(([few[0] if rng.random() < 0.8 else rng.choice(few) for _ in range(n)], []))
    # words of every length, one per report and many in one: whatever buffers a line has
    for ch in ("a", "\u00e9"):
        ts = {(chr(97 + k % 26) + ch * k).encode(): (k % 9 + 1, k % 2) for k in range(0, 330)}
        items = list(ts.items())
        for part in (items, items[90:110], items[190:210]):
            rng.shuffle(part)
            one = render.wac({}, dict(part), {}, {}, length)
            out += [([one, e], [[1, 0]]), ([one, one], [])]
    for k in (999, 1000, 1001, 1023, 1024, 4000, 4095, 4096, 5000, 66000) if c.quick else [*range(990, 1030), *range(2040, 2060), *range(4080, 4100), 8191, 8192, 16384, 20000, 70000]:
        ts = [render.wac({}, {x + b"a" * (k - 1): (3, 1), x + b"b" * (k // 2): (2, 2)}, {}, {}, length) for x in (b"a", b"b")]
        out += [(ts, [[1, 0]]), ([ts[0], ts[0], ts[1]], [[0, 1], [2, 3]])]
    return out


def body(c):
    c.build()
    c.model("MCReport", what="whatever the order and grouping of sums, the final report is the pointwise sum of the originals")
    c.model("MCBigInt", what="the arithmetic used on counts of any size is that of the integers")
    ev = sums.check(c, "wac", cases(c))
    c.sample(lambda: {"inputs": [x.decode("utf8", "replace")[:400] for x in ev[0]["_files"][:2]]})
