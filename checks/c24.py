"""C24: word frequencies count every word of every text exactly once."""
import gen, words


def cases(c):
    rng = c.rng
    out = [("a", "b"), ("a", "a"), ("ab", "cd"), ("", ""), ("1", ".2"), ("a'", "b"), ("_", "_"), ("a", "\u0301b"), ("can", "'t"), ("\U0001F1E6", "\U0001F1FA"), ("^", "a"), (" ", "a")]
    vocab = [gen.rand_string(rng, al, 1, 6) for al in ("ab", "abc", "e\u0301\u00e9", "\u00e9\u00e8a", "\u0416\u4e00b", "019.", "\U00010400\ue000z") for _ in range(60)]
    for i in range(600 if c.quick else 8000):
        k = rng.choice((1, 1, 2, 3, 6, 12))
        v = rng.sample(vocab, rng.choice((2, 10, 60)))
        out.append(tuple(rng.choice(("", "\n", " ")) + "".join(rng.choice(v) + rng.choice((" ", " ", "\n", ", ", "-", "")) for _ in range(rng.choice((0, 1, 5, 30)))) for _ in range(k)))
    # ties, many equal counts, prefixes of each other
    for i in range(100 if c.quick else 1000):
        w = gen.rand_string(rng, "ab", 3, 9)
        out.append(tuple(" ".join(w[:rng.randint(1, len(w))] for _ in range(20)) for _ in range(2)))
    for n in (4, 8, 12, 16, 20, 24, 28, 32, 40, 50, 64, 100, 127, 128, 200, 255, 256, 300):       # words that differ only at the end
        ws = [w for _ in range(2) for w in gen.alike(rng, n)]
        out.append(tuple(" ".join(rng.choice(ws) for _ in range(8)) for _ in range(2)))
    for n in (130, 260, 520, 1030):       # many files
        out.append(tuple(rng.choice(("", "a", "b c", rng.choice(vocab))) for _ in range(n)))
    # many distinct words, in order, reversed and shuffled
    for n in ((1200,) if c.quick else (1000, 3000, 6000)):
        ws = ["w%05d" % (7 * i) for i in range(n)]
        for order in (ws, ws[::-1], rng.sample(ws, n)):
            out.append((" ".join(order),))
            out.append((" ".join(order), " ".join(order[: n // 3]) + " " + " ".join(order[n // 2:])))
    return out


def body(c):
    c.build()
    c.model("MCWordBreaks", what="segments tile a text")
    c.model("MCCollect", what="counting word by word over files gives the occurrences, whatever the order of words and files")
    cs = cases(c)
    ev = words.check(c, cs, "wordfreq runs")
    c.sample(lambda: {"files": ev[20]["_case"], "output": ev[20]["_out"].decode("utf8", "replace")})
    # sizes beyond what the trace specification evaluates: the distinct words and counts are known by construction
    big(c)
    # words of tens of thousands of characters that differ only near their ends
    c.model("MCRunWords", what="the order of words given as runs of equal characters is that of the words")
    cs = []
    for n in (1000, 33000, 70000) if c.quick else (300, 1000, 5000, 33000, 66000, 140000):
        a = [("a", n)]
        ws = [a, a + [("b", 1)], a + [("c", 1)], a + [("b", 1), ("c", 1)], a + [("c", 1), ("b", 1)], [("a", n + 1)], [("a", n - 1)], [("b", 1)] + a, [("b", 1)] + a + [("b", 1)], a + [("b", 2)], a + [("b", n)], [("b", 1)]]
        for i in range(4 if c.quick else 10):
            cs.append((tuple((tuple(w), 1) for w in (c.rng.choice(ws) for _ in range(c.rng.randint(2, 14)))), c.rng.randint(0, 14)))
    for i in range(4 if c.quick else 40):       # very frequent words
        n = c.rng.choice((32768, 40000, 65536, 66000))
        ws = [(q,) for q in (("a", 1), ("b", 1), ("a", 2), ("c", 3), ("d", 1), ("e", 2))]
        ks = [c.rng.choice((1, 2, 5, n, n + 1, n - 1, n + 5, 2 * n, 32767, 300)) for _ in ws] + [1, 3]
        cs.append((tuple((w, k) for w, k in zip(ws + ws[:2], ks)), c.rng.randint(0, 8)))
    ev = c.pmap(lambda k: long_event(c, k), cs)
    for e, clauses in c.judge("TraceRuns", ev, "very long words"):
        if len(c.violations) < 5 and not c.judge("TraceRuns", [long_event(c, e["_case"])], "re-runs"):
            continue
        c.violation("wordfreq: %s for long words %s" % ("+".join(clauses), e["_case"][0][:3]), {"case": e["_case"]}, {}, None)


def long_event(c, case):
    import os
    from itertools import groupby
    from parse import Lines, N, Bad
    ws, cut = case
    d = c.dir()
    t = [" ".join(["".join(q * n for q, n in w)] * k) for w, k in ws]
    gen.write(os.path.join(d, "a"), " ".join(t[:cut])); gen.write(os.path.join(d, "b"), "\n".join(t[cut:]))
    r = c.run("wordfreq", ["a", "b"], d, timeout=30)
    e = {"st": "ok", "words": [[[[ord(q), n] for q, n in w], k] for w, k in ws], "alpha": [], "freq": [], "total1": 0, "total2": 0, "_case": case}
    if r.timeout or r.rc != 0:
        return {**e, "st": "tool-failed"}
    try:
        L = Lines(r.out)
        for f, t in (("alpha", "total1"), ("freq", "total2")):
            L.exact(b"   Count")
            while True:
                n, w = L.match(N + rb"   (.+)")
                if w == b"Total":
                    e[t] = int(n)
                    break
                e[f].append([[[q, len(list(g))] for q, g in groupby(w)], int(n)])
            if f == "alpha":
                L.exact(b""); L.exact(b"")
    except Bad:
        return {**e, "st": "layout"}
    return e


def big(c):
    """Large vocabularies: judged in blocks, by the totals and by the words of a block (see TraceBlocks)."""
    rng = c.rng
    ev = []
    for kind in ("sorted", "reversed", "shuffled", "equal"):
        n = 40000 if c.quick else 250000
        e = block_event(c, (kind, n, rng.randrange(1 << 30)))
        ev += e
    again = {}
    for e, clauses in c.judge("TraceBlocks", ev, "blocks of large vocabularies"):
        if e["_case"] not in again:
            again[e["_case"]] = len(c.violations) >= 5 or bool(c.judge("TraceBlocks", block_event(c, e["_case"]), "re-runs"))
        if not again[e["_case"]]:
            continue
        c.violation("wordfreq: %s for %s words %s" % ("+".join(clauses), e["_case"][1], e["_case"][0]), {"case": e["_case"]}, {}, None)


def block_event(c, case):
    """n distinct words w<number>, the k-th of them (in byte order) occurring 1 + k % 3 times; one event per block of 2000 lines."""
    import os, random
    from parse import Lines, N, Bad, need
    kind, n, seed = case
    rng = random.Random(seed)
    ws = []
    for k in range(n):
        ws += [k] * (1 + (k % 3 if kind != "equal" else 0))
    if kind == "reversed":
        ws.reverse()
    elif kind == "shuffled":
        rng.shuffle(ws)
    d = c.dir()
    h = len(ws) // 2
    gen.write(os.path.join(d, "a"), " ".join("w%07d" % k for k in ws[:h])); gen.write(os.path.join(d, "b"), " ".join("w%07d" % k for k in ws[h:]))
    r = c.run("wordfreq", ["a", "b"], d, timeout=120)
    base = {"st": "ok", "kind": kind, "n": n, "total": len(ws), "_case": case}
    if r.timeout or r.rc != 0:
        return [{**base, "st": "tool-failed", "list": 1, "first": 0, "rows": [], "last": True, "got": 0}]
    out = []
    try:
        L = Lines(r.out)
        for which in (1, 2):
            L.exact(b"   Count")
            rows = []
            while True:
                m, w = L.match(N + rb"   (.+)")
                if w == b"Total":
                    t = int(m)
                    break
                need(w[:1] == b"w" and len(w) == 8 and w[1:].isdigit(), "word")
                rows.append([int(w[1:]), int(m)])
            for i in range(0, max(1, len(rows)), 2000):
                out.append({**base, "list": which, "first": i, "rows": rows[i:i + 2000], "last": i + 2000 >= len(rows), "got": t})
            if which == 1:
                L.exact(b""); L.exact(b"")
    except Bad as x:
        return [{**base, "st": "layout", "list": 1, "first": 0, "rows": [], "last": True, "got": 0}]
    return out
