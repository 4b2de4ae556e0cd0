"""C22: non-stopword accuracy is recomputed correctly after each stopword."""
import os
import gen, parse, render, stats, sums
from parse import nat
from c08 import length, STOPS

# written form in a stopword file -> word
FORMS = [("the", "the"), ("The", "the"), ("THE", "the"), ("of", "of"), ("a", "a"), ("and", "and"), ("\u00c9t\u00e9", "\u00e9t\u00e9"), ("E\u0301te\u0301", "\u00e9t\u00e9"),
         ("can't", "can't"), ("3.14", "3.14"), ("x1", "x1"), ("\u041c\u0438\u0440", "\u043c\u0438\u0440"), ("\u4e2d", "\u4e2d"), ("zz", "zz"), ("cat", "cat"), ("dog", "dog"),
         ("total", "total"), ("stopwords", "stopwords"), ("w" * 60, "w" * 60), ("q_r", "q_r"), ("e", "e"), ("et", "et"), ("x^the", "x the"), ("^Of", "of"), ("cat^", "cat"), ("dog~Cat", "dog cat"), ("CAFE\u0301", "caf\u00e9"), ("\ufb01n", "\ufb01n"),
         *((w, w) for n in (9, 40, 260) for w in ("z" * n + "abcd", "z" * n + "bacd", "z" * n + "bbcc"))]


def runs_event(c, case):
    """A very long stopword file: runs of equal words."""
    runs, stop, non = case
    d = c.dir()
    n = sum(v[0] for t in (stop, non) for v in t.values()); m = sum(v[1] for t in (stop, non) for v in t.values())
    text = "".join((w + " ") * (k - 1) + w + "\n" for w, k in runs)
    rep = render.wac(stop, non, {11: (1, 0)} if non else {}, {1: (n, m)} if n else {}, length)
    gen.write(os.path.join(d, "S"), text); gen.write(os.path.join(d, "R"), rep)
    r = c.run("nonstopacc", ["S", "R"], d)
    e = {"k": "nonstop-runs", "st": "ok", "words": [[list(w.encode()), k] for w, k in runs], "count": nat(n), "missed": nat(m),
         "terms": [[list(k), nat(v[0]), nat(v[1])] for t in (stop, non) for k, v in t.items()], "out": [], "_case": case, "_out": r.out,
         "_label": "nonstopacc of %s" % (runs,), "_cmd": ["nonstopacc", "S", "R"], "_files": {"S": text.encode(), "R": rep}, "_rc": r.rc}
    if r.rc != 0:
        return {**e, "st": "tool-failed", "_why": r.err.decode("utf8", "replace")}
    try:
        for i, v in stats.xy(r.out, 3):
            o = e["out"]
            if o and o[-1][2] == v and o[-1][0] + o[-1][1] == i:
                o[-1][1] += 1
            else:
                o.append([i, 1, v])
    except parse.Bad as x:
        return {**e, "st": "layout", "_why": str(x)}
    return e


def event(c, case):
    words, sep, stop, non = case
    d = c.dir()
    text = "".join(FORMS[w][0] + sep[i % len(sep)] for i, w in enumerate(words))
    dist = {11: (1, 0)} if non else {}
    n = sum(v[0] for t in (stop, non) for v in t.values()); m = sum(v[1] for t in (stop, non) for v in t.values())
    rep = render.wac(stop, non, dist, {1: (n, m)} if n else {}, length)
    gen.write(os.path.join(d, "S"), text); gen.write(os.path.join(d, "R"), rep)
    r = c.run("nonstopacc", ["S", "R"], d)
    e = {"k": "nonstop", "st": "ok", "words": [list(v.encode()) for w in words for v in FORMS[w][1].split()], "count": nat(n), "missed": nat(m),
         "terms": [[list(k), nat(v[0]), nat(v[1])] for t in (stop, non) for k, v in t.items()], "out": [], "_case": case, "_out": r.out,
         "_label": "nonstopacc of %r" % text[:80], "_cmd": ["nonstopacc", "S", "R"], "_files": {"S": text.encode(), "R": rep}, "_rc": r.rc}
    if r.rc != 0:
        e["st"] = "tool-failed"; e["_why"] = r.err.decode("utf8", "replace")
    else:
        try:
            e["out"] = stats.xy(r.out, 3)
        except parse.Bad as x:
            e["st"] = "layout"; e["_why"] = str(x)
    return e


def cases(c):
    rng = c.rng
    out = []
    for i in range(600 if c.quick else 7000):
        pool = rng.sample(range(len(FORMS) if i % 8 else 9), rng.randint(1, 8))
        if i % 8 == 0:
            pool = [len(FORMS) - 9 + k for k in pool]       # words that differ only at the end
        words = [rng.choice(pool) for _ in range(rng.choice((0, 1, 3, 8, 20)))]
        sep = [rng.choice((" ", "\n", "\t", ", ", "; ", " - ", "\n\n", " \u2028 ", "\x0b\u0301 ", "\r\u0301 ", "\u2028\u0301 ")) for _ in range(5)]
        def terms(k):
            t = {}
            for _ in range(k):
                w = rng.choice((FORMS[rng.choice(pool)][1] if rng.random() < 0.8 else rng.choice(FORMS)[1]).split())
                v = rng.randint(1, 9) if rng.random() < 0.7 else sums.count(rng) + 1
                t[w.encode()] = (v, sums.missed(rng, v))
            return t
        out.append((words, sep, terms(rng.choice((0, 1, 3, 6))), terms(rng.choice((0, 1, 3, 6)))))
    # long stopword files
    for i in range(3 if c.quick else 20):
        ws = [rng.randrange(len(FORMS)) for _ in range(1500)]
        out.append((ws, [" ", "\n"], {b"the": (5, 1), b"of": (7, 7)}, {b"cat": (1, 0), b"unlisted": (2, 1)}))
    return out


def body(c):
    c.build()
    c.model("MCStats", "MCStats_drop", what="leaving out one word at a time, each once, leaves the words outside the prefix of the file")
    c.model("MCBigInt", what="the arithmetic used on counts of any size is that of the integers")
    cs = cases(c)
    if c.quick:
        cs = cs[:-3] + cs[-1:]
    ev = c.pmap(lambda k: event(c, k), cs)
    stats.finish(c, ev, lambda k: event(c, k), "stopword prefixes")
    cs = []
    for i in range(6 if c.quick else 60):
        ws = ["the", "of", "cat", "a", "zz", "unlisted"]
        n = c.rng.choice((32000, 32767, 33000, 65530, 66000))
        runs = [(c.rng.choice(ws), c.rng.choice((1, 2, 50, 700, n))) for _ in range(c.rng.randint(1, 7))] + [(c.rng.choice(ws), n), (c.rng.choice(ws), c.rng.randint(1, 9))]
        terms = lambda ks: {k.encode(): (c.rng.randint(5, 99), c.rng.randint(0, 5)) for k in ks}
        cs.append((tuple(runs), terms(c.rng.sample(ws[:4], c.rng.randint(0, 3))), terms(c.rng.sample(["cat", "a", "zz", "more", "dog"], c.rng.randint(1, 4)))))
    stats.finish(c, c.pmap(lambda k: runs_event(c, k), cs), lambda k: runs_event(c, k), "very long stopword files")
    c.sample(lambda: {"stopwords": ev[5]["_files"]["S"].decode(), "output": ev[5]["_out"].decode()})
