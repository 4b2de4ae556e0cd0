"""C23: n-gram statistics count every window of every text exactly once."""
import os
import gen, parse, uni
from gen import cps
from parse import Lines, N, Bad, need


def event(c, case):
    n, files, form = case
    runs = None
    if form == 3:
        runs, form = files, 0
        files = ["".join((("^" if s else "") + q) * k for q, s, k in f) for f in runs]
    d = c.dir()
    names = ["f%d" % i for i in range(len(files))]
    for x, t in zip(names, files):
        gen.write(os.path.join(d, x), t)
    opt = {0: ["-n", str(n)], 1: ["-n%d" % n], 2: []}[form]
    at = len(files) // 2 if form == 1 else 0
    args = names[:at] + opt + names[at:]
    r = c.run("ngram", args, d, timeout=60)
    e = {"st": "ok", "n": n, "files": [cps(t) for t in files], "value": [], "count": [], "total1": [0, 0], "total2": [0, 0], "_case": case, "_out": r.out, "_cmd": ["ngram", *args]}
    if runs is not None:
        e["runs"] = [[[ord(q), bool(s), k] for q, s, k in f] for f in runs]
        e["files"] = [sorted({ord(q) for q, _, _ in f}) for f in runs]
    if r.timeout or r.rc != 0:
        e["st"] = "tool-failed"
        return e
    try:
        L = Lines(r.out)
        for f, t in (("value", "total1"), ("count", "total2")):
            L.exact(b"   Count  Suspect")
            while True:
                a, b, w = L.match(N + b" " + N + rb"   (Total|\{.+\})")
                if w == b"Total":
                    e[t] = [int(a), int(b)]
                    break
                e[f].append([list(w[1:-1]), int(a), int(b)])
            if f == "value":
                L.exact(b""); L.exact(b"")
        need(not L.more(), "end")
    except Bad as x:
        e["st"] = "layout"; e["_why"] = str(x)
    return e


ALPHABETS = [gen.ALIKE, "ab", "a b\n^", "ab^~ \t\n", "a{}<>^", "<\\n>01", "\u25cc\u0301a\u0300^", "\x01\x02\x7f\u0085a", "\u00e9\u0416\u4e00\U00010400 ^", "\u200b\u200d\ufeff\U000E0001\ufffe\U0010FFFFa",
             "\ue000\U000F0000b", "\u2028\u00a0 a", "AaBb", "\u05d0\u0627\u0939\u0e01\u0e31", "\u0378\u0530x"]


def cases(c):
    rng = c.rng
    out = []
    for n in (1, 2, 3):
        for fs in ((("",)), ("", ""), ("a",), ("ab",), ("abc",), ("ab", "c"), ("a", "b", "c"), ("ab", "ab"), ("^a^b", "a^"), ("a^", "b"), ("~", "~~"), ("\n",), ("a\n", "\nb"), ("abc", "d", "efg", "", "hi")):
            out.append((n, fs, 0))
    for n in (1, 2, 3):
        for k in (130, 260, 1030):       # many files
            out.append((n, tuple(rng.choice(("", "a", "ab^c", "\u00e9a b", "xyz")) for _ in range(k)), 0))
    for i in range(900 if c.quick else 12000):
        n = rng.choice((1, 2, 3))
        al = rng.choice(ALPHABETS) if rng.random() < 0.8 else "".join(rng.sample("".join(ALPHABETS), 6))
        k = rng.choice((1, 1, 2, 3, 7))
        fs = tuple(gen.rand_string(rng, al, 0, rng.choice((2, 6, 25, 80))) for _ in range(k))
        out.append((n, fs, 2 if n == 1 and rng.random() < 0.4 else rng.choice((0, 1))))
    for i in range(3 if c.quick else 30):       # many distinct, frequent and rare ones
        t = gen.rand_string(rng, "abcdefgh^ \n", 300, 500) + "".join(chr(rng.choice((0x4e00, 0x100, 0x1F600, 0x300)) + rng.randrange(60)) for _ in range(200))
        out.append((rng.choice((1, 2, 3)), (t, t[::-1]), 0))
    # very frequent ones
    for i in range(6 if c.quick else 60):
        def runs():
            f = []
            for _ in range(rng.randint(1, 6)):
                q = (rng.choice("abc\u00e9"), rng.random() < 0.3, rng.choice((1, 2, 5, 6, 7, 300, 32769, 33000, 65537, 66000, 100000)) if rng.random() < 0.8 else rng.randint(1, 90000))
                if not f or f[-1][:2] != q[:2]:
                    f.append(q)
                if rng.random() < 0.2:
                    f += [(rng.choice(" \n"), False, 1), ("d", False, rng.choice((1, 40000)))]
            return tuple(f)
        out.append((rng.choice((1, 2, 3)), tuple(runs() for _ in range(rng.choice((1, 2, 3)))), 3))
    # equally frequent ones whose numbers of suspects lie far apart
    for total in (130, 260, 300, 33000, 70000) if c.quick else (130, 260, 300, 1000, 32769, 33000, 65537, 66000, 70000, 140000):
        for n in (1, 2):
            f = []
            for q in "ab\u00e9":
                k = rng.choice((total, total - rng.randint(1, 9), rng.randint(1, 9), rng.randint(1, total - 1)))
                f += [(q, True, k)] + ([(q, False, total - k)] if k < total else [])
                f.append((" ", False, 1))
            out.append((n, (tuple(f[:-1]),), 3))
    # all kinds of characters, once each
    for i in range(12 if c.quick else 200):
        q = [x for x in (rng.choice((rng.randrange(0x300), rng.randrange(0x3000), rng.randrange(0x110000), rng.randrange(0x20000))) for _ in range(80)) if uni.scalar(x) and uni.stable(x) and x != 94]
        out.append((rng.choice((1, 2, 3)), ("a" + "".join(map(chr, q)),), 0))
    return out


def tables(part):
    S = {32, 10, 126, 94}
    for e in part:
        for t in e["files"]:
            S.update(t)
    return uni.tables((), [[x] for x in S])


def body(c):
    c.build()
    c.model("MCNgram", what="filling a window at each character counts every window of every file, and none across files")
    c.model("MCRunNgram", what="the n-grams of a text given as runs of equal characters are those of the text")
    ev = c.pmap(lambda k: event(c, k), cases(c))
    for e, clauses in c.judge("TraceNgram", ev, "ngram runs", tables=tables):
        if len(c.violations) < 5 and not c.judge("TraceNgram", [event(c, e["_case"])], "re-runs", tables=tables):
            continue
        c.violation("ngram: %s for n=%d %r" % ("+".join(clauses), e["n"], [t[:100] for t in e["_case"][1]][:6]), {"why": e.get("_why"), "case": e["_case"] if "runs" in e else None},
                    {**({} if "runs" in e else {"f%d" % i: t.encode() for i, t in enumerate(e["_case"][1])}), "output": e["_out"]}, e["_cmd"])
    c.sample(lambda: {"files": ev[60]["_case"][1], "n": ev[60]["n"], "output": ev[60]["_out"].decode()[:200]})
