"""C27: every code point is displayed, classified and read back consistently."""
import os
import gen, parse, uni
from parse import Lines, N, P_, Bad, need
import c25
STEP = 256


def event(c, case):
    cps, missed = case
    d = c.dir()
    t = "".join(map(chr, cps))
    gen.write(os.path.join(d, "a"), t); gen.write(os.path.join(d, "b"), "" if missed else t)
    e = {"st": "ok", "raw": list(cps), "missed": missed, "rows": [], "classes": [], "sum": [], "group": [], "ngram": [], "_case": case}
    def run(tool, *args):
        r = c.run(tool, list(args), d)
        need(not r.timeout and r.rc == 0, "%s failed: %r" % (tool, r.err[:200]))
        return r.out
    try:
        run("accuracy", "a", "b", "R")
        rep = parse.acc(open(os.path.join(d, "R"), "rb").read())
        row = lambda x: [x[3], x[0], x[1]]
        e["rows"] = [row(x) for x in rep["rows"]]
        e["classes"] = [x[:3] for x in rep["classes"]]
        e["sum"] = [row(x) for x in parse.acc(run("accsum", "R", "R"))["rows"]]
        L = Lines(run("groupacc", "a", "R"))
        L.exact(b"   Count   Missed   %Right")
        while True:
            a, b, p, s = L.match(N + b" " + N + b" " + P_ + rb"   (.+)")
            if s == b"Total":
                break
            need(s[:1] == b"{" and s[-1:] == b"}", "character")
            e["group"].append([list(s[1:-1]), int(a), int(b)])
        L = Lines(run("ngram", "a"))
        L.next()
        while True:
            a, b, s = L.match(N + b" " + N + rb"   (Total|\{.+\})")
            if s == b"Total":
                break
            e["ngram"].append([list(s[1:-1]), int(a)])
    except (Bad, OSError) as x:
        e["st"] = "refused"; e["_why"] = str(x)
    return e


def cases(c):
    rng = c.rng
    starts = list(range(0, 0x110000, STEP))
    if c.quick:
        homogenous = lambda s: s >= 0x30000
        bounds = {0x30000, 0x31300, 0x3FF00, 0xE0000, 0xE0100, 0xEFF00, 0xF0000, 0xFFF00, 0x100000, 0x10FF00, 0x1FF00, 0x2FF00, 0x20000, 0x2A600, 0x2F800, 0x2FA00}
        starts = [s for s in starts if s < 0x10000 or s in bounds or (s < 0x20000 and rng.random() < 0.5) or rng.random() < 0.02]
    out = []
    for i, s in enumerate(starts):
        q = [x for x in range(s, s + STEP) if uni.scalar(x) and uni.stable(x)]
        if q:
            out.append((tuple(q), i % 2))
            if s == 0:
                out.append((tuple(q), 1))
    for i in range(40 if c.quick else 600):     # any mix, repeated, in any order
        pool = [x for x in (rng.choice((rng.randrange(0x400), rng.randrange(0x3100), rng.randrange(0x10000), rng.randrange(0x110000))) for _ in range(40)) if uni.scalar(x) and uni.stable(x)]
        out.append((tuple(rng.choice(pool) for _ in range(rng.randint(1, 90))), rng.randint(0, 1)))
    return out


def tables(part):
    S = {32, 10, 126}
    for e in part:
        S.update(e["raw"])
    return {"chars": [[q, 0, uni.kind(q), 0, 0, 0, []] for q in sorted(S)], "comp": []}


def body(c):
    c.build()
    c.model("MCDisplay", what="whatever way a character is displayed, it is read back as itself; up to three displayed characters side by side are unambiguous")
    ev = c.pmap(lambda k: event(c, k), cases(c))
    for e, clauses in c.judge("TraceChars", ev, "chunks of code points", tables=tables, shards=max(8, len(ev) // 60)):
        if len(c.violations) < 5 and not c.judge("TraceChars", [event(c, e["_case"])], "re-runs", tables=tables):
            continue
        c.violation("characters U+%04X..U+%04X: %s %s" % (min(e["raw"]), max(e["raw"]), "+".join(clauses), e.get("_why", "")), {"why": e.get("_why")},
                    {"a": "".join(map(chr, e["raw"])).encode(), "b": b"" if e["missed"] else "".join(map(chr, e["raw"])).encode()}, ["accuracy a b R; accsum R R; groupacc a R; ngram a"])
    c.sample(lambda: {"first": hex(ev[5]["raw"][0]), "rows": [[bytes(x[0]).decode(), x[1]] for x in ev[5]["rows"][:5]], "classes": ev[5]["classes"]})
    c.counts["code points"] = sum(len(set(e["raw"])) for e in ev)
