"""C26: list, table and sort services behave as sequence, map and sort."""
import itertools, os, subprocess
import core, gen, words
from core import VERIF, CheckError, Result

HARNESS = os.path.join(VERIF, "harness", "services.c")
# keys of the same sum of bytes, with bytes beyond ASCII, prefixes, and the empty key
KEYSETS = [["ab", "ba", "c`", "bb", "", "a", "b", "abc"],
           ["\u00e9", "\u00e8\x01", "\u00e9\u00e9", "e", "\u00e9a", "a\u00e9", "\u4e00", "\u4e01"],
           ["w" * 300 + x for x in ("abcd", "bacd", "bbcc", "aacf", "e", "f", "dcba", "")],
           ["\u00e9" * n + x for n in (20, 70) for x in ("adcb", "abcd", "cbad", "fbaa")],
           ["q" * 4000 + x for x in ("abcd", "bacd", "cabd", "dabc")] + ["abcd" + "q" * 30 + x for x in ("ab", "ba", "c`", "a")],
           ["the", "The", "th", "hte", "teh", "thee", "he", "t"],
           [chr(0x61 + i) + "x" * 4 + chr(0x61 + 7 - i) for i in range(8)],
           ["\u00ff" * 40, "\u00ff" * 41, "\U0010ffff", "\x01", "\x7f", "0", "00", "{a}-{b}"],
           ["\x02" + "~" * 3 + "n", "\x02~", "~\x02", "\x01\x01~", "\x80", "k", "kk", "\u07ff"]]


def hx(k):
    return "x" + k.encode("utf8", "surrogatepass").hex()


def replay(c, text, timeout=60):
    r = c.run("services", [], c.scratch, stdin=text.encode(), timeout=timeout)
    return r.rc, r.out.decode()


def event(c, case):
    if case[0] == "sort":
        vals = case[1]
        rc, out = replay(c, "s %d %s\n" % (len(vals), " ".join(map(str, vals))))
        return {"k": "sort", "st": "ok" if rc == 0 else "ended-with-%d" % rc, "in": list(vals), "out": [int(x) for x in out.split()], "_case": case}
    _, ops, nent, nkeys, keys = case
    key = [i % nkeys for i in range(nent)] if nent else []
    s = ["k %d %s" % (i, hx(keys[k])) for i, k in enumerate(key)]
    for op, args, k in ops:
        s.append("? " + hx(keys[k]) if op == "?" else op if op in "TZ" else "%s %s" % (op, " ".join(map(str, args))))
    rc, out = replay(c, "\n".join(s) + "\n")
    seen = [[[int(x) for x in part.split()] for part in line.split("|")] for line in out.splitlines()]
    return {"k": "history", "st": "ok" if rc == 0 else "ended-with-%d" % rc, "ops": [list(o) for o in ops], "key": key, "seen": seen, "_case": case}


def cases(c):
    rng = c.rng
    out = []
    for h in c.histories("GenServices", "GenLists"):
        out.append(("h", h, 0, 1, KEYSETS[0]))
    for i, h in enumerate(c.histories("GenServices", "GenTables")):
        out.append(("h", h, 3, 2, KEYSETS[i % len(KEYSETS)]))
    for i, h in enumerate(c.histories("GenServices", "GenLong", simulate=400 if c.quick else 6000, depth=60)):
        ks = list(KEYSETS[i % len(KEYSETS)])
        rng.shuffle(ks)
        out.append(("h", h, 10, 8, ks))
    # a large table: every bucket several times; lookups of all keys; removal of half of them
    for n in (1000, 3000):
        keys = ["key%d" % i for i in range(n)]
        order = rng.sample(range(n), n)
        ops = [("I", (i,), 0) for i in order] + [("T", (0,), 0)] + [("?", (0,), k) for k in range(0, n, 7)] + [("X", (i,), 0) for i in order[::2]]
        ops += [("?", (0,), k) for k in range(0, n, 7)] + [("T", (0,), 0), ("I", (order[0],), 0), ("T", (0,), 0), ("Z", (0,), 0), ("T", (0,), 0), ("?", (0,), 3)]
        out.append(("h", ops, n, n, keys))
    # sort: all short arrays; patterns of all sizes
    for n in range(0, 6 if c.quick else 8):
        for v in itertools.product((1, 2, 3, 4)[:max(2, min(4, n))], repeat=n):
            out.append(("sort", v))
    for n in (10, 33, 100, 400):
        for i in range(12 if c.quick else 200):
            m = rng.choice((2, 5, n // 2, n, 10 * n))
            v = [rng.randint(-m, m) for _ in range(n + rng.randint(0, 3))]
            k = rng.random()
            if k < 0.2:
                v.sort()
            elif k < 0.4:
                v.sort(reverse=True)
            elif k < 0.5:
                v = sorted(v[::2]) + sorted(v[1::2], reverse=True)
            elif k < 0.6:
                v = v[: n // 2] * 2
            out.append(("sort", tuple(v)))
    for n in (20000,) if c.quick else (20000, 50000):
        for v in (range(n), range(n, 0, -1), [7] * n, rng.sample(range(n), n), [i % 2 for i in range(n)], [i % 100 for i in range(n)],
                  list(range(n // 2)) + list(range(n // 2, 0, -1)), [n] + list(range(n - 1)), list(range(1, n)) + [0]):
            out.append(("sort", tuple(v)))
    return out


def body(c):
    # Services used through the tools alone as well: should the library be rearranged so that the harness does not build
    try:
        c.build(extra_mains=[HARNESS])
        harness = os.path.exists(os.path.join(c.bin, "services"))
    except CheckError as x:
        if "services" not in str(x):
            raise
        c.build()
        harness = False
    c.model("MCLists", what="the linked list with a cached array refines a sequence")
    c.model("MCTable", what="the hash table refines a map, whatever keys collide")
    c.model("MCSort", what="quicksort ends with a sorted rearrangement of every array")
    if not c.quick:
        c.model("MCSort", "MCSortThorough", what="same, arrays of up to 7 elements")
    if harness:
        ev = c.pmap(lambda k: event(c, k), cases(c))
        for e, clauses in c.judge("TraceServices", ev, "histories of operations"):
            if len(c.violations) < 5 and not c.judge("TraceServices", [event(c, e["_case"])], "re-runs"):
                continue
            what = "sort of %d elements" % len(e["in"]) if e["k"] == "sort" else "history of %d operations %s" % (len(e["ops"]), [o[0] for o in e["ops"]][:12])
            c.violation("%s: %s" % (what, "+".join(clauses)), {"case": e["_case"]}, {"observed": str(e.get("seen", e.get("out")))}, ["services"])
        c.sample(lambda: {"operations": ev[5]["ops"], "seen": ev[5]["seen"]})
    else:
        c.notes.append("the harness does not build against these sources: judged through the tools only")
    # through the tools: many colliding and distinct terms, in every initial order
    rng = c.rng
    cs = []
    for i in range(60):
        ws = ["".join(rng.sample("abcdef", rng.randint(1, 6))) for _ in range(rng.choice((5, 50, 400)))]
        k = i % 4
        ws = sorted(ws) if k == 1 else sorted(ws, reverse=True) if k == 2 else ws
        cs.append((" ".join(ws), " ".join(ws[::3])))
    words.check(c, cs, "terms collected and sorted by wordfreq")
