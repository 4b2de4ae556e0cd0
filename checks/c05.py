"""C05: files are decoded as UTF-8, with headers skipped and suspect marks attached."""
import itertools, os
import gen, uni
from gen import cps
from reading import read_event, correct_event, tables, TITLE, DIV, MSG
from c04 import RUNS

B = [0x00, 0x0A, 0x20, 0x41, 0x5E, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC,
     0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFC, 0xFE, 0xFF]


def header(rng, dividers=2, version=b"7.0"):
    """A vendor header; fewer than two dividers make an empty text."""
    body = []
    for i in range(dividers):
        for _ in range(rng.randint(0, 3) if i else 0):
            k = rng.random()
            body.append(b"" if k < 0.1 else b"-" * rng.choice((47, 49, 48)) + rng.choice((b" ", b"x", b"\0", b"\0" + b"-" * 48)) if k < 0.3 else
                        b"x" * rng.choice((50, 97, 98, 99, 147, 200)) + b"-" * 48 if k < 0.5 else
                        bytes(rng.choice(b"abc: -^~\0\xff\xc3") for _ in range(rng.randint(1, 60))))
        body.append(DIV[:-1])
    for _ in range(rng.randint(0, 2) if dividers < 2 else 0):
        body.append(b"vendor line")
    return TITLE.replace(b"7.0", version) + b"".join(x + b"\n" for x in body)


def same_event(c, case):
    b1, b2, r, (tool, args), how = case
    res = []
    for k, b in enumerate((b1, b2)):
        d = c.dir()
        gen.write(os.path.join(d, "T"), b); gen.write(os.path.join(d, "R"), r)
        if how == "pipe" and k == 0:
            res.append(c.run(tool, ["/dev/stdin" if x == "T" else x for x in args], d, stdin=b))
        else:
            res.append(c.run(tool, args, d))
    a, b = res
    out = a.out
    return {"k": "samefile", "b1": list(b1), "b2": list(b2), "same": a.rc == b.rc and out == b.out,
            "words": tool in ("wordacc", "wordfreq"), "ok": a.rc == 0 and b.rc == 0, "_case": case, "_out": (a.out, b.out)}


def cases(c):
    rng = c.rng
    rd = [(bytes([b]), "file") for b in range(256)] + [(bytes([65, b]), "file") for b in range(256)]
    two = [bytes(t) for t in itertools.product(B, repeat=2)]
    three = [bytes(t) for t in itertools.product(B, repeat=3) if t[0] >= 0xE0 or t[1] >= 0xC2]
    four = [bytes((a, x, y, z)) for a in (0xEF, 0xF0, 0xF3, 0xF4, 0xF5) for x in (0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xF0)
            for y in (0x41, 0x7F, 0x80, 0xBF, 0xC0) for z in (0x7F, 0x80, 0xBF, 0xC0, 0xF4)]
    if c.quick:
        three, four = rng.sample(three, 900), rng.sample(four, 300)
    rd += [(b, "file") for b in two + three + four]
    def rcp():
        while True:
            q = rng.choice((rng.randrange(0x80), rng.randrange(0x800), rng.randrange(0x10000), rng.randrange(0x110000),
                            rng.choice((0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0xFFFFF, 0x10FFFD, 0x10FFFF, 0xFEFF))))
            if uni.scalar(q) and uni.stable(q):
                return q
    def text(n):
        return "".join(chr(94) if rng.random() < 0.1 else "\n" if rng.random() < 0.08 else chr(rcp()) for _ in range(rng.randint(0, n)))
    n = 500 if c.quick else 8000
    for i in range(n):
        s = text(rng.choice((3, 12, 60))).encode()
        k = rng.random()
        if k < 0.35 and s:       # damage it
            q = rng.randrange(len(s))
            s = s[:q] + rng.choice((b"", bytes([rng.randrange(256)]))) + s[q + 1:]
        elif k < 0.6:
            s = header(rng, rng.choice((0, 1, 2, 2, 2, 2))) + s
        elif k < 0.7:        # nearly a header
            h = header(rng)
            h = rng.choice((h[:rng.randint(0, 52)], b" " + h, h.replace(b"Vendor", b"vendor"), h[1:], b"^" + h, h.replace(b"Version ", b"Version"),
                            h.replace(b"7.0", b"8.17 and more")))
            s = h + s
        rd.append((s, "pipe" if rng.random() < 0.35 else "file"))
    for k in range(0, len(TITLE) + 1):          # every proper beginning of the title line is text
        rd.append((TITLE[:k], "pipe" if k % 2 else "file"))
        rd.append((TITLE[:k] + b"\xc3\xa9x", "pipe" if k % 2 == 0 else "file"))
    for s in gen.strings("a^~\n", 4 if c.quick else 6):
        rd.append((s.encode(), "pipe" if len(s) % 2 else "file"))
    corr = []
    for i in range(60 if c.quick else 400):
        t = text(8).encode()
        s = rng.choice((t, header(rng, rng.choice((0, 1, 2))) + t, TITLE[:rng.randint(40, 50)] + t, t + header(rng), b"\n" + header(rng)))
        corr.append((s, ("accuracy", "wordacc", "editop")[i % 3]))
    same = []
    for i in range(160 if c.quick else 1600):
        tool, args = RUNS[i % len(RUNS)]
        al = rng.choice(("ab c^\n", "abc^~ ", "the cat\n ^"))
        t = gen.rand_string(rng, al, 1, 25).encode()
        r = gen.mutate(rng, t.decode(), al, 0.2).encode()
        how = "file"
        if tool in ("accuracy", "wordacc", "editop") and args[0] == "T" or args.count("T") > 1:
            h = b""
        else:
            h = header(rng, 2)
        if args.count("T") == 1 and tool != "synctext" and rng.random() < 0.6:   # synctext shows file names
            how = "pipe"
        b1 = h + t
        b2 = t
        if tool in ("wordacc", "wordfreq") and rng.random() < 0.5:
            b2 = t.replace(b"^", b"")
        if rng.random() < 0.2:
            b2 = b2.replace(b"^", b"^^")
        same.append((b1, b2, r, (tool, args), how))
    return rd, corr, same


def body(c):
    c.build()
    c.model("MCUtf8", what="the byte-by-byte decoder accepts exactly the shortest encodings of scalar values and inverts the encoder")
    c.model("MCText", what="suspect marks attach to the next character and survive normalisation")
    rd, corr, same = cases(c)
    for what, f, cs in (("files read by vote", read_event, rd), ("correct texts", correct_event, corr), ("same contents, other form", same_event, same)):
        ev = c.pmap(lambda k: f(c, k), cs)
        tb = tables if f is not same_event else (lambda p: {"chars": [], "comp": []})
        for e, clauses in c.judge("TraceRead", ev, what, tables=tb):
            if len(c.violations) < 5 and not c.judge("TraceRead", [f(c, e["_case"])], "re-runs", tables=tb):
                continue
            if f is same_event:
                b1, b2, r, (tool, args), how = e["_case"]
                c.violation("%s %s: %s for two forms of %r" % (tool, args, "+".join(clauses), b2[:60]), {"pipe": how},
                            {"T1": b1, "T2": b2, "R": r, "out1": e["_out"][0], "out2": e["_out"][1]}, [tool, *args])
            else:
                c.violation("%s of %r: %s" % (what, e["_data"][:60], "+".join(clauses)), {"how": e["_case"][1], "rc": e["rc"]},
                            {"A": e["_data"], "output": bytes(e["out"])}, None)
        c.sample(lambda: {k: ev[-1][k] for k in ev[-1] if k[0] != "_"})
