"""C04: spacing is normalised the same way in every text."""
import os
import gen, uni
from gen import cps
from reading import read_event, tables, MSG

BLANKS = [9, 11, 12, 13, 32, 160, 5760, *range(8192, 8203), 8232, 8233, 8239, 8287, 12288]
LOOKALIKES = [8, 14, 27, 28, 29, 30, 31, 0x85, 0xAD, 0x180E, 0x200B, 0x200C, 0x200D, 0x200E, 0x2027, 0x202A, 0x202E,
              0x2030, 0x205E, 0x2060, 0x2061, 0x2FFB, 0x3001, 0x303F, 0x3164, 0xFEFF, 0xFFA0, 0x2800, 0x1361, 0x115F,
              0x1160, 0x17B4, 0x34F, 0, 1, 127, 128, 0x9F, 0xA1, 0x167F, 0x1681, 0x1FFF, 0xE000, 0x1F4A9, 0xFFFF, 0x10FFFF]

# tools that read texts for comparison; T: the text under test, R: another text
RUNS = [("accuracy", ["T", "R"]), ("accuracy", ["R", "T"]), ("synctext", ["T", "R"]), ("synctext", ["-s", "R", "T"]),
        ("synctext", ["-i", "T", "R"]), ("synctext", ["-H", "-s", "T", "R"]), ("synctext", ["T", "R", "T"]), ("synctext", ["-T", "-s", "T", "R"]),
        ("editop", ["T", "R"]), ("editop", ["R", "T"]), ("ngram", ["T", "R"]), ("ngram", ["-n", "3", "T"]), ("vote", ["T", "R", "R"]),
        ("vote", ["-s", "1/2", "R", "T", "R"]), ("vote", ["-O", "R", "T", "R", "T"]), ("wordacc", ["T", "R"]), ("wordacc", ["R", "T"]),
        ("wordfreq", ["T", "R"])]


def same_event(c, case):
    t1, t2, r, (tool, args) = case
    res = []
    for t in (t1, t2):
        d = c.dir()
        gen.write(os.path.join(d, "T"), t); gen.write(os.path.join(d, "R"), r)
        res.append(c.run(tool, args, d))
    a, b = res
    return {"k": "same", "t1": cps(t1), "t2": cps(t2), "same": a.rc == b.rc and a.out == b.out, "ok": a.rc == 0 and b.rc == 0,
            "_case": case, "_out": (a.out, b.out)}


def respace(rng, t):
    """Another spacing of the same text (candidates: the specification decides whether it is)."""
    out = []
    i = 0
    for ch in t:
        if ch == " ":
            out += [chr(rng.choice(BLANKS)) for _ in range(rng.choice((1, 1, 2, 3)))]
        elif ch == "\n":
            out += [chr(rng.choice(BLANKS)) for _ in range(rng.choice((0, 0, 1, 2)))]
            out.append("\n")
            for _ in range(rng.choice((0, 0, 1, 2))):
                out += [chr(rng.choice(BLANKS)) for _ in range(rng.choice((0, 0, 1, 2)))]
                out.append("\n")
            out += [chr(rng.choice(BLANKS)) for _ in range(rng.choice((0, 0, 1)))]
        else:
            out.append(ch)
    return "".join(out)


def cases(c):
    rng = c.rng
    rd = [(s, "file") for s in gen.strings("a \t\n^", 5 if c.quick else 6)]
    if c.quick:
        rd = [k for k in rd if len(k[0]) <= 3] + rng.sample([k for k in rd if len(k[0]) > 3], 1500)
    for cp in BLANKS + LOOKALIKES:
        ch = chr(cp)
        rd.append(("x%s%sy%s\n%s%s\n%sz^%s %s" % ((ch,) * 8), "file"))
        rd += [(t.replace("@", ch), "file") for t in ("@", "@a", "a@", "@a@\n@b@\n@", "@ a", "@\n", "a\n@", "a @", "@@a", "a@ @b", "^@a", "a^@")]
    # the whole code space, in texts of many characters
    step = 400
    allc = [q for q in range(0x110000) if uni.scalar(q) and uni.stable(q)]
    if c.quick:
        allc = [q for q in allc if q < 0x3100 or 0xA000 <= q < 0xA100 or 0xD7F0 <= q <= 0xFFFF and q % 7 < 2 or q % 1021 == 5]
        allc = [q for q in allc if q < 0x800 or 0x1600 <= q < 0x1900 or 0x1FF0 <= q < 0x2100 or 0x2FF0 <= q < 0x3010 or q % 9 == 0]
    elif not c.quick:
        allc = [q for q in allc if q < 0x20000 or q % 5 == c.seed % 5 or q >= 0x10FF00]
    for i in range(0, len(allc), step):
        rd.append(("".join("x" + chr(q) + chr(q) for q in allc[i:i + step] if q not in (10, 94)), "file"))
    for i in range(500 if c.quick else 5000):
        al = rng.choice(("ab \n", "a  \n\n^", "ab~^ \t\n", "".join(map(chr, BLANKS)) + "ab\n^", "xy \r\n"))
        rd.append((gen.rand_string(rng, al, 0, rng.choice((8, 20, 80))), "file"))
    same = []
    for i in range(250 if c.quick else 2500):
        al = rng.choice(("ab", "abc", "abc~", "the of and a"))
        if al[0] == "t":
            t = "".join(rng.choice(("the", "of", "cat", "x1", " ", " ", "\n")) for _ in range(rng.randint(0, 25)))
        else:
            t = gen.rand_string(rng, al + "  \n", 0, 30)
        if rng.random() < 0.3:
            k = rng.randrange(len(t) + 1)
            t = t[:k] + "^" + t[k:]
        r = gen.mutate(rng, t, al + " \n", 0.2)
        same.append((t, respace(rng, t), r, RUNS[i % len(RUNS)]))
    return rd, same


def body(c):
    c.build()
    c.model("MCText", what="the single pass computes the declarative normal form; it is idempotent and keeps ink")
    rd, same = cases(c)
    ev = c.pmap(lambda k: read_event(c, k), rd)
    for e, clauses in c.judge("TraceRead", ev, "texts read by vote", tables=tables):
        if len(c.violations) < 5 and not c.judge("TraceRead", [read_event(c, e["_case"])], "re-runs", tables=tables):
            continue
        c.violation("text %r is not read in normal form: %s" % (e["_case"][0][:60], "+".join(clauses)), {"clauses": clauses},
                    {"A": e["_data"], "output": bytes(e["out"])}, ["vote", "-w", "1/2", "-s", "1/2", "A", "A"])
    ev2 = c.pmap(lambda k: same_event(c, k), same)
    for e, clauses in c.judge("TraceRead", ev2, "pairs of differently spaced texts", tables=tables):
        if len(c.violations) < 5 and not c.judge("TraceRead", [same_event(c, e["_case"])], "re-runs", tables=tables):
            continue
        t1, t2, r, (tool, args) = e["_case"]
        c.violation("%s %s: %s for %r and %r" % (tool, " ".join(args), "+".join(clauses), t1[:60], t2[:60]), {},
                    {"T1": t1.encode(), "T2": t2.encode(), "R": r.encode(), "out1": e["_out"][0], "out2": e["_out"][1]}, [tool, *args])
    c.sample(lambda: {"bytes": ev[900]["bytes"], "out": ev[900]["out"]})
    c.sample(lambda: {"spacing 1": same[7][0], "spacing 2": same[7][1], "run": same[7][3]})
