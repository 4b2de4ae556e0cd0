"""C15: synchronized text output is a faithful, complete rendering of the alignment."""
import os
import account, blocks, gen, parse, uni, voting
from gen import cps

NAMES = ["A", "b.txt", "sub/long name.out", "\u00e9t\u00e9.txt", "x%s%d", "12345678901234567890", "{1}", "=", "q", "w.w.w"]
LONG = ["n" * 100, "m" * 99, "k" * 127, "l" * 128, "o" * 255, "sub/" + "k" * 200, "./" * 150 + "p", "sub/../" * 160 + "r", "A"]
CASED = "".join(chr(q) for q in range(0x41, 0x1E944) if uni.scalar(q) and uni.stable(q) and uni.lower(q) != q)


def event(c, case):
    texts, names, opts = case
    d = c.dir()
    os.mkdir(os.path.join(d, "sub"))
    for n, t in zip(names, texts):
        gen.write(os.path.join(d, n), t)
    cmd = ["synctext", *opts, *names]
    r = c.run(cmd[0], cmd[1:], d)
    ci = "-i" in opts
    e = {"st": "ok", "texts": [cps(t) for t in texts], "names": [list(n.encode()) for n in names], "ci": ci, "marks": "-s" in opts,
         "transposed": "-T" in opts, "lens": [], "px": [], "py": [], "out": list(r.out), "_case": case, "_out": r.out, "_cmd": cmd}
    if r.timeout or r.rc != 0:
        e["st"] = "tool-failed"
        return e
    # The same alignment, of ordinary characters.
    plain = ["".join(chr(uni.lower(ord(ch))) for ch in t) for t in texts] if ci else texts
    ns = [chr(65 + i) for i in range(len(texts))]
    d = c.dir()
    for n, t in zip(ns, account.renamed(*plain)):
        gen.write(os.path.join(d, n), t)
    q = c.run("synctext", [*[o for o in opts if o in ("-T", "-H") and not (o == "-H" and "-T" in opts)], *ns], d)
    try:
        parse.need(q.rc == 0, "exit status")
        if "-T" in opts:
            e["px"], e["py"] = ([[n, len(s)] for n, s in p] for p in blocks.transposed(q.out))
        else:
            e["lens"] = [[m, [len(x) for x in t]] for m, t in parse.sync(q.out, ns)]
    except (parse.Bad, UnicodeDecodeError) as z:
        e["st"] = "renamed-layout"; e["_why"] = str(z)
    return e


def cases(c):
    rng = c.rng
    out = []
    AL = ("ab", "ab^~", "ab \n^", "{}=1 \n", "{1:}ab", "=\n", "ABab", "\u00e9\u0301\u4e00\U0001F600\x01a", "\u0300\u0903\u20dd a", "\ue000\ufffd\u200b\U0010FFFF\u0378a\n",
          "AaBb\u00c9\u00e9\u0130i\u03a3\u03c3\u03c2\u01c5\u01c6\u212ak", "abcdefghijklmnopqrstuvwxyz    \n", CASED)
    for i in range(1900 if c.quick else 20000):
        al = rng.choice(AL)
        if al is CASED:
            al = "".join(rng.choice(CASED) for _ in range(3)); al += "".join(chr(uni.lower(ord(x))) for x in al)
        k = rng.choice((2, 2, 2, 3, 3, 4, 6)) if rng.random() < 0.96 else rng.randint(7, 16)
        mode = rng.choice(("", "", "-H", "-T", "-T", "-T -H")) if k == 2 else rng.choice(("", "-H"))
        texts = voting.family(rng, al, k, rng.choice((3, 8, 20, 50)) if k < 7 else 15, marks=rng.random() < 0.6)
        names = (rng.sample(NAMES, k) if k <= len(NAMES) else ["f%d" % j for j in range(k)])
        opts = [o for o in (*mode.split(), "-i" if rng.random() < 0.35 else "", "-s" if rng.random() < 0.5 else "") if o]
        rng.shuffle(opts)
        out.append((tuple(texts), tuple(names), tuple(opts)))
    for i in range(3 if c.quick else 12):      # many differences: placeholders of several digits
        a = gen.rand_string(rng, "abcdefgh \n", 400, 500) if not i else gen.rand_string(rng, "abcdefgh \n", 1200, 1400)
        b = "".join("X" if j % 4 == 0 else ch for j, ch in enumerate(a))
        out.append(((a, b), ("one", "another"), ("-s",)))
    for i in range(16 if c.quick else 100):     # long names
        k = rng.choice((2, 2, 3, 4))
        out.append((tuple(voting.family(rng, rng.choice(("ab", "ab \n", "abc^~")), k, 10)), tuple(rng.sample(LONG, k)), rng.choice(((), ("-T",), ("-H",), ("-s",))) if k == 2 else ()))
    # case
    sweep = CASED
    if not c.quick:
        sweep += "".join(chr(q) for q in range(0xA1, 0x1F000) if uni.scalar(q) and uni.stable(q) and uni.kind(q) == 1 and uni.lower(q) == q and chr(q) != chr(94))
    for i in range(0, len(sweep), 300):
        s = sweep[i:i + 300]
        t = "".join(chr(uni.lower(ord(x))) for x in s)
        out.append(((s, t), ("A", "B"), ("-i",) if i % 2 == 0 else ()))
        out.append(((s, s), ("A", "B"), ("-i",)))
    return out


def tables(part):
    S = {32, 10, 126, 94}
    for e in part:
        for t in e["texts"]:
            S.update(t)
    S |= {uni.lower(q) for q in S}
    return {"chars": [[q, uni.lower(q), uni.kind(q), 0, 0, 0, [q]] for q in sorted(S)], "comp": []}


def body(c):
    c.build()
    c.model("MCRender", what="a reader rebuilds the segments and both texts from the output")
    c.model("MCRender", "MCRender3", what="same, three texts with names of different lengths")
    cs = cases(c)
    ev = c.pmap(lambda k: event(c, k), cs)
    for e, clauses in c.judge("TraceRender", ev, "synctext runs", tables=tables):
        if len(c.violations) < 5 and not c.judge("TraceRender", [event(c, e["_case"])], "re-runs", tables=tables):
            continue
        texts, names, opts = e["_case"]
        c.violation("%s: %s for texts %r" % (" ".join(e["_cmd"]), "+".join(clauses), [t[:40] for t in texts]), {"why": e.get("_why"), "lens": e["lens"][:40]},
                    {**{"T%d" % i: t.encode() for i, t in enumerate(texts)}, "output": e["_out"]}, e["_cmd"])
    c.sample(lambda: {"command": ev[7]["_cmd"], "texts": ev[7]["_case"][0], "output": ev[7]["_out"].decode()})
