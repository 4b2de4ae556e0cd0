"""C12, C13: runs of vote."""
import os, re
import account, gen, parse, reading
from gen import cps


def event(c, case):
    """case: (texts, weight (m, n) or None, threshold (m, n) or None, optimized, how); how: '' | 'D' | 'o' | 'lens'"""
    texts, w, s, opt, how = case
    d = c.dir()
    names = [chr(65 + i) for i in range(len(texts))]
    for n, t in zip(names, texts):
        gen.write(os.path.join(d, n), t)
    opts = (["-w", "%d/%d" % w] if w else []) + (["-s", "%d/%d" % s] if s else []) + (["-O"] if opt else [])
    if how == "D":
        opts.append("-D")
    elif how == "o":
        opts += ["-o", "out"]
    cmd = ["vote", *opts, *names]
    r = c.run(cmd[0], cmd[1:], d)
    out = r.out
    e = {"st": "ok", "texts": [cps(t) for t in texts], "sw": w[0] if w else 1, "uw": w[1] if w else 1, "m": s[0] if s else 0,
         "n": s[1] if s else 0, "opt": opt, "haslens": False, "lens": [], "hasdist": False, "dist": [], "out": [],
         "_case": case, "_out": out, "_cmd": cmd}
    if r.timeout or r.rc != 0:
        e["st"] = "tool-failed"
        return e
    try:
        if how == "o":
            parse.need(out == b"", "standard output")
            out = open(os.path.join(d, "out"), "rb").read()
        if how == "D" and opt:
            for _ in texts:
                m = re.match(rb" *(\d+)\.(\d) ([A-P])\n", out)
                parse.need(m and m.group(2) in b"05", "distance")
                e["dist"].append([m.group(3)[0] - 64, 2 * int(m.group(1)) + (m.group(2) == b"5")])
                out = out[m.end():]
            e["hasdist"] = True
        if how == "lens":
            for n, t in zip(names, account.renamed(*texts)):
                gen.write(os.path.join(d, n), t)
            q = c.run("synctext", ["-H", *names], d)
            if q.rc != 0:
                e["st"] = "synctext-failed"
                return e
            e["lens"] = [[m, [len(x) for x in t]] for m, t in parse.sync(q.out, names)]
            e["haslens"] = True
        e["out"] = list(out)
    except (parse.Bad, UnicodeDecodeError, OSError) as z:
        e["st"] = "layout"; e["_why"] = str(z)
    return e


def tables(part):
    return reading.tables([{"bytes": "".join(map(chr, t)).encode("utf8", "surrogatepass")} for e in part for t in e["texts"]])


def check(c, cs, what):
    ev = c.pmap(lambda k: event(c, k), cs)
    for e, clauses in c.judge("TraceVote", ev, what, tables=tables):
        if len(c.violations) < 5 and not c.judge("TraceVote", [event(c, e["_case"])], "re-runs", tables=tables):
            continue
        texts = e["_case"][0]
        c.violation("%s: %s for texts %r" % (" ".join(e["_cmd"]), "+".join(clauses), [t[:40] for t in texts]), {"why": e.get("_why"), "dist": e["dist"]},
                    {**{chr(65 + i): t.encode() for i, t in enumerate(texts)}, "output": e["_out"]}, e["_cmd"])
    return ev


def family(rng, al, k, hi, rate=None, marks=True):
    """Texts of k voters that go back to a common text, with suspect marks."""
    base = gen.rand_string(rng, al, 0, hi)
    r = rate or rng.choice((0.05, 0.15, 0.4, 0.7))
    out = []
    for _ in range(k):
        t = gen.mutate(rng, base, al, r) if rng.random() < 0.93 else gen.rand_string(rng, al, 0, hi)
        if marks and rng.random() < 0.8:
            t = "".join(("^" if rng.random() < 0.25 else "") + ch for ch in t)
        out.append(t)
    return out


def fraction(rng):
    n = rng.randint(1, 9)
    return (rng.randint(1, n), n)
