"""C14, C16: block alignments shown by synctext -H / -T and counted by editop. Texts are free of braces and runs of =."""
import os, re
import gen, parse
from gen import cps
from parse import need, Bad, SEP


def transposed(out):
    """synctext -T output -> [(number, content)] of each text."""
    need(out.startswith(SEP + b"\n") and out.endswith(b"\n" + SEP), "frame")
    body = out[len(SEP) + 1:-len(SEP) - 1]
    parts = body.split(b"\n" + SEP + b"\n")
    need(len(parts) == 2, "two texts")
    res = []
    for p in parts:
        o, pos = [], 0
        for m in re.finditer(rb"\{(\d+):([^{}]*)\}", p):
            if m.start() > pos:
                o.append((0, p[pos:m.start()].decode()))
            need(int(m.group(1)) > 0, "number")
            o.append((int(m.group(1)), m.group(2).decode()))
            pos = m.end()
        if pos < len(p):
            o.append((0, p[pos:].decode()))
        res.append(o)
    return res


def event(c, case):
    kind, texts, opts = case
    d = c.dir()
    names = [chr(65 + i) for i in range(len(texts))]
    for n, t in zip(names, texts):
        gen.write(os.path.join(d, n), t)
    cmd = ["editop" if kind == "editop" else "synctext", *opts, *names]
    r = c.run(cmd[0], cmd[1:], d)
    e = {"k": kind, "st": "ok", "ci": "-i" in opts, "texts": [cps(t) for t in texts], "_case": case, "_out": r.out, "_cmd": cmd}
    if r.timeout or r.rc != 0:
        e["st"] = "tool-failed"
        return e
    try:
        if kind == "heuristic":
            e["segs"] = [{"m": m, "c": [cps(x) for x in s]} for m, s in parse.sync(r.out, names)]
        elif kind == "transposed":
            e["x"], e["y"] = ([{"id": n, "c": cps(s)} for n, s in p] for p in transposed(r.out))
        else:
            v = parse.ed(r.out)
            e["ins"], e["del"] = v["ins"], v["del"]
    except (Bad, UnicodeDecodeError) as x:
        e["st"] = "layout"; e["_why"] = str(x)
    return e


def check(c, cs, what):
    ev = c.pmap(lambda k: event(c, k), cs)
    for e, clauses in c.judge("TraceSync", ev, what):
        if len(c.violations) < 5 and not c.judge("TraceSync", [event(c, e["_case"])], "re-runs"):
            continue
        kind, texts, opts = e["_case"]
        c.violation("%s: %s for texts %r" % (" ".join(e["_cmd"]), "+".join(clauses), [t[:50] for t in texts]), {"why": e.get("_why")},
                    {**{chr(65 + i): t.encode() for i, t in enumerate(texts)}, "output": e["_out"]}, e["_cmd"])
    return ev


ALPH = ("ab", "abc", "abcdefgh", "ab~", "abc~^", "ab \n", "abcdefghijklmnopqrstuvwxyz   \n", "a\u00e9\u4e00\U0001F600", "ab~ \n^\t", gen.ALIKE)
