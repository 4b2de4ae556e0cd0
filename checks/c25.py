"""C25: group accuracy reports exactly the characters of the group."""
import os, re
import gen, parse, render, stats, sums, uni
from parse import nat, bpct, pct, need, Bad
from gen import cps
from c07 import ODD
from c02 import rand_cp


def read(out):
    L = parse.Lines(out)
    L.exact(b"   Count   Missed   %Right")
    rows = []
    while True:
        a, b, p, s = L.match(parse.N + b" " + parse.N + b" " + parse.P_ + rb"   (.+)")
        if s == b"Total":
            need(not L.more(), "end")
            return rows, [nat(int(a)), nat(int(b)), bpct(pct(p))]
        need(s[:1] == b"{" and s[-1:] == b"}", "character")
        rows.append([list(s[1:-1]), nat(int(a)), nat(int(b)), bpct(pct(p))])


def event(c, case):
    group, chars, blob = case
    d = c.dir()
    rep = blob or render.acc(chars, {b"{a}-{b}": (1, 0)}, ((0, 0, 0), (1, 0, 0)))
    gen.write(os.path.join(d, "G"), group); gen.write(os.path.join(d, "R"), rep)
    args = ["G", "R"] + (["out"] if len(group) % 4 == 0 else [])
    r = c.run("groupacc", args, d)
    out = r.out
    if len(args) == 3 and r.rc == 0:
        try:
            out = open(os.path.join(d, "out"), "rb").read()
        except OSError:
            out = b""
    e = {"st": "ok", "group": cps(group), "rows": [], "out": [], "total": [], "_case": case, "_out": out,
         "_label": "groupacc of %r" % group[:60], "_cmd": ["groupacc", *args], "_files": {"G": group.encode(), "R": rep}, "_rc": r.rc}
    if r.rc != 0:
        e["st"] = "tool-failed"; e["_why"] = r.err.decode("utf8", "replace")
        return e
    try:
        e["rows"] = [[parse.undisplay(bytes(x[3])), nat(x[0]), nat(x[1])] for x in parse.acc(rep)["rows"]]
        e["out"], e["total"] = read(out)
    except parse.Bad as x:
        e["st"] = "layout"; e["_why"] = str(x)
    return e


def real(c, case):
    d = c.dir()
    gen.write(os.path.join(d, "A"), case[0]); gen.write(os.path.join(d, "B"), case[1])
    r = c.run("accuracy", ["A", "B"], d)
    return r.out if r.rc == 0 else None


def cases(c):
    rng = c.rng
    out = []
    for i in range(700 if c.quick else 8000):
        pool = [97, 98, 65, 48, 32, 10, 46] + rng.sample(ODD, 6) + [ord(rand_cp(rng)) for _ in range(3)]
        pool = [q for q in pool if q not in (94, 126, 9)] + [94, 126] * (i % 5 == 0)
        chars = {}
        for q in rng.sample(pool, rng.randint(0, min(10, len(pool)))):
            n = sums.count(rng) + 1
            chars[q] = (n, sums.missed(rng, n))
        al = [chr(q) for q in pool] + ([" ", "\n", "^", "~"] if i % 2 else [])
        g = gen.rand_string(rng, al, 0, rng.choice((0, 4, 12, 40)))
        out.append((g, chars, None))
    pairs = [gen.pair(rng, rng.choice(("abc d", "ab~\n", "aé中 ")), 20) for _ in range(60 if c.quick else 400)]
    for (a, b), r in zip(pairs, c.pmap(lambda k: real(c, k), pairs)):
        if r:
            out.append((gen.rand_string(rng, a + "xy z", 0, 12), None, r))
    return out


def tables(part):
    S = {32, 10, 94, 126}
    for e in part:
        S.update(e["group"]); S.update(x[0] for x in e["rows"])
    return {"chars": [[q, 0, uni.kind(q), 0, 0, 0, []] for q in sorted(S)], "comp": []}


def body(c):
    c.build()
    c.model("MCText", what="the group file is read as a text: normal form, marks removed")
    c.model("MCGroup", what="walking the group once gives a line for each listed occurrence, in any division of the group and order of the rows")
    c.model("MCBigInt", what="the arithmetic used on counts of any size is that of the integers")
    cs = cases(c)
    ev = c.pmap(lambda k: event(c, k), cs)
    for e, clauses in c.judge("TraceGroup", ev, "groupacc runs", tables=tables):
        if len(c.violations) < 5 and not c.judge("TraceGroup", [event(c, e["_case"])], "re-runs", tables=tables):
            continue
        c.violation("%s: %s (%s)" % (e["_label"], "+".join(clauses), e.get("_why", "")), {"clauses": clauses}, {**e["_files"], "output": e["_out"]}, e["_cmd"])
    c.sample(lambda: {"group": cs[3][0], "output": ev[3]["_out"].decode("utf8", "replace")})
