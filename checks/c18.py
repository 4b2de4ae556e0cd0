"""C18: edit operation cost follows the cost model for every move threshold."""
import os, re
import blocks, gen, parse, render, stats, sums
from c17 import texts
from parse import nat, big, need


def event(c, case):
    d = c.dir()
    names, reps, files = [], [], {}
    for i, (ins, dele, mv) in enumerate(case):
        b = render.ed(ins, dele, mv)
        gen.write(os.path.join(d, "r%d" % i), b)
        names.append("r%d" % i); files["r%d" % i] = b
        reps.append({"ins": nat(ins), "moves": [[k, nat(v)] for k, v in sorted(mv.items()) if v]})
    r = c.run("editopcost", names, d)
    e = {"k": "cost", "st": "ok", "reps": reps, "out": [], "_case": case, "_out": r.out, "_label": "editopcost of %r" % (case,),
         "_cmd": ["editopcost", *names], "_files": files, "_rc": r.rc}
    if r.rc != 0:
        e["st"] = "tool-failed"
        return e
    try:
        e["out"] = curve(r.out)
    except parse.Bad as x:
        e["st"] = "layout"; e["_why"] = str(x)
    return e


def chain(c, case):
    """case: pairs of texts; their edit operation reports, and the cost of those."""
    d = c.dir()
    e = {"k": "chain", "st": "ok", "pairs": [], "out": [], "_case": case, "_out": b"", "_files": {}, "_rc": 0}
    names = []
    for i, (x, y, how) in enumerate(case):
        a, b, n = "A%d" % i, "B%d" % i, "r%d" % i
        gen.write(os.path.join(d, a), x); gen.write(os.path.join(d, b), y)
        e["_files"].update({a: x.encode(), b: y.encode()})
        r = c.run("editop", [a, b, n] if how else [a, b], d)
        s = c.run("synctext", ["-T", a, b], d)
        if r.rc != 0 or s.rc != 0:
            e["st"] = "tool-failed"
            break
        if not how:
            gen.write(os.path.join(d, n), r.out)
        t = blocks.transposed(s.out)
        e["pairs"].append({"ins": sum(len(z.replace("~", "")) for q, z in t[0] if not q), "blocks": [[q, len(z)] for q, z in t[1] if q]})
        names.append(n)
    e["_cmd"] = ["editopcost", *names]
    e["_label"] = "editopcost of the reports of %d pairs of texts" % len(case)
    if e["st"] == "ok":
        r = c.run("editopcost", names, d)
        e["_out"] = r.out; e["_rc"] = r.rc
        if r.rc != 0:
            e["st"] = "tool-failed"
        else:
            try:
                e["out"] = curve(r.out)
            except parse.Bad as z:
                e["st"] = "layout"; e["_why"] = str(z)
    return e


def chains(c):
    rng = c.rng
    def pair():
        n = rng.choice((0, 1, 2, 3, 5, 8))
        p = list(range(n)); rng.shuffle(p)
        lens = [rng.choice((1, 2, 3, 10, 50, 98, 99, 100, 101, 140)) for _ in p]
        return (*texts(rng, p, lens, rng.random() < 0.7), rng.random() < 0.5)
    return [tuple(pair() for _ in range(1 + i % 2)) for i in range(120 if c.quick else 1500)]


def curve(out):
    res = []
    for line in parse.lines(out):
        m = re.fullmatch(rb" *(\d+) +(-?\d+)", line)
        need(m, "line")
        res.append([int(m.group(1)), big(int(m.group(2)))])
    return res


def rep(rng):
    k = rng.random()
    if k < 0.1:
        return (0, 0, {})
    mv = {}
    for _ in range(rng.choice((0, 1, 2, 5, 30))):
        mv[rng.choice((1, 2, 50, 99, 100, rng.randint(1, 100)))] = rng.choice((1, rng.randint(1, 9), rng.randint(1, 10 ** 6), rng.randint(1, 10 ** 10)))
    if k > 0.95:
        mv = {i: rng.randint(1, 9) for i in range(1, 101)}
    return (sums.count(rng), sums.count(rng), mv)


def cases(c):
    rng = c.rng
    out = [((i, 7, {k: n}),) for i in (0, 5) for k in (1, 2, 3, 50, 98, 99, 100) for n in (1, 3)]
    out += [((5, 1, {1: 1, 100: 2}), (5, 1, {1: 1, 100: 2})), ((0, 0, {}), (3, 0, {100: 1, 99: 4})), ((0, 0, {}), (0, 0, {}))]
    for i in range(300 if c.quick else 4000):
        out.append(tuple(rep(rng) for _ in range(1 + i % 2)))
    return out


def body(c):
    c.build()
    c.model("MCStats", "MCStats_cost", what="the running totals of insertions and unpriced moves give the cost model for every threshold; cost never falls")
    c.model("MCBigInt", what="the arithmetic used on counts of any size is that of the integers")
    ev = c.pmap(lambda k: event(c, k), cases(c))
    stats.finish(c, ev, lambda k: event(c, k), "cost curves")
    stats.finish(c, c.pmap(lambda k: chain(c, k), chains(c)), lambda k: chain(c, k), "cost curves of texts")
    c.sample(lambda: {"report": ev[10]["_case"], "curve": ev[10]["_out"][:60].decode()})
