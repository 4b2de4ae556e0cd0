"""C10: accuracy distributions give the share of text at or above each accuracy."""
import os
import gen, parse, stats, sums
from parse import nat


def event(c, case):
    tool, obs, blobs = case
    d = c.dir()
    names = []
    for i, b in enumerate(blobs):
        gen.write(os.path.join(d, "r%d" % i), b)
        names += ["r%d" % i] * (obs[i][2] if len(obs[i]) == 3 else 1)
    if len(names) > len(obs):
        names = names[::2] + names[1::2]
    r = c.run(tool, names, d)
    e = {"k": "dist", "st": "ok", "obs": [[nat(o[0]), nat(o[1]), *o[2:]] for o in obs], "out": [], "_case": case, "_out": r.out,
         "_label": "%s of %s" % (tool, obs[:8]), "_cmd": [tool, *names[:2000]], "_files": dict(zip(names, blobs)), "_rc": r.rc}
    if r.rc != 0:
        e["st"] = "tool-failed"
    else:
        try:
            e["out"] = stats.xy(r.out, 3)
        except parse.Bad as x:
            e["st"] = "layout"; e["_why"] = str(x)
    return e


def cases(c):
    rng = c.rng
    out = []
    def add(tool, obs):
        f = stats.acc_report if tool == "accdist" else stats.wac_report
        out.append((tool, obs, [f(rng, o[0], o[1]) for o in obs]))
    for tool in ("accdist", "wordaccdist"):
        for n in (1, 2, 3, 4, 5, 7, 8, 10, 100) if c.quick else range(1, 101):
            for m in range(0, n + 1, 1 if n < 20 or not c.quick else 1):
                if c.quick and n == 100 and m % 3:
                    continue
                add(tool, [(n, m)])
        if tool == "accdist":
            for n, m in ((1, 2), (10, 11), (10, 1000), (100, 101), (101, 102), (200, 201), (1000, 1001), (1000, 1009), (1000, 1010), (1000, 1011), (30000, 30001), (0, 5)):
                add(tool, [(n, m)]); add(tool, [(n, m), (50, 3)])
        add(tool, [(0, 0)]); add(tool, [(0, 0), (0, 0), (0, 0)]); add(tool, [(0, 0), (10, 1)])
        for i in range(130 if c.quick else 2500):
            add(tool, stats.observations(rng, tool != "accdist", rng.choice((1, 2, 3, 5, 9))))
        for i in range(60 if c.quick else 600):     # shares that lie hardly off the middle between two printed ones
            n = rng.choice((20000, rng.randint(9, 50000), rng.randint(10 ** 6, 10 ** rng.choice((8, 9, 10, 11)))))
            part = sums.near_half(rng, n)
            add(tool, [(part, rng.choice((0, part // 3))), (n - part, n - part)])
        add(tool, stats.observations(rng, tool != "accdist", 60))
        for n in (130, 260, 520, 1030):      # many reports
            add(tool, stats.observations(rng, tool != "accdist", n))
        add(tool, [(100, 7, 33000), (100, 50, 40), (3, 0, 1)]); add(tool, [(100000, 30000, 34000)])
    return out


def body(c):
    c.build()
    c.model("MCStats", "MCStats_dist", what="counters raised report by report give the share at or above each whole percent, never increasing with it")
    c.model("MCBigInt", what="the arithmetic used on counts of any size is that of the integers")
    ev = c.pmap(lambda k: event(c, k), cases(c))
    stats.finish(c, ev, lambda k: event(c, k), "distributions")
    c.sample(lambda: {"observations": ev[40]["_case"][1], "first lines": ev[40]["_out"][:60].decode()})
