"""C11: confidence intervals are the jackknife interval of the given reports."""
import os, re
import gen, parse, stats
from parse import nat, bpct, pct, need

NONE = {"none": True, "n": 0, "count": [], "missed": [], "acc": bpct(parse.NOPCT), "lower": bpct(parse.NOPCT), "upper": bpct(parse.NOPCT)}


def read(out, tool):
    names = (b"Characters", b"Errors") if tool == "accci" else (b"Words", b"Misrecognized")
    m = re.fullmatch(rb" *(\d+)   Observations\n *(\d+)   %s\n *(\d+)   %s\n *(-?\d+\.\d\d)%%  Accuracy\n *(-?\d+\.\d\d)%%, *(-?\d+\.\d\d)%%  "
                     rb"Approximate 95%% Confidence Interval for Accuracy\n" % names, out)
    need(m, "layout")
    g = m.groups()
    return {"none": False, "n": int(g[0]), "count": nat(int(g[1])), "missed": nat(int(g[2])), "acc": bpct(pct(g[3])),
            "lower": bpct(pct(g[4])), "upper": bpct(pct(g[5]))}


def event(c, case):
    tool, obs, blobs = case
    d = c.dir()
    names = []
    for i, b in enumerate(blobs):
        gen.write(os.path.join(d, "r%d" % i), b)
        names += ["r%d" % i] * (obs[i][2] if len(obs[i]) == 3 else 1)
    if len(names) > len(obs):
        names = names[::2] + names[1::2]
    r = c.run(tool, names, d)
    e = {"k": "ci", "st": "ok", "obs": [[nat(o[0]), nat(o[1]), *o[2:]] for o in obs], "rc": r.rc, "out": NONE, "_case": case, "_out": r.out,
         "_label": "%s of %s" % (tool, obs[:8]), "_cmd": [tool, *names[:2000]], "_files": dict(zip(names, blobs)), "_rc": r.rc}
    if r.rc < 0:
        e["st"] = "crashed"
    elif r.out:
        try:
            e["out"] = read(r.out, tool)
        except parse.Bad:
            e["st"] = "layout"
    return e


def cases(c):
    rng = c.rng
    out = []
    def add(tool, obs):
        f = stats.acc_report if tool == "accci" else stats.wac_report
        out.append((tool, obs, [f(rng, o[0], o[1]) for o in obs]))
    for tool in ("accci", "wordaccci"):
        for obs in ([(0, 0), (0, 0)], [(0, 0), (10, 1)], [(10, 1), (0, 0), (0, 0)], [(10, 1), (10, 1)], [(10, 0), (20, 0)], [(10, 10), (20, 20)],
                    [(10, 1), (0, 0), (12, 1)], [(1, 0), (1, 1)], [(1, 0), (1, 1), (1, 1)], [(1000, 1), (1, 0)], [(1000000000, 12345), (1, 1), (77, 5)]):
            add(tool, obs)
        # very many reports
        for n in (130, 260, 520, 1030):
            add(tool, [(*o, rng.randint(n // 5, n // 4)) for o in stats.observations(rng, tool != "accci", 5)])
        add(tool, [(1000, 100, 33000), (50, 0, 1), (777, 600, 2)]); add(tool, [(3, 1, 300), (20, 3, 1), (0, 0, 5)])
        add(tool, [(10, 1, 34000), (40, 40, 300)])
        # as different as can be
        for n in (15, 30, 31, 64, 100, 250, 300, 400) if c.quick else range(11, 420, 7):
            add(tool, [(100, 0, n - n // 3), (100, 100, n // 3)]); add(tool, [(100, 2, n // 2), (90, 88, n // 2)])
        for i in range(190 if c.quick else 3000):
            add(tool, stats.observations(rng, tool != "accci"))
        for i in range(60 if c.quick else 900):      # intervals strictly between 0 and 100
            n = rng.choice((2, 3, 5, 8, 12, 20))
            add(tool, [(k, int(k * rng.uniform(0.05, 0.4))) for k in (rng.randint(50, 4000) for _ in range(n))])
        if tool == "accci":
            for i in range(20 if c.quick else 300):      # accuracy below zero
                add(tool, [(k, int(k * rng.uniform(0.5, 2))) for k in (rng.randint(5, 200) for _ in range(rng.randint(2, 6)))])
    return out


def body(c):
    c.build()
    c.timeout = 5
    c.model("MCStats", "MCStats_dist", what="the jackknife formulas agree with closed forms (equal sizes, equal accuracies)")
    c.model("MCBigInt", what="the arithmetic used on counts of any size is that of the integers")
    ev = c.pmap(lambda k: event(c, k), cases(c))
    stats.finish(c, ev, lambda k: event(c, k), "confidence intervals")
    c.sample(lambda: {"observations": ev[60]["_case"][1], "output": ev[60]["_out"].decode()})
