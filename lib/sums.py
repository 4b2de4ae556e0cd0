"""C07, C08, C09: runs of the summing tools, in every order and grouping."""
import os
import gen, parse, render, uni

TOOL = {"acc": "accsum", "wac": "wordaccsum", "ed": "editopsum"}


def group_plan(rng, n):
    """A history: a sequence of steps that sum files (inputs are 0..n-1, step k makes file n+k); each input is used once."""
    left, steps = list(range(n)), []
    while len(left) > 1 or not steps:
        k = rng.randint(2, len(left)) if len(left) > 2 else len(left)
        pick = rng.sample(left, k)
        steps.append(pick)
        left = [x for x in left if x not in pick] + [n + len(steps) - 1]
    return steps


def events(c, kind, case):
    """case: (reports as bytes, history). One event per step, and one for the sum of all inputs in one step."""
    files, steps = case
    d = c.dir()
    for i, b in enumerate(files):
        gen.write(os.path.join(d, "r%d" % i), b)
    have = dict(enumerate(files))
    out = []
    total = None
    if len(files) >= 2:
        total = c.run(TOOL[kind], ["r%d" % i for i in range(len(files))], d)
        out.append((list(range(len(files))), total, True))
    n = len(files)
    for k, pick in enumerate(steps):
        if all(i in have for i in pick):
            r = c.run(TOOL[kind], ["r%d" % i for i in pick], d)
            if r.rc == 0:
                have[n + k] = r.out
                gen.write(os.path.join(d, "r%d" % (n + k)), r.out)
            last = k == len(steps) - 1
            out.append((pick, r, not last or total is None or sorted(base(steps, n, pick)) != list(range(n)) or r.out == total.out))
    ev = []
    for pick, r, same in out:
        e = {"kind": kind, "st": "ok", "ins": [], "out": {}, "same": same, "_case": case, "_pick": pick, "_files": [have[i] for i in pick], "_o": r.out}
        try:
            e["ins"] = [parse.report(kind, parse.READ[kind](have[i])) for i in pick]
        except (parse.Bad, UnicodeDecodeError) as x:
            e["st"] = "layout-of-input"; e["_why"] = str(x)
        if r.rc != 0:
            e["st"] = "tool-failed"; e["_why"] = r.err.decode("utf8", "replace")
        else:
            try:
                e["out"] = parse.report(kind, parse.READ[kind](r.out))
            except (parse.Bad, UnicodeDecodeError) as x:
                e["st"] = "layout"; e["_why"] = str(x)
        ev.append(e)
    return ev


def base(steps, n, pick):
    o = []
    for i in pick:
        o += [i] if i < n else base(steps, n, steps[i - n])
    return o


def tables(part):
    S = {32, 10, 126}
    for e in part:
        if e["kind"] == "acc":
            for r in e["ins"] + ([e["out"]] if e["out"] else []):
                S.update(x[0] for x in r["tab"]["char"])
    return {"chars": [[q, 0, uni.kind(q), 0, 0, 0, []] for q in sorted(S)], "comp": []}


def check(c, kind, cases):
    evs = [e for es in c.pmap(lambda k: events(c, kind, k), cases) for e in es]
    for e, clauses in c.judge("TraceReport", evs, TOOL[kind] + " runs", tables=tables):
        if len(c.violations) < 5:
            again = [x for x in events(c, kind, e["_case"]) if x["_pick"] == e["_pick"]]
            if not c.judge("TraceReport", again, "re-runs", tables=tables):
                continue
        c.violation("%s of %d reports: %s (%s)" % (TOOL[kind], len(e["_files"]), "+".join(clauses), e.get("_why", "")), {"clauses": clauses},
                    {**{"in%d" % i: b for i, b in enumerate(e["_files"])}, "output": e["_o"]}, [TOOL[kind], "in0", "in1", "..."])
    return evs


def near_half(rng, n):
    """A part of n whose percentage lies closest to half-way between two printed ones, below or above."""
    return min(n, (2 * rng.randrange(10000) + 1) * n // 20000 + rng.randint(0, 1))


def missed(rng, n):
    return rng.choice((0, n, rng.randint(0, n), near_half(rng, n)))


def count(rng):
    k = rng.random()
    return rng.randint(0, 3) if k < 0.3 else rng.randint(0, 200) if k < 0.6 else rng.randint(0, 10 ** rng.randint(3, 12)) if k < 0.92 else rng.choice((99999999, 100000000, 999999999, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** rng.randint(6, 33) - rng.randint(0, 1)))
