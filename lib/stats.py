"""Shared by C10, C11, C18, C22: run a tool on generated reports and record what it computed."""
import os, re
import gen, parse, render, sums
from parse import nat, big, bpct, pct, need, Bad


def acc_report(rng, n, m):
    """An accuracy report of n characters with m errors (m may exceed n)."""
    chars = {}
    left = n
    for q in (97, 32, 233):
        v = left if q == 233 else rng.randint(0, left)
        if v:
            chars[q] = (v, rng.randint(0, v))
        left -= v
    a = rng.randint(0, m)
    ops = ((a, 0, 0), (0, m - a, 0))
    conf = {b"{a}-{b}": (m, a)} if m else {}
    return render.acc(chars, conf, ops, rng.randint(0, 5), 0, 0)


def wac_report(rng, n, m):
    """A word accuracy report of n words with m <= n misrecognized."""
    a = rng.randint(0, n)
    x = rng.randint(max(0, m - (n - a)), min(a, m))
    stop = {b"the": (a, x)} if a else {}
    non = {b"cat": (n - a, m - x)} if n - a else {}
    return render.wac(stop, non, {11: (1, 0)} if non else {}, {1: (n, m)} if n else {}, len)


def observations(rng, missed_le, size=None):
    """Lists of (count, missed) that exercise boundaries."""
    n = rng.choice((2, 2, 3, 4, 6, 9)) if size is None else size
    kind = rng.random()
    o = []
    for _ in range(n):
        k = rng.random()
        if k < 0.12:
            c = 0
        elif kind < 0.35:
            c = rng.choice((1, 2, 4, 5, 10, 20, 25, 50, 100, 200, 1000))
        elif kind < 0.7:
            c = rng.randint(1, 300)
        elif kind < 0.9:
            c = rng.randint(1, 30000)
        else:
            c = rng.randint(1, 10 ** rng.choice((9, 9, 10, 11)))
        j = rng.random()
        if c == 0:
            m = 0 if missed_le or j < 0.5 else rng.randint(1, 30)
        elif j < 0.4:
            m = rng.randint(0, c)
        elif j < 0.6:
            m = c * rng.randint(0, 100) // 100      # close to, or on, a whole percent
            if rng.random() < 0.4:
                m = min(c, m + 1)
        elif j < 0.7:
            m = c
        elif j < 0.8:
            m = 0
        elif j < 0.9 or missed_le:
            m = rng.randint(0, max(0, c // 20))
        else:
            m = c + (rng.randint(1, 3 * c) if rng.random() < 0.6 else max(1, c // rng.choice((20, 90, 101, 110, 200, 1000))))
        o.append((c, m))
    return o


def xy(out, width):
    """Lines 'i value' of a distribution or accuracy curve."""
    r = []
    for line in parse.lines(out):
        m = re.fullmatch(rb"( *\d+) +(-?\d+\.\d\d)", line)
        need(m, "line")
        r.append([int(m.group(1)), bpct(pct(m.group(2)))])
    return r


def finish(c, ev, again, label):
    for e, clauses in c.judge("TraceStats", ev, label):
        if len(c.violations) < 5 and not c.judge("TraceStats", [again(e["_case"])], "re-runs"):
            continue
        c.violation("%s: %s (%s)" % (e["_label"], "+".join(clauses), e.get("_why", "")), {"clauses": clauses, "rc": e.get("_rc")},
                    {**e["_files"], "output": e["_out"]}, e["_cmd"])
