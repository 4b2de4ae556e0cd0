"""C01: optimal alignment of two texts."""
import os
import gen, parse
from gen import cps


def event(c, case):
    a, b, opts = case
    d = c.dir()
    gen.write(os.path.join(d, "A"), a); gen.write(os.path.join(d, "B"), b)
    r = c.run("synctext", [*opts, "A", "B"], d)
    e = {"a": cps(a), "b": cps(b), "ci": "-i" in opts, "st": "ok", "segs": [], "_case": case, "_out": r.out}
    if r.timeout or r.rc != 0:
        e["st"] = "tool-failed"
    else:
        try:
            e["segs"] = [{"m": m, "a": cps(s[0]), "b": cps(s[1])} for m, s in parse.sync(r.out, ["A", "B"])]
        except (parse.Bad, UnicodeDecodeError):
            e["st"] = "layout"
    return e


def cases(c):
    rng = c.rng
    out = []
    for al, n in (("ab", 4 if c.quick else 5), ("a~", 3), ("ab~", 2 if c.quick else 3), ("a \n", 3)):
        ss = list(gen.strings(al, n))
        out += [(x, y, []) for x in ss for y in ss]
    if c.quick:      # the rest of the exhaustive families is sampled
        keep = [k for k in out if len(k[0]) <= 2 and len(k[1]) <= 2]
        rest = [k for k in out if not (len(k[0]) <= 2 and len(k[1]) <= 2)]
        out = keep + rng.sample(rest, 1800)
    n = 1500 if c.quick else 12000
    for i in range(n):
        al = rng.choice(("ab", "abc", "abcdefgh", "ab~", "abc~^", "ab \n", "abcdefghijklmnopqrstuvwxyz   \n", "ABab", "a\u00e9\u4e00\U0001F600", "ab~ \n^\t", gen.ALIKE))
        hi = rng.choice((6, 12, 25, 60)) if rng.random() < 0.93 else 200
        x, y = gen.pair(rng, al, hi)
        out.append((x, y, ["-i"] if al == "ABab" and rng.random() < 0.7 else []))
    # periodic texts and texts of very different length stress the diagonal bounds
    for i in range(100 if c.quick else 600):
        u = gen.rand_string(rng, "ab", 1, 4)
        x = u * rng.randint(0, 20)
        y = gen.mutate(rng, u * rng.randint(0, 20), "abc", 0.1)
        out.append((x, y, []) if i % 2 else (y, x, []))
    # a long text: the differences are characters that occur nowhere else, so the bag bound is exact
    for i in range(1 if c.quick else 4):
        s = gen.rand_string(rng, "abcdefgh", 66500, 67500)
        y = list(s)
        for k in range(rng.randint(3, 12)):
            q = rng.randrange(len(y)); y.insert(q, "xyz"[k % 3])
        x, y = s, "".join(y)
        out.append((x, y, []) if i % 2 else (y, x, []))
    # many differences: substitutions by such characters, insertions of them
    for n, k in (((1300, 1250), (6000, 1500)) if c.quick else ((1300, 1250), (3000, 2500), (6000, 1500), (20000, 3000))):
        s = gen.rand_string(rng, "abcdefgh", n, n)
        y = list(s)
        for q in rng.sample(range(n), k):
            y[q] = "xyz"[q % 3] * rng.choice((1, 1, 2))
        out += [(s, "".join(y), []), ("".join(y), s, [])]
    # a block that is at the end of one and at the beginning of the other
    for i in range(24 if c.quick else 200):
        u, n = rng.randint(1, 60), rng.randint(100, 330)
        s = gen.rand_string(rng, rng.choice(("abcdefghij", "ab", "abc")), n, n)
        x, y = gen.rand_string(rng, "xyz", u, u), gen.rand_string(rng, "uvw", 0, 60)
        out += [(x + s, s + y, []), (s + y, gen.mutate(rng, x + s, "abx", 0.05), [])]
    out += [("a" * 1400, "b" * 1700, []), ("a" * 1800, "b" * 1100 + "a" * 3, [])]
    return out


def body(c):
    c.build()
    c.model("FastUkk", what="the diagonal algorithm terminates with a valid alignment of least cost, for all texts within the constants")
    if not c.quick:
        c.model("FastUkk", "FastUkkThorough", what="same, longer texts", timeout=1500)
    cs = cases(c)
    ev = c.pmap(lambda k: event(c, k), cs)
    for e, clauses in c.judge("TraceAlign", ev, "synctext runs"):
        again = event(c, e["_case"])
        rej = c.judge("TraceAlign", [again], "re-runs") if len(c.violations) < 5 else [1]
        if rej:
            a, b, o = e["_case"]
            c.violation("synctext %s: %s for texts %r %r" % (" ".join(o), "+".join(clauses), a[:80], b[:80]),
                        {"clauses": clauses, "segs": e["segs"][:50]},
                        {"A": a.encode(), "B": b.encode(), "output": e["_out"]}, ["synctext", *o, "A", "B"])
    c.sample(lambda: {"texts": cs[50][:2], "alignment": ev[50]["segs"]})
    c.sample(lambda: {"texts": cs[-3][:2]})
