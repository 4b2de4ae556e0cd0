"""C02 and C03: accuracy and synctext on the same pair of texts."""
import os
import gen, parse, uni
from gen import cps

ODD_DISPLAY = "{}="


def renamed(*texts):
    """The texts with every character whose display is ambiguous in synctext output replaced, one to one, by an
    ordinary one: an alignment depends only on which characters are equal. Blanks, ^ and ~ stay."""
    used = set().union(*texts)
    fresh = (chr(q) for q in range(0x4E00, 0x9FFF) if chr(q) not in used)
    from c04 import BLANKS
    tr = {}
    for ch in sorted(used):
        if (uni.kind(ord(ch)) != 1 and ord(ch) != 10 and ord(ch) not in BLANKS) or ch in ODD_DISPLAY:
            tr[ord(ch)] = next(fresh)
    return tuple(t.translate(tr) for t in texts)


def event(c, case, only):
    a, b = case
    d = c.dir()
    gen.write(os.path.join(d, "A"), a); gen.write(os.path.join(d, "B"), b)
    r = c.run("accuracy", ["A", "B"], d)
    e = {"a": cps(a), "b": cps(b), "st": "ok", "segs": [], "rep": {}, "only": only, "_case": case, "_out": r.out}
    if r.rc != 0:
        e["st"] = "tool-failed"
        return e
    try:
        e["rep"] = parse.acc(r.out)
    except (parse.Bad, UnicodeDecodeError) as x:
        e["st"] = "layout"
        e["_why"] = str(x)
        return e
    x, y = renamed(a, b)
    gen.write(os.path.join(d, "A"), x); gen.write(os.path.join(d, "B"), y)
    s = c.run("synctext", ["A", "B"], d)
    try:
        e["segs"] = [[m, len(t[0]), len(t[1])] for m, t in parse.sync(s.out, ["A", "B"])] if s.rc == 0 else []
        if s.rc != 0:
            e["st"] = "synctext-failed"
    except (parse.Bad, UnicodeDecodeError) as x:
        e["st"] = "synctext-layout"
    return e


def tables(part):
    S = {32, 10, 126, 94}
    for e in part:
        S.update(e["a"], e["b"])
    return {"chars": [[q, uni.lower(q), uni.kind(q), 0, 0, 0, [q]] for q in sorted(S)], "comp": []}


def check(c, only, cs, what):
    ev = c.pmap(lambda k: event(c, k, only), cs)
    for e, clauses in c.judge("TraceAccount", ev, what, tables=tables):
        if len(c.violations) < 5 and not c.judge("TraceAccount", [event(c, e["_case"], only)], "re-runs", tables=tables):
            continue
        a, b = e["_case"]
        c.violation("accuracy: %s for texts %r %r" % ("+".join(clauses), a[:80], b[:80]),
                    {"clauses": clauses, "segs": e["segs"][:60], "why": e.get("_why")},
                    {"A": a.encode("utf8"), "B": b.encode("utf8"), "report": e["_out"]}, ["accuracy", "A", "B"])
    return ev
