"""C20, C21: runs of wordacc."""
import os
import gen, parse, words
from gen import cps


def event(c, case):
    """case: dict(a, b, or numbers, or ranges, or runs and gap; S=None or text, to="out" or "file", opts position)"""
    d = c.dir()
    long = "numbers" in case or "ranges" in case
    if "ranges" in case:
        a, b = ("".join("w%d%s" % (x, " " if x % 9 else "\n") for x in range(lo, hi + 1)) for lo, hi in case["ranges"])
    elif long:
        a, b = ("".join("w%d%s" % (x, " " if i % 9 else "\n") for i, x in enumerate(t)) for t in case["numbers"])
    elif "runs" in case:
        a, b = ("".join((w + case["gap"]) * n for w, n, ok in case["runs"] if ok or all) for all in (True, False))
    else:
        a, b = case["a"], case["b"]
    gen.write(os.path.join(d, "a"), a); gen.write(os.path.join(d, "b"), b)
    args = ["a", "b"]
    if case.get("to") == "file":
        args.append("out")
    if case.get("S") is not None:
        gen.write(os.path.join(d, "S"), case["S"])
        args[case.get("at", 0):case.get("at", 0)] = ["-S", "S"] if case.get("at", 0) % 2 else ["-SS"]
    r = c.run("wordacc", args, d, timeout=120)
    e = {"k": "report", "st": "ok", "a": [], "b": [], "S": {"use": case.get("S") is not None, "raw": cps(case.get("S") or "")}, "r": {}, "_case": case, "_out": r.out,
         "_cmd": ["wordacc", *args], "_files": {"a": a.encode(), "b": b.encode(), **({"S": case["S"].encode()} if case.get("S") is not None else {})}}
    if long:
        e["k"] = "long" if "numbers" in case else "range"
        e["a"], e["b"] = case["numbers"] if "numbers" in case else case["ranges"]
    elif "runs" in case:
        e["k"] = "runs"
        e["a"] = [[cps(w), n, ok] for w, n, ok in case["runs"]]
    else:
        e["a"], e["b"] = cps(a), cps(b)
    if not r.timeout and r.rc == 1 and r.out == b"" and r.err.count(b"\n") == 1:
        e["st"] = "refused"
        return e
    if r.timeout or r.rc != 0:
        e["st"] = "tool-failed"; e["_why"] = "rc %s %r" % (r.rc, r.err[:200])
        return e
    out = r.out
    if case.get("to") == "file":
        if out:
            e["st"] = "output-in-two-places"
            return e
        out = e["_out"] = open(os.path.join(d, "out"), "rb").read()
    try:
        e["r"] = parse.wac(out)
    except parse.Bad as x:
        e["st"] = "layout"; e["_why"] = str(x)
    if long and e["r"]:
        e["r"] = {k: e["r"][k] for k in ("words", "missed")}
    return e


def tables(part):
    return words.tables([{"files": ([e["a"], e["b"]] if e["k"] == "report" else [w for w, n, ok in e["a"]] if e["k"] == "runs" else []) + [e["S"]["raw"]]} for e in part])


def check(c, cs, what):
    ev = c.pmap(lambda k: event(c, k), cs)
    for e, clauses in c.judge("TraceWordacc", ev, what, tables=tables):
        if len(c.violations) < 5 and not c.judge("TraceWordacc", [event(c, e["_case"])], "re-runs", tables=tables):
            continue
        c.violation("wordacc: %s for %r / %r%s" % ("+".join(clauses), e["_files"]["a"][:100], e["_files"]["b"][:100], " with a stopword file" if e["S"]["use"] else ""),
                    {"why": e.get("_why")}, {**e["_files"], "output": e["_out"]}, e["_cmd"])
    return ev
