"""C19, C24: runs of wordfreq."""
import os
import gen, parse, uni
from gen import cps
from parse import need, Bad, Lines, N

# characters of each word break class that reach the segmentation (a text has no CR; NEL is the only Newline)
CLASS = {"Other": "!\u4e00\u3042\U0001F600\u0e01\x01\u200b-", "LF": "\n", "Newline": "\u0085", "Extend": "\u0301\u200d\u0903\U000E0100", "Regional_Indicator": "\U0001F1E6\U0001F1FA",
         "Format": "\u00ad\u200e\u2060\U000E0001", "Katakana": "\u30ab\u30ab\uff76\u30fc", "Hebrew_Letter": "\u05d0\ufb21", "ALetter": "abz\u00e9\u0416\U00010400\u1d00",
         "Single_Quote": "'", "Double_Quote": '"', "MidNumLet": ".\u2019\u2024", "MidLetter": ":\u00b7\u0387", "MidNum": ",;\u066c", "Numeric": "0179\u0661\U0001D7D8",
         "ExtendNumLet": "_\u203f"}


def event(c, case):
    """case: texts of the files"""
    d = c.dir()
    names = ["f%d" % i for i in range(len(case))]
    for n, t in zip(names, case):
        gen.write(os.path.join(d, n), t)
    r = c.run("wordfreq", names, d, timeout=60)
    e = {"st": "ok", "files": [cps(t) for t in case], "alpha": [], "freq": [], "total1": 0, "total2": 0, "_case": case, "_out": r.out}
    if r.timeout or r.rc != 0:
        e["st"] = "tool-failed"
        return e
    try:
        L = Lines(r.out)
        for f, t in (("alpha", "total1"), ("freq", "total2")):
            L.exact(b"   Count")
            while True:
                n, w = L.match(N + rb"   (.+)")
                if w == b"Total":
                    e[t] = int(n)
                    break
                e[f].append([list(w), int(n)])
            if f == "alpha":
                L.exact(b""); L.exact(b"")
        need(not L.more(), "end")
    except Bad as x:
        e["st"] = "layout"; e["_why"] = str(x)
    return e


def tables(part):
    groups = set()
    for e in part:
        for t in e["files"]:
            line = []
            for q in t + [10]:
                if q == 10:
                    groups.add(frozenset(line))
                    line = []
                else:
                    line.append(q)
    return uni.tables({32, 10, 126, 94}, groups)


def check(c, cs, what):
    ev = c.pmap(lambda k: event(c, k), cs)
    for e, clauses in c.judge("TraceWords", ev, what, tables=tables):
        if len(c.violations) < 5 and not c.judge("TraceWords", [event(c, e["_case"])], "re-runs", tables=tables):
            continue
        c.violation("wordfreq: %s for %r" % ("+".join(clauses), [t[:120] for t in e["_case"]][:6]), {"why": e.get("_why")},
                    {**{"f%d" % i: t.encode("utf8", "surrogatepass") for i, t in enumerate(e["_case"])}, "output": e["_out"]}, ["wordfreq", "f0..."])
    return ev


def sequence(rng, classes):
    return "".join(rng.choice(CLASS[k]) for k in classes)
