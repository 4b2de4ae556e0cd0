"""C28: command lines are interpreted by one uniform grammar."""
import os, re
import core, gen
from core import VERIF

TECHNIQUE = "TLA+ scanner of command lines, model-checked with TLC; its behaviours (command lines) replayed into every tool, outcomes validated by TLC"

A = "The quick brown fox\njumps over the lazy dog\nthe end of it all\n"
B = "The quikc brown f^0x\njumps the lazy dog the\nend over of it all\n"
M = "the Quick brown fox\njumbs over lazy the dog\nthe end ofit all\n"
TEXT = ("synctext vote ngram wordacc editop accuracy wordfreq").split()
MAKER = {"accsum": "accuracy", "accci": "accuracy", "accdist": "accuracy", "groupacc": "accuracy", "editopsum": "editop", "editopcost": "editop",
         "wordaccsum": "wordacc", "wordaccci": "wordacc", "wordaccdist": "wordacc", "nonstopacc": "wordacc"}


def contents(c):
    """Per tool the files a, b, - and S of its directory."""
    d = c.dir()
    texts = {"a": A, "b": B, "-": M}
    for n, t in texts.items():
        open(os.path.join(d, "t" + n), "w").write(t)
    out = {}
    for t in core.TOOLS:
        if t in TEXT:
            # a stop list (any file may be given as one) names each word once
            once = lambda x: re.sub(r"\S+", lambda m, seen=set(): "" if m[0].lower() in seen else (seen.add(m[0].lower()), m[0])[1], x)
            out[t] = {n: (once(x) if t == "wordacc" else x).encode() for n, x in texts.items()}
        else:
            out[t] = {}
            for n, (x, y) in {"a": ("ta", "tb"), "b": ("tb", "t-"), "-": ("ta", "t-")}.items():
                r = c.run(MAKER[t], [x, y], d)
                if r.rc != 0:
                    c.violation("%s fails on good texts" % MAKER[t], {"rc": r.rc, "stderr": repr(r.err)}, {"a": texts[x[1]].encode(), "b": texts[y[1]].encode()}, [MAKER[t], "a", "b"])
                    raise core.CheckError("no report from %s: %s" % (MAKER[t], r.err))
                out[t][n] = r.out
        out[t]["S"] = b"lazy fox end"
    return out


def attempt(c, tool, args, make=None):
    d = c.dir()
    for n, x in [*FILES[tool].items()] + [(make, FILES[tool]["a"])] * (make is not None and make not in FILES[tool]):
        with open(os.path.join(os.fsencode(d), n.encode("latin1")), "wb") as f:
            f.write(x)
    r = c.run(tool, [a.encode("latin1") for a in args], d)
    after = {}
    for n in os.listdir(d):
        p = os.path.join(d, n)
        after[os.fsencode(n).decode("latin1")] = open(p, "rb").read() if os.path.isfile(p) else b"(directory)"
        os.unlink(p)
    os.rmdir(d)
    return r, after


def lines(b):
    return [list(x) for x in b.decode("latin1").encode("latin1").split(b"\n")[:-1]] if b.endswith(b"\n") else [list(x) for x in b.split(b"\n") if x] + ([[]] if b else [])


def s(bs):
    return bytes(bs).decode("latin1")


def observed(tool, args, r, after, make=None):
    before = {**FILES[tool], **({make: FILES[tool]["a"]} if make is not None and make not in FILES[tool] else {})}
    return {"tool": tool, "name": list(tool.encode()), "args": args, "exists": [list(n.encode("latin1")) for n in sorted(before)],
            "rc": r.rc, "err": lines(r.err), "nout": len(r.out),
            "changed": [list(n.encode("latin1")) for n in sorted(set(before) | set(after)) if before.get(n) != after.get(n)],
            "there": [list(n.encode("latin1")) for n in sorted(after)]}


def event(c, h):
    if h["k"] == "repeat":
        r, after = attempt(c, h["tool"], ["a"] * h["n"])
        num = lambda x: sum(int(v) for v in re.findall(rb"^ *(\d+)", x.split(b"Total")[0] if b"Total" in x else x, re.M)[:1])
        one = attempt(c, h["tool"], ["a"])[0] if h["count"] else None
        return {"k": "repeat", "tool": h["tool"], "name": list(h["tool"].encode()), "n": h["n"], "rc": r.rc, "err": lines(r.err), "nout": len(r.out),
                "one": num(one.out) if one else 0, "total": num(r.out) if one else 0, "_h": h}
    if h["k"] == "effect":
        out = []
        for a in h["requests"]:
            r, after = attempt(c, h["tool"], a)
            out.append("%d %s %s" % (r.rc, r.out.decode("latin1"), sorted((n, x.decode("latin1")) for n, x in after.items())))
        # equal outcomes get equal numbers
        return {"k": "effect", "tool": h["tool"], "outcomes": [out.index(o) for o in out], "_h": h}
    tool, args = h["tool"], [s(a) for a in h["args"]]
    make = s(h["make"]) if "make" in h else None
    r, after = attempt(c, tool, args, make)
    e = {"k": "line", **observed(tool, h["args"], r, after, make), "canon": h["canon"], "same": True, "_h": h}
    if h["res"] == "run":
        q, after2 = attempt(c, tool, [s(a) for a in h["canon"]], make)
        e["same"] = (r.rc, r.out, r.err, after) == (q.rc, q.out, q.err, after2)
    return e


EFFECTS = {"synctext": [["a", "b"], ["-H", "a", "b"], ["-i", "a", "b"], ["-s", "a", "b"], ["-T", "a", "b"]],
           "vote": [["a", "b", "-"], ["a", "b", "-", "-o", "v"], ["-s", "9/9", "a", "b", "-"]],
           "ngram": [["a"], ["-n", "2", "a"], ["-n", "3", "a"]],
           "wordacc": [["a", "b"], ["-S", "S", "a", "b"], ["a", "b", "v"]],
           "accuracy": [["a", "b"], ["a", "b", "v"]], "editop": [["a", "b"], ["a", "b", "v"]], "groupacc": [["a", "b"], ["a", "b", "v"]]}


def cases(c):
    seen, out = set(), []

    def add(hs, limit=None):
        hs = [h for h in hs if (h["tool"], str(h["args"])) not in seen]
        if limit and len(hs) > limit and all(h["res"] != "run" for h in hs):
            hs = c.rng.sample(hs, limit)
        if limit and len(hs) > limit:
            keep = [h for h in hs if h["res"] == "run"]
            rest = [h for h in hs if h["res"] != "run"]
            c.rng.shuffle(keep)
            c.rng.shuffle(rest)
            hs = keep[: limit // 2] + rest[: limit // 2]
        for h in hs:
            seen.add((h["tool"], str(h["args"])))
            out.append({"k": "line", **h})
    add(c.histories("MCCli", "GenCli" if c.quick else "GenCliThorough"))
    add(c.histories("MCCli", "GenCliLong", simulate=3000 if c.quick else 60000, depth=15), 1200 if c.quick else 20000)
    hs = c.histories("MCOptionValues", "GenOptionValues" if c.quick else "GenOptionValuesThorough")
    add([h for h in hs if h["res"] != "run" and any(re.search(r"[1-9]/[1-9]", s(a)) for a in h["args"])], 500 if c.quick else None)      # hardly wrong
    add(hs, 900 if c.quick else None)
    add(c.histories("MCOddArguments", "GenOddArguments"), 2000 if c.quick else None)
    for t in EFFECTS:
        out.append({"k": "effect", "tool": t, "requests": EFFECTS[t]})
    for t in core.TOOLS:
        for n in (1, 2, 3, 4, 15, 16, 17, 40):
            out.append({"k": "repeat", "tool": t, "n": n, "count": t == "wordfreq"})
    for t in ("wordfreq", "ngram", "accsum", "wordaccsum", "editopsum", "accuracy", "vote", "wordacc"):
        out.append({"k": "repeat", "tool": t, "n": 33000, "count": t == "wordfreq"})
    return out


def body(c):
    global FILES
    c.build()
    c.timeout = 60
    FILES = contents(c)
    c.model("MCCli", what="the scanner loses no argument, ends, and gives the same request wherever the options stand")
    ev = c.pmap(lambda h: event(c, h), cases(c))
    for e, clauses in c.judge("TraceCli", ev, "command lines"):
        if len(c.violations) < 5 and not c.judge("TraceCli", [event(c, e["_h"])], "re-runs"):
            continue
        h = e["_h"]
        what = " ".join([h["tool"]] + (["'%s'" % s(a) for a in h["args"]] if h["k"] == "line" else [str(h.get("n", h.get("requests")))]))
        c.violation("%s: %s" % (what, "+".join(clauses)), {"case": h, "observed": e}, {"command": what}, None)
    c.sample(lambda: {"tool": ev[700]["tool"], "args": [s(a) for a in ev[700]["args"]], "rc": ev[700]["rc"]})
