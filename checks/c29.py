"""C29: chains of tools are consistent and repeatable over a shared workspace."""
import hashlib, os, re
import core, gen

TECHNIQUE = "TLA+ specification of a directory of files and the tools at work on it, model-checked with TLC; sampled behaviours replayed into the real tools, the histories validated by TLC"

ATOMS = ["the", "The", "quick", "fox", "jumps", "over", "1,234", "x^", "na\u00efve", "\u00d8re", "\u4e2d", "end.", "a-b", "(c)", "~", "e\u0301", "{", "dog", "a", "I"]


def text(rng, base=None):
    if base is None or rng.random() < 0.2:
        n = rng.choice((1, 5, 20, 60, 200))
        return "".join(rng.choice(ATOMS) + rng.choice(" " * 5 + "\n") for _ in range(n))
    out = []
    for ch in base:
        k = rng.random()
        if k < 0.03:
            continue
        if k < 0.06:
            out.append(rng.choice("aeo tx^~\u00e9"))
            continue
        out.append(ch)
    w = "".join(out)
    if rng.random() < 0.5:
        cut = rng.randrange(len(w) + 1)
        w = w[cut:] + w[:cut]
    return w


LINKS = ["with a blank", "%s%d%n", "\u00e9\u4e2d", "-", "a.b.c", "x" * 200, "'q\"", "#1", "tab\there"]


def spelled(rng, d, n):
    """Another way of naming the same file."""
    k = rng.randrange(14)
    if k < 5:
        return n
    if k == 5:
        return os.path.join(d, n)
    if k == 6:
        return "./" * rng.choice((20, 130, 500, 1900)) + n
    if k == 7:
        return "sub/../" * rng.choice((1, 20, 40, 500)) + n
    if k < 12:
        return "links/" + rng.choice(LINKS) + "/" + n        # links to the directory
    return rng.choice(("./", "sub/../", "sub//..///")) + n


def event(c, case):
    texts, steps, seed = case
    import random
    rng = random.Random(seed)
    d = c.dir()
    os.mkdir(os.path.join(d, "sub"))
    os.mkdir(os.path.join(d, "links"))
    for l in LINKS:
        os.symlink("..", os.path.join(d, "links", l))
    names = sorted({"a", "b", "c", "p", "q", "r", "s"})

    def snap():
        out = {}
        for n in names:
            p = os.path.join(d, n)
            out[n] = hashlib.sha256(open(p, "rb").read()).hexdigest() if os.path.exists(p) else ""
        return out
    for n, t in zip("abc", texts):
        open(os.path.join(d, n), "w", encoding="utf8").write(t)
    before = snap()
    log = []
    for s in steps:
        if not all(os.path.exists(os.path.join(d, n)) for n in s["ins"]):
            continue        # would rest on a refused run
        ins = [spelled(rng, d, n) for n in s["ins"]]
        labels = ins
        args = list(ins)
        opts = [s["opts"]] if s["opts"] else []
        tool = s["tool"]
        if s["how"] == "named":
            out = spelled(rng, d, s["out"])
            opts += ["-o", out] if tool == "vote" else []
            args += [out] if tool != "vote" else []
        k = rng.randrange(3)
        args = opts + args if k == 0 else args + opts if k == 1 else args[:1] + opts + args[1:]
        sizes = []
        for n in s["ins"]:
            m = re.search(rb"^ *(\d+) ", open(os.path.join(d, n), "rb").read(), re.M)
            sizes.append(int(m[1]) if m and tool.endswith("ci") else 0)
        r = c.run(tool, args, d, env={"OMP_NUM_THREADS": str(rng.randrange(9)), "LC_ALL": rng.choice(("C", "C.UTF-8", "de_DE.UTF-8")), "TZ": rng.choice(("UTC", "Asia/Tokyo"))})
        printed = len(r.out)
        if s["how"] == "stdout":
            if s["out"] and r.rc == 0:
                open(os.path.join(d, s["out"]), "wb").write(r.out)
            result = hashlib.sha256(r.out).hexdigest()
        after = snap()
        if s["how"] == "named":
            result = after[s["out"]]
        extra = sorted(set(os.listdir(d)) - set(names) - {"sub", "links"}) + os.listdir(os.path.join(d, "sub")) + sorted(set(os.listdir(os.path.join(d, "links"))) - set(LINKS))
        log.append({**s, "labels": labels, "sizes": sizes, "rc": r.rc, "nerr": len(r.err) + 1000 * len(extra), "printed": printed, "result": result, "after": after, "_args": args})
    return {"st": "ok", "before": before, "steps": log, "_case": case}


def number(events):
    ids = {"": 0}
    for e in events:
        f = lambda h: ids.setdefault(h, len(ids))
        e["before"] = {n: f(h) for n, h in e["before"].items()}
        for s in e["steps"]:
            s["result"] = f(s["result"])
            s["after"] = {n: f(h) for n, h in s["after"].items()}
            s.pop("_args", None)
    return events


def cases(c):
    rng = c.rng
    hs = c.histories("MCWorkbench", "GenWorkbench", simulate=700 if c.quick else 4000, depth=16, timeout=600)
    last = {str(h[:-1]): h for h in hs}        # TLC prints the histories that differ in the last run, too
    hs = list(last.values())
    base = [text(rng) for _ in range(1 + len(hs) // 40)]
    out = []
    for i, h in enumerate(hs):
        b = base[i % len(base)]
        r = rng.random()
        t = [b, text(rng, b), text(rng, b)]
        if r < 0.15:
            t[rng.randrange(3)] = ""
        elif r < 0.3:
            t[1] = t[0]
        out.append((tuple(t), tuple(h), rng.randrange(1 << 30)))
    # a history up to a sum, then the same reports many times over: at once, and as a sum of two equal sums
    some = 0
    for t, h, s in rng.sample(out, len(out)):
        k = max([i for i, x in enumerate(h) if x["tool"] in ("accsum", "wordaccsum", "editopsum")] or [0])
        if not k or some == (24 if c.quick else 200):
            continue
        some += 1
        x, n = h[k], rng.choice((16, 60, 110, 300, 600))
        free = rng.choice([q for q in "pqrs" if q not in x["ins"]])
        more = ({**x, "ins": x["ins"] * n, "how": "stdout", "out": free}, {**x, "ins": rng.sample(x["ins"] * 2 * n, len(x["ins"]) * 2 * n), "how": "stdout", "out": ""},
                {**x, "ins": [free, free], "how": "stdout", "out": ""})
        out.append((t, h[:k] + more[: 3], s + 2))
    # the same histories with permuted texts share contents between histories
    out += [((t[1], t[0], t[2]), h, s + 1) for t, h, s in out[: len(out) // 4]]
    return out


def body(c):
    c.build()
    c.timeout = 60
    c.model("MCWorkbench", what="only the output changes, results are functions of what is read, sums of sums are sums")
    if not c.quick:
        c.model("MCWorkbench", "MCWorkbenchThorough", what="same, 5 steps")
    ev = number(c.pmap(lambda k: event(c, k), cases(c)))
    ev.sort(key=lambda e: str(e["_case"][0]))
    k = 8
    chunk = (len(ev) + k - 1) // k
    inter = [ev[i * chunk + j] for j in range(chunk) for i in range(k) if i * chunk + j < len(ev)]     # histories with the same texts in one shard
    for e, clauses in c.judge("TraceWorkbench", inter, "histories of runs", shards=k):
        s = [(x["tool"], x["opts"], x["ins"], x["how"], x["out"], x["rc"]) for x in e["steps"]]
        c.violation("history of %d runs: %s" % (len(s), "+".join(clauses)), {"case": e["_case"], "steps": s}, {"steps": "\n".join(map(str, s))}, None)
    c.sample(lambda: {"history": [(x["tool"], x["ins"], x["how"], x["out"]) for x in ev[3]["steps"]]})
