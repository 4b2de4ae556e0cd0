"""C06: a run succeeds completely or fails visibly, and never damages its inputs."""
import os, random, resource, signal, subprocess, time
import core, gen
from reading import TITLE, DIV
from core import VERIF

TECHNIQUE = "TLA+ state machine of a run under faults, model-checked with TLC; its fault scenarios injected into the real tools, outcomes validated by TLC"

A = "The quick brown fox\njumps over the lazy dog.\nThe end of it, all 12 of it\n\u4e2d\u6587 na\u00efve ~ x^\n"
B = "The quikc brown f^ox\njumps the lazy dog.\nthe end over of it 12 all\n\u4e2d na\u00efve\n"
STOP = "the of over it"
PLANS = {"accuracy": "tt", "editop": "tt", "wordacc": "tts", "groupacc": "ta", "nonstopacc": "tw", "synctext": "tt", "vote": "ttt", "ngram": "tt", "wordfreq": "tt",
         "accsum": "aa", "accci": "aa", "accdist": "aa", "wordaccsum": "ww", "wordaccci": "ww", "wordaccdist": "ww", "editopsum": "ee", "editopcost": "ee"}
MANY = {"accsum", "accci", "accdist", "wordaccsum", "wordaccci", "wordaccdist", "editopsum", "ngram", "wordfreq"}       # that take any number of inputs
NAMED = {"accuracy", "editop", "wordacc", "groupacc", "vote"}
NOTUTF8 = [b"\xff", b"ab\xc3", b"\x80", b"a\xc3(", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe4\xb8", b"\xf8\x88\x80\x80\x80", b"ok \xe2\x28\xa1 more\n"]


def materials(c):
    """Good contents of each kind, made by the tools."""
    d = c.dir()
    gen.write(os.path.join(d, "x"), A.encode()); gen.write(os.path.join(d, "y"), B.encode())
    m = {"t": [A.encode(), B.encode(), "x".encode(), A.encode() * 3], "s": [STOP.encode(), b"fox\ndog"]}
    for k, t in (("a", "accuracy"), ("w", "wordacc"), ("e", "editop")):
        m[k] = []
        for p in (("x", "y"), ("y", "x"), ("x", "x")):
            r = c.run(t, list(p), d)
            if r.rc != 0:
                c.violation("%s fails on good texts" % t, {"rc": r.rc, "stderr": repr(r.err)}, {"x": A.encode(), "y": B.encode()}, [t, *p])
                raise core.CheckError("no report from %s: %s" % (t, r.err))
            m[k].append(r.out)
    return m


def damage(rng, kind, cond):
    """Contents in a condition; None: no file, (): a directory, "": an empty name."""
    good = rng.choice(GOOD[kind])
    if cond == "ok":
        return good
    if cond == "missing":
        return None
    if cond == "directory":
        return ()
    if cond == "noname":
        return ""
    if cond == "notutf8":
        cut = rng.choice([i for i in range(len(good) + 1) if i == len(good) or good[i] & 0xC0 != 0x80])
        tail = good[cut:]
        return good[:cut] + rng.choice(NOTUTF8) + (b" " + tail if rng.random() < 0.5 else b"")
    if cond == "header":
        return TITLE + DIV + b"maker\n" + DIV + good
    if cond == "twice":
        w = rng.choice(good.split())
        return good + b"\n" + rng.choice((w, w.upper()))
    if kind == "t":        # noise
        b = bytearray(good)
        for _ in range(rng.randint(1, 10)):
            b.insert(rng.randrange(len(b) + 1), rng.choice((0, 1, 9, 13, 27, 127, 128, 200, 255, 10, 94, 126)))
        return bytes(b) if rng.random() < 0.7 else bytes(rng.randrange(256) for _ in range(rng.randint(0, 300)))
    lines = good.split(b"\n")
    counts = {"a": (2, 3, 6, 7, 8, 13, 14, 15), "w": (2, 3), "e": (2, 3, 4)}[kind]
    if cond == "otherkind":
        return rng.choice(GOOD[rng.choice([k for k in "awe" if k != kind])] + [b"", b"\n", A.encode(), bytes(rng.randrange(256) for _ in range(200))])
    if cond == "title":
        dot = lines[0].rindex(b".")     # what follows it may be that of another release
        i = rng.randrange(dot + 1)
        major = lines[0].rindex(b" ", 0, dot) + 1
        lines[0] = rng.choice((lines[0][:i] + b"#" + lines[0][i + 1:], lines[0][:i], b" " + lines[0], b"",
                               lines[0][:major] + rng.choice((b"1", b"5", b"6", b"8", b"9", b"70", b"17")) + lines[0][dot:]))
    elif cond == "divider":
        lines[1] = rng.choice((lines[1][:-1], lines[1] + b"-", b"", b"=" * len(lines[1]), lines[1] + b" "))
    elif cond == "nonumber":
        lines[rng.choice(counts)] = rng.choice((b"", b"   x   Characters", b"   -", b"Characters"))
    elif cond == "short":
        lines = lines[:rng.choice(counts)] + [b""]
    elif cond == "range":
        bad = {"a": (b"       5        1    80.00   {<110000>}", b"       5        1    80.00   {<7FFFFFFF>}", b"       5        1    80.00   {<FFFFFFFF>}", b"       1        0   100.00   {\xff}", b"       1        0   100.00   {ab}", b"       1        0   100.00   x"),
               "w": None, "e": (b"       1        0", b"       3        0", b"       1       -3", b"       2  9999999", b"       1  2000000000")}[kind]
        if kind == "a":         # among the characters, which follow the last empty line
            while lines[-1] == b"":
                lines.pop()
            i = len(lines) - 1
            while not lines[i].endswith(b"}"):
                i -= 1
            lines[i] = rng.choice(bad)
            lines.append(b"")
        elif kind == "w":
            i = rng.choice([i for i, x in enumerate(lines) if x.endswith(b"   1")])
            lines[i] = lines[i][:-1] + rng.choice((b"-1", b"1000000", b"99999", b"-2000000000"))
        else:
            moves = [rng.choice(bad)]
            if rng.random() < 0.5:
                moves = [b"       1        2"] * rng.randint(0, 3) + moves + [b"       2        7"]
            lines = lines[:4] + [b"       3   Moves", b"", b"Moves", b"   Count   Length"] + moves + [b""]
    else:                       # noise, after the required lines
        head = {"a": 17, "w": 6, "e": 5}[kind]
        body = lines[head:]
        if rng.random() < 0.4:      # numbers that no report has
            odd = rng.choice((b"-1", b"-9999999", b"-2000000000", b"0", b"99999999999999999999", b"-99999999999999999999", b"4611686018427387904"))
            i = rng.choice(counts)
            lines[i] = b"%s   %s" % (odd, lines[i].split(b"   ")[-1]) if kind != "a" or i < 13 else b" ".join([odd] * 4) + b"   x"
            if rng.random() < 0.5:
                body = body[:rng.randrange(len(body) + 1)]
        for _ in range(rng.randint(1, 4)):
            k = rng.randrange(7)
            i = rng.randrange(len(body) + 1)
            if k == 0:
                body[i:i + 1] = []
            elif k == 1:
                body.insert(i, bytes(rng.randrange(256) for _ in range(rng.randint(0, 60))).replace(b"\n", b""))
            elif k == 2 and i < len(body):
                body[i] = body[i].replace(b"1", b"99999999999999999999")
            elif k == 3 and i < len(body) and body[i]:
                j = rng.randrange(len(body[i]))
                body[i] = body[i][:j] + bytes([rng.randrange(256)]) + body[i][j + 1:]
            elif k == 4:
                body = body[:i]
            elif k == 5 and i < len(body):
                body[i] = body[i] * rng.choice((2, 50, 3000))
            elif body and i < len(body):
                body.append(body[i])
        lines = lines[:head] + body
    return b"\n".join(lines)


SPELLINGS = ("%s", "%s", "./%s", "@/%s", "@//%s", "../@@/%s", "s/../%s", "./././%s", "l%s")
ABSENT = ("%s", "@/%s", "./%s", "none/%s", "f0/%s", "s/%s", "/%s", "l%s", "o%s", "x" * 300 + "%s", "@/none/../%s", "%s/", "x" * 200 + "%s")


def lay(d, contents, spell=None):
    """Writes the inputs; returns their names, spelled as spell tells."""
    names = []
    if spell:
        os.mkdir(os.path.join(d, "s"))
    for i, b in enumerate(contents):
        n = "f%d" % i
        p = os.path.join(d, n)
        if b == ():
            os.mkdir(p)
        elif b is not None and b != "":
            gen.write(p, b)
        if b == "":
            n = ""
        elif spell:
            s = (ABSENT if b is None else SPELLINGS)[spell[i] % len(ABSENT if b is None else SPELLINGS)]
            if s[0] == "l":         # a link, to nothing if the file is missing
                os.symlink(n, os.path.join(d, "l" + n))
            elif s[0] == "o":       # a link to itself
                os.symlink("o" + n, os.path.join(d, "o" + n))
            n = s.replace("@@", os.path.basename(d)).replace("@", d) % (n if s != "/%s" else "no such file " + n)
        names.append(n)
    return names


def snap(d):
    out = {}
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        out[n] = (os.lstat(p).st_mode, open(p, "rb").read() if os.path.isfile(p) else b"")
    return out


def command(tool, names, out=None):
    args = list(names)
    if tool == "wordacc":
        args = ["-S", names[2]] + names[:2]
    if out is not None:
        args += ["-o", out] if tool == "vote" else [out]
    return args


def err(b):
    return [list(x) for x in (b.split(b"\n")[:-1] if b.endswith(b"\n") else b.split(b"\n") if b else [])]


def base_event(k, tool, r, kept, outkept=True, same=True):
    return {"k": k, "tool": tool, "name": list(tool.encode()), "rc": r.rc, "err": err(r.err), "nout": len(r.out), "kept": kept, "outkept": outkept, "same": same}


OLD = b"old contents, longer than anything that is written " * 300


def event(c, case):
    k, tool = case[:2]
    bins = {"asan": c.bin_asan, "plain": c.bin}
    d = c.dir()
    if k == "input":
        _, _, conds, contents, named, which, spell = case        # named: None (standard output), "old" (a file), "new" (no file yet)
        names = lay(d, contents, spell)
        if named == "old":
            gen.write(os.path.join(d, "out"), OLD)
        before = snap(d)
        r = c.run(tool, command(tool, names, "out" if named else None), d, bin=bins[which], timeout=60)
        after = snap(d)
        outkept = after.get("out") == before.get("out")
        before.pop("out", 0), after.pop("out", 0)
        return {**base_event(k, tool, r, before == after, outkept), "conds": list(conds), "_case": case, "_args": command(tool, names)}
    if k == "output":
        _, _, contents, how, out, limit, length, full = case
        names = lay(d, contents)
        before = snap(d)
        path = {"stdout": None, "named": "out"}[how]
        if out == "uncreatable":
            path = limit
        if how == "named" and limit == 0 and out == "limit" and len(full) % 2:
            path = "/dev/full"
        f = None

        def pre():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            if out == "limit" and path != "/dev/full":
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            if out == "closed":
                os.close(1)
        if how == "stdout" and out != "closed":
            f = open("/dev/full" if out == "limit" and limit == 0 else os.path.join(d, "stdout"), "wb")
        r = c.run(tool, command(tool, names, path if how == "named" else None), d, stdout=f, preexec=pre, timeout=60)
        if f:
            f.close()
        after = snap(d)
        got = (after.get("stdout") or after.get("out") or (0, b""))[1]
        after = {n: x for n, x in after.items() if n not in ("out", "stdout")}
        return {**base_event(k, tool, r, before == after, same=got == full), "out": out, "limit": limit if out == "limit" else 0, "length": length, "_case": case}
    if k == "memory":
        _, _, contents, n, once, full = case
        names = lay(d, contents)
        before = snap(d)
        env = {"LD_PRELOAD": c.shim, "FAIL_AT": str(n)}
        if once:
            env["FAIL_ONCE"] = "1"
        r = c.run(tool, command(tool, names), d, env=env, timeout=60)
        return {**base_event(k, tool, r, before == snap(d), same=r.out == full), "_case": case}
    if k == "args":
        _, _, content, n, opt = case
        names = lay(d, [content] * n)
        before = snap(d)
        r = c.run(tool, names + ([opt] if opt else []), d, timeout=60)
        return {**base_event(k, tool, r, before == snap(d)), "n": n, "opt": opt, "_case": case}
    if k == "handles":
        _, _, contents, limit = case
        names = lay(d, contents)
        before = snap(d)
        full = c.run(tool, names, d, timeout=60)
        r = c.run(tool, names, d, preexec=lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (limit, limit)), timeout=60)
        return {**base_event(k, tool, r, before == snap(d), same=r.out == full.out), "_case": case}
    _, _, contents, pos, sig, named = case
    names = lay(d, contents)
    os.unlink(os.path.join(d, "f%d" % pos))
    if named == "old":
        gen.write(os.path.join(d, "out"), OLD)
    before = snap(d)
    fifo = os.path.join(d, "f%d" % pos)
    os.mkfifo(fifo)
    p = subprocess.Popen([os.path.join(c.bin, tool), *command(tool, names, "out" if named else None)], cwd=d, stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=lambda: [signal.signal(s, signal.SIG_DFL) for s in (signal.SIGINT, signal.SIGTERM)])
    fd = None
    for _ in range(3000):
        try:
            fd = os.open(fifo, os.O_WRONLY | os.O_NONBLOCK)
            break
        except OSError:
            if p.poll() is not None:
                break
            time.sleep(0.002)
    if fd is not None:
        if contents[pos]:
            os.write(fd, contents[pos][:20])
        p.send_signal(sig)
    try:
        o, e = p.communicate(timeout=20)
        r = core.Result(p.returncode, o, e, False)
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
        r = core.Result(-999, o, e, True)
    if fd is not None:
        os.close(fd)
    os.unlink(fifo)
    after = snap(d)
    outkept = after.pop("out", 0) == before.pop("out", 0)
    return {**base_event("signal", tool, r, before == after, outkept), "_case": case}


def good(rng, tool):
    return [rng.choice(GOOD[k][:2]) for k in PLANS[tool]]


def undisturbed(c, tool, contents):
    d = c.dir()
    r = c.run(tool, command(tool, lay(d, contents)), d)
    if r.rc != 0:
        c.violation("%s fails on good inputs: %s" % (tool, r.err[:100]), {"rc": r.rc, "err": repr(r.err)}, {"in%d" % i: b for i, b in enumerate(contents)}, [tool])
        raise core.CheckError("%s fails on good inputs: %s" % (tool, r.err))
    return r.out


def cases(c):
    rng = c.rng
    out = []
    for h in c.histories("MCFaults", "GenFaultsThorough"):
        tool, conds = h["tool"], h["conds"]
        n = sum(x != "ok" for x in conds)
        noisy = "noise" in conds
        for _ in range((3 if n < 2 else 1) * (6 if noisy and n < 2 else 1) * (1 if c.quick else 12)):
            contents = tuple(damage(rng, k, x) for k, x in zip(PLANS[tool], conds))
            out.append(("input", tool, tuple(conds), contents, rng.choice((None, None, "old", "new")) if tool in NAMED else None, "asan" if noisy or rng.random() < 0.3 else "plain",
                        [rng.randrange(100) for _ in contents] if rng.random() < 0.6 else None))
        # every way of naming files that do not exist
        if "missing" in conds and set(conds) <= {"ok", "missing"}:
            for j in range(len(ABSENT)):
                contents = tuple(damage(rng, k, x) for k, x in zip(PLANS[tool], conds))
                out.append(("input", tool, tuple(conds), contents, (None, "old", "new")[j % 3] if tool in NAMED else None, "plain", [j] * len(contents)))
    # sizes at and beyond 16 bits
    many = b"the " * 65535
    out.append(("input", "wordacc", ("ok", "ok", "ok"), (many, many, b"fox"), None, "plain", None))
    out.append(("input", "wordacc", ("toolong", "ok", "ok"), (many + b"the\n", many, b"fox"), "old", "plain", None))
    out.append(("input", "wordacc", ("toolong", "ok", "ok"), (many + b"the", b"the", b"fox"), "new", "plain", None))
    for tool in ("accuracy", "synctext", "editop", "vote", "ngram", "wordfreq"):
        n = len(PLANS[tool])
        out.append(("input", tool, ("ok",) * n, (many,) * n, None, "plain", None))
    for tool in PLANS:
        for v in range(1 if c.quick else 3):
            contents = tuple(good(rng, tool))
            full = undisturbed(c, tool, contents)
            L = len(full)
            lims = range(L + 3) if not c.quick else sorted(set(range(0, 20)) | set(rng.sample(range(L), min(L, 40))) | {L - 1, L, L + 1, L + 100} | {x for x in (4095, 4096, 4097) if x < L})
            for how in ("stdout", "named") if tool in NAMED else ("stdout",):
                for n in lims:
                    if n >= 0:
                        out.append(("output", tool, contents, how, "limit", n, L, full))
                out.append(("output", tool, contents, how, "ok", 0, L, full))
                if how == "named":
                    for bad in ("none/out", "", ".", "f0/out", "x" * 300):
                        out.append(("output", tool, contents, how, "uncreatable", bad, L, full))
                else:
                    out.append(("output", tool, contents, how, "closed", 0, L, full))
            for once in (False, True):
                for n in sorted(set(range(1, 60 if c.quick else 400)) | set(rng.sample(range(60, 600), 30 if c.quick else 200))):
                    out.append(("memory", tool, contents, n, once, full))
        for n in (1, 2, 3, 4, 5, 17, 18, 40):
            if n == 3 and tool in NAMED - {"vote"}:
                continue        # the third is written
            for opt in ("",) + {"vote": ("-O",), "synctext": ("-T", "-H")}.get(tool, ()):
                out.append(("args", tool, GOOD[PLANS[tool][0]][0], n, opt))
        if tool in MANY:
            for n in ((40,) if c.quick else (17, 40, 200)):
                out.append(("handles", tool, tuple(rng.choice(GOOD[PLANS[tool][0]]) for _ in range(n)), 16))
        for pos in range(len(PLANS[tool])):
            for sig in (signal.SIGINT, signal.SIGTERM):
                out.append(("signal", tool, tuple(good(rng, tool)), pos, sig, rng.choice((None, "old", "new")) if tool in NAMED else None))
    return out


def body(c):
    global GOOD
    c.build()
    c.bin_asan = core.build(os.path.join(c.scratch, "ba"), flags=("-O1", "-g", "-fsanitize=address"))
    c.shim = os.path.join(c.scratch, "failalloc.so")
    core._cc(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", c.shim, os.path.join(VERIF, "harness", "failalloc.c")])
    GOOD = materials(c)
    c.model("MCFaults", what="a run under any faults succeeds completely or fails visibly; refused inputs leave no result")
    ev = c.pmap(lambda k: event(c, k), cases(c))
    for e, clauses in c.judge("TraceFaults", ev, "runs under faults"):
        if len(c.violations) < 8 and not c.judge("TraceFaults", [event(c, e["_case"])], "re-runs"):
            continue
        k = e["_case"]
        what = {"input": lambda: "inputs %s" % (k[2],), "output": lambda: "output %s %s %s of %d" % (k[3], k[4], k[5], k[6]),
                "memory": lambda: "allocation %d%s" % (k[3], " only" if k[4] else ""), "signal": lambda: "signal %s at input %d" % (k[4], k[3]), "args": lambda: "%d files" % k[3], "handles": lambda: "%d inputs, %d handles" % (len(k[2]), k[3])}[k[0]]()
        c.violation("%s, %s: %s" % (k[1], what, "+".join(clauses)), {"observed": {x: y for x, y in e.items() if x[0] != "_"}, "stderr": [bytes(x).decode("latin1") for x in e["err"]][:30]},
                    {"f%d" % i: b for i, b in enumerate(k[3] if k[0] == "input" else [k[2]] if k[0] == "args" else k[2]) if isinstance(b, bytes)}, [k[1]])
    c.sample(lambda: {"tool": ev[9]["tool"], "conds": ev[9].get("conds"), "rc": ev[9]["rc"], "err": [bytes(x).decode("latin1") for x in ev[9]["err"]]})
