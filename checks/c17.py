"""C17: block moves restore the correct order by the documented greedy rule."""
import itertools, os, re
import blocks, gen, parse

CJK = [chr(q) for q in range(0x4E00, 0x9FA0)]
LINE = re.compile(rb"(original|combined|moved (\d+)) *:((?: \{\d+:\d+\})*)\n\n")


def event(c, case):
    x, y, debug = case
    d = c.dir()
    gen.write(os.path.join(d, "A"), x); gen.write(os.path.join(d, "B"), y)
    cmd = ["editop", *(["-D"] if debug else []), "A", "B"]
    r = c.run(cmd[0], cmd[1:], d)
    e = {"st": "ok", "blocks": [], "shown": [], "moves": 0, "len": [], "_case": case, "_out": r.out, "_cmd": cmd}
    s = c.run("synctext", ["-T", "A", "B"], d)
    if r.timeout or r.rc != 0 or s.rc != 0:
        e["st"] = "tool-failed"
        return e
    try:
        e["blocks"] = [[n, len(t)] for n, t in blocks.transposed(s.out)[1] if n]
        pos = 0
        if debug:
            while True:
                m = LINE.match(r.out, pos)
                if not m:
                    break
                pos = m.end()
                e["shown"].append(["moved" if m.group(2) else m.group(1).decode(), int(m.group(2) or 0),
                                   [[int(a), int(b)] for a, b in re.findall(rb"\{(\d+):(\d+)\}", m.group(3))]])
            parse.need(e["shown"], "steps")
        rep = parse.ed(r.out[pos:])
        e["moves"], e["len"] = rep["moves"], rep["len"]
    except (parse.Bad, UnicodeDecodeError) as z:
        e["st"] = "layout"; e["_why"] = str(z)
    return e


def texts(rng, perm, lens, noise):
    """Texts whose blocks are these: the characters of all blocks differ."""
    cs = iter(CJK)
    bl = ["".join(next(cs) for _ in range(n)) for n in lens]
    junk = lambda ch: rng.choice(("", ch, ch * 2)) if noise else ""
    x = junk("x") + "".join(b + junk("x") for b in bl)
    y = junk("y") + "".join(bl[p] + junk("y") for p in perm)
    return x, y


def cases(c):
    rng = c.rng
    out = []
    perms = [p for n in range(0, 6 if c.quick else 7) for p in itertools.permutations(range(n))]
    for p in perms:
        for _ in range(2):
            lens = [rng.choice((1, 1, 1, 2, 2, 3, 99, 100, 101, 130)) for _ in p]
            # a separator in one of the texts keeps neighbours apart
            out.append((*texts(rng, p, lens, rng.random() < 0.7), rng.random() < 0.8))
    for i in range(450 if c.quick else 6000):
        n = rng.choice((6, 7, 8, 10, 15, 25, 40))
        p = list(range(n))
        k = rng.random()
        if k < 0.4:
            rng.shuffle(p)
        elif k < 0.5:
            p.reverse()
        else:
            for _ in range(rng.randint(1, 6)):
                i_, j = rng.randrange(n), rng.randrange(n)
                p.insert(j, p.pop(i_))
        lens = [rng.choice((1, 1, 2, 2, 3, 4, 5, 9)) if rng.random() < 0.93 else rng.choice((98, 99, 100, 101, 150, 260)) for _ in p]
        out.append((*texts(rng, p, lens, rng.random() < 0.8), rng.random() < 0.8))
    for i in range(250 if c.quick else 3000):
        a = gen.rand_string(rng, "abcdefgh~ ", 0, 30)
        out.append((a, gen.mutate(rng, gen.mutate(rng, a, "abcdefgh", 0.3), "abcdefgh", 0.2), rng.random() < 0.8))
    big = list(range(120 if c.quick else 300)); rng.shuffle(big)     # many moves of one length
    out.append((*texts(rng, big, [1 + (i % 2) for i in big], True), True))
    for lens, perm in ([((32780, 300, 5), (2, 1, 0)), ((2, 65560, 9), (2, 1, 0)), ((32770, 32772), (1, 0))] if c.quick else [((32780, 300, 5), (2, 1, 0)), ((4, 65560, 9), (2, 1, 0)), ((32768, 32767, 32769), (2, 1, 0)), ((32770, 32772), (1, 0)), ((65539, 65540), (1, 0)),
                                                                                              ((65536, 1, 40000, 3), (3, 1, 2, 0)), ((32770, 65540, 7), (1, 0, 2))]):
        bl = ["".join(rng.choice(CJK[3000 * j:3000 * j + 3000]) for _ in range(n)) for j, n in enumerate(lens)]
        out.append(("".join(bl), "".join(bl[p] for p in perm), True))
    rng.shuffle(out)
    return out


def body(c):
    c.build()
    c.model("MCMoves", what="the moves end with one block, each shortens the list by exactly its reduction, fewer moves than blocks")
    if not c.quick:
        c.model("MCMoves", "MCMovesThorough", what="same, more blocks")
    cs = cases(c)
    ev = c.pmap(lambda k: event(c, k), cs)
    for e, clauses in c.judge("TraceMoves", ev, "editop runs"):
        if len(c.violations) < 5 and not c.judge("TraceMoves", [event(c, e["_case"])], "re-runs"):
            continue
        x, y, _ = e["_case"]
        c.violation("%s: %s for blocks %s" % (" ".join(e["_cmd"]), "+".join(clauses), e["blocks"][:30]), {"why": e.get("_why")},
                    {"A": x.encode(), "B": y.encode(), "output": e["_out"]}, e["_cmd"])
    c.sample(lambda: {"blocks": ev[200]["blocks"], "shown": ev[200]["shown"], "moves": ev[200]["len"]})
