"""Shared by C04 and C05: what a tool reads from a file, observed through a vote between the file and itself."""
import os, re
import gen, uni
from gen import cps

TITLE = b"ocreval Vendor-Independent Interface Version 7.0\n"
DIV = b"-" * 48 + b"\n"
MSG = re.compile(rb"^[A-Za-z0-9_.-]+: [^\n]+\n\Z")


def as_bytes(x):
    return x if isinstance(x, bytes) else x.encode("utf8")


def read_event(c, case):
    """case: (contents, how); how: file | pipe. A pipe is one of the two voters; the other is the file."""
    data, how = case
    data = as_bytes(data)
    d = c.dir()
    gen.write(os.path.join(d, "A"), data)
    opts = ["-w", "1/2", "-s", "1/2"]
    if how == "pipe":
        r = c.run("vote", [*opts, "/dev/stdin", "A"], d, stdin=data)
    else:
        r = c.run("vote", [*opts, "A", "A"], d)
    return {"k": "read", "bytes": list(data), "rc": r.rc, "out": list(r.out), "msg": bool(MSG.match(r.err)),
            "_case": case, "_data": data}


def correct_event(c, case):
    """accuracy with the file as the correct text."""
    tool, data = case[1], as_bytes(case[0])
    d = c.dir()
    gen.write(os.path.join(d, "A"), data); gen.write(os.path.join(d, "B"), b"some text")
    r = c.run(tool, ["A", "B"], d)
    return {"k": "correct", "bytes": list(data), "rc": r.rc, "out": list(r.out), "msg": bool(MSG.match(r.err)),
            "_case": case, "_data": data}


def tables(part):
    S = {32, 10, 126, 94}
    for e in part:
        for t in (e.get("bytes"),):
            if t:
                s = bytes(t).decode("utf8", "ignore")
                S.update(map(ord, s))
    return {"chars": [[q, uni.lower(q), uni.kind(q), 0, 0, 0, [q]] for q in sorted(S)], "comp": []}
