"""Writes reports from counts, in the layout of the tools (inputs for checks of the tools that read reports)."""
import uni
from parse import VERSION


def p(num, den):
    return b"  ------" if den == 0 else b"%8.2f" % (100.0 * num / den)


def shown(cp):
    if cp == 10:
        return b"<\\n>"
    k = uni.kind(cp)
    return (b"\xe2\x97\x8c" if k == 2 else b"") + chr(cp).encode() if k else b"<%02X>" % cp if cp < 256 else b"<%04X>" % cp


_R = None


def ranges():
    global _R
    if _R is None:
        import os, re
        from core import SPEC
        _R = [(int(a), int(b), n) for a, b, n in re.findall(r'<<(\d+), (\d+), "([^"]*)">>', open(os.path.join(SPEC, "CharClass.tla")).read())]
    return _R


def classof(cp):
    for a, b, n in ranges():
        if a <= cp <= b:
            return n
    return "Unassigned"


def acc(chars, conf, ops, rejects=0, suspects=0, false=0):
    """chars: {cp: (count, missed)}; conf: {key bytes: (errors, marked)}; ops: ((ins, subst, del) marked, same unmarked)."""
    n = sum(v[0] for v in chars.values())
    tot = [[*o, sum(o)] for o in ops]
    tot.append([x + y for x, y in zip(*tot)])
    errs = tot[2][3]
    rank = {"Unassigned": -1}
    for i, (a, b, x) in enumerate(ranges()):
        rank.setdefault(x, i)
    cl = {}
    for q, (a, b) in chars.items():
        k = classof(q)
        x = cl.get(k, (0, 0))
        cl[k] = (x[0] + a, x[1] + b)
    o = [b"ocreval Accuracy Report Version " + VERSION, b"-" * 35, b"%8d   Characters" % n, b"%8d   Errors" % errs,
         p(n - errs, n) + b"%  Accuracy", b"", b"%8d   Reject Characters" % rejects, b"%8d   Suspect Markers" % suspects,
         b"%8d   False Marks" % false, p(rejects + suspects, n) + b"%  Characters Marked",
         p(n - tot[1][3], n) + b"%  Accuracy After Correction", b"", b"     Ins    Subst      Del   Errors"]
    o += [b"%8d %8d %8d %8d   " % tuple(t) + x for t, x in zip(tot, (b"Marked", b"Unmarked", b"Total"))]
    o += [b"", b"   Count   Missed   %Right"]
    row = lambda a, b: b"%8d %8d " % (a, b) + p(a - b, a) + b"   "
    o += [row(*cl[k]) + k.encode() for k in sorted(cl, key=rank.get)]
    o.append(row(n, sum(v[1] for v in chars.values())) + b"Total")
    if errs:
        o += [b"", b"  Errors   Marked   Correct-Generated"]
        o += [b"%8d %8d   %s" % (*conf[k], k) for k in sorted(conf, key=lambda k: (-conf[k][0], -conf[k][1], k))]
    if n:
        o += [b"", b"   Count   Missed   %Right"]
        o += [row(*chars[q]) + b"{" + shown(q) + b"}" for q in sorted(chars)]
    return b"\n".join(o) + b"\n"


def wac(stop, non, distinct, phrase, length):
    """stop, non: {term bytes: (count, missed)}; distinct, phrase: {length: (count, missed)}; length(term)."""
    tot = lambda t: (sum(v[0] for v in t.values()), sum(v[1] for v in t.values()))
    def by(t):
        r = {}
        for k, v in t.items():
            x = r.get(length(k), (0, 0))
            r[length(k)] = (x[0] + v[0], x[1] + v[1])
        return r
    n, m = (x + y for x, y in zip(tot(stop), tot(non)))
    row = lambda a, b: b"%8d %8d " % (a, b) + p(a - b, a) + b"   "
    H = b"   Count   Missed   %Right   "
    o = [b"ocreval Word Accuracy Report Version " + VERSION, b"-" * 40, b"%8d   Words" % n, b"%8d   Misrecognized" % m, p(n - m, n) + b"%  Accuracy"]
    def num(title, t, head, total=True):
        o.extend([b"", title, H + head])
        for k in sorted(t):
            o.append(row(*t[k]) + (b"   >10" if head == b"Occurs" and k == 11 else b"    %2d" % k))
        if total:
            o.append(row(*tot(t)) + b" Total")
    num(b"Stopwords", by(stop), b"Length"); num(b"Non-stopwords", by(non), b"Length"); num(b"Distinct Non-stopwords", distinct, b"Occurs")
    if n:
        num(b"Phrases", phrase, b"Length", False)
        for title, t in ((b"Stopwords", stop), (b"Non-stopwords", non)):
            if tot(t)[0]:
                o.extend([b"", title, H])
                o.extend(row(*t[k]) + k for k in sorted(t))
    return b"\n".join(o) + b"\n"


def ed(ins, dele, moves):
    """moves: {length 1..100: count}"""
    k = sum(moves.values())
    o = [b"ocreval Edit Operation Report Version " + VERSION, b"-" * 41, b"%8d   Insertions" % ins, b"%8d   Deletions" % dele, b"%8d   Moves" % k]
    if k:
        o += [b"", b"Moves", b"   Count   Length"] + [b"%8d %8d" % (moves[x], x) for x in sorted(moves) if moves[x]]
    return b"\n".join(o) + b"\n"
