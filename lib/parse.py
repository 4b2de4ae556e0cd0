"""Strict parsers of tool output. They return None (or raise Bad) for anything not in the documented layout."""
import re
SEP = b"=" * 79 + b"\n"


class Bad(Exception):
    pass


def need(x, what):
    if not x:
        raise Bad(what)


def sync(out, names, marks=False):
    """synctext output -> list of segments (matched?, [content per text]); contents as str.
    The texts must not contain braces or lines of '='."""
    names = [n.encode() for n in names]
    w = max(map(len, names))
    need(out.startswith(SEP + b"\n"), "start")
    pos = len(SEP) + 1
    end = out.find(b"\n" + SEP, pos - 1)
    need(end >= 0, "end of matches")
    body = out[pos:end] if end >= pos else b""
    if end < pos - 1:
        raise Bad("order")
    pos = end + 1
    diffs = []
    while True:
        need(out.startswith(SEP, pos), "separator")
        pos += len(SEP)
        if pos == len(out):
            break
        head = b"{%d}\n" % (len(diffs) + 1)
        need(out.startswith(head, pos), "footnote number")
        pos += len(head)
        side = []
        for n in names:
            lab = n.ljust(w) + b" {"
            need(out.startswith(lab, pos), "label")
            pos += len(lab)
            e = out.find(b"}\n", pos)
            need(e >= 0, "closing brace")
            c = out[pos:e]
            pos = e + 2
            need(b"{" not in c and b"}" not in c, "brace in content")
            parts = c.split(b"\n")
            pad = b" " * (w + 2)
            for q in parts[1:]:
                need(q.startswith(pad), "continuation")
            side.append("\n".join([parts[0].decode()] + [q[len(pad):].decode() for q in parts[1:]]))
        diffs.append(side)
    segs, k = [], 0
    p = 0
    for m in re.finditer(rb"\{(\d+)\}", body):
        if m.start() > p:
            segs.append((True, [body[p:m.start()].decode()] * len(names)))
        k += 1
        need(int(m.group(1)) == k and k <= len(diffs), "placeholder")
        segs.append((False, diffs[k - 1]))
        p = m.end()
    if p < len(body):
        segs.append((True, [body[p:].decode()] * len(names)))
    need(k == len(diffs), "unused footnote")
    return segs


# ---------------------------------------------------------------- reports
NOPCT = -999999999
VERSION = b"7.0"


def lines(out):
    need(out.endswith(b"\n") or not out, "last line incomplete")
    return out.split(b"\n")[:-1]


def pct(s):
    """Hundredths."""
    s = s.decode()
    if s == "------":
        return NOPCT
    m = re.fullmatch(r"(-?)(\d+)\.(\d\d)", s)
    need(m, "percentage")
    v = int(m.group(2)) * 100 + int(m.group(3))
    return -v if m.group(1) else v


class Lines:
    def __init__(self, out):
        self.l, self.i = lines(out), 0

    def next(self):
        need(self.i < len(self.l), "report ends early")
        self.i += 1
        return self.l[self.i - 1]

    def exact(self, s):
        need(self.next() == s, "expected %r" % s)

    def more(self):
        return self.i < len(self.l)

    def peek(self):
        return self.l[self.i] if self.i < len(self.l) else None

    def match(self, rx):
        m = re.fullmatch(rx, self.next(), re.S)
        need(m, "expected %r at line %d" % (rx, self.i))
        return m.groups()


N = rb" *(\d+)"
P_ = rb" *(-?\d+\.\d\d|------)"


def acc(out):
    """Accuracy report -> dict."""
    L = Lines(out)
    L.exact(b"ocreval Accuracy Report Version " + VERSION)
    L.exact(b"-" * 35)
    r = {}
    one = lambda name: int(L.match(N + b"   " + name)[0])
    r["chars"], r["errors"] = one(b"Characters"), one(b"Errors")
    r["acc"] = pct(L.match(P_ + b"%  Accuracy")[0])
    L.exact(b"")
    r["rejects"], r["suspects"], r["false"] = one(b"Reject Characters"), one(b"Suspect Markers"), one(b"False Marks")
    r["pmark"] = pct(L.match(P_ + b"%  Characters Marked")[0])
    r["pafter"] = pct(L.match(P_ + b"%  Accuracy After Correction")[0])
    L.exact(b"")
    L.exact(b"     Ins    Subst      Del   Errors")
    r["ops"] = [[int(x) for x in L.match(b" ".join([N] * 4) + b"   " + n)] for n in (b"Marked", b"Unmarked", b"Total")]
    L.exact(b"")
    L.exact(b"   Count   Missed   %Right")
    r["classes"] = []
    row = N + b" " + N + b" " + P_ + b"   (.*)"
    while True:
        a, b, p, n = L.match(row)
        if n == b"Total":
            r["total"] = [int(a), int(b), pct(p)]
            break
        r["classes"].append([n.decode("latin1"), int(a), int(b), pct(p)])
    r["conf"], r["hasconf"], r["rows"], r["hasrows"] = [], False, [], False
    if L.more():
        L.exact(b"")
        if L.peek() == b"  Errors   Marked   Correct-Generated":
            L.next()
            r["hasconf"] = True
            while L.more() and L.peek() != b"":
                a, b, k = L.match(N + b" " + N + rb"   (\{.*\}-\{.*\})")
                r["conf"].append([int(a), int(b), list(k)])
            if L.more():
                L.exact(b"")
                need(L.more(), "blank line at end")
        if L.more():
            L.exact(b"   Count   Missed   %Right")
            r["hasrows"] = True
            while L.more():
                a, b, p, s = L.match(N + b" " + N + b" " + P_ + rb"   \{(.+)\}")
                r["rows"].append([int(a), int(b), pct(p), list(s)])
    return r


def undisplay(b):
    """The code point with this displayed form (None if there is none)."""
    if b == b"<\\n>":
        return 10
    m = re.fullmatch(rb"<([0-9A-F]{2,6})>", b)
    if m:
        v = int(m.group(1), 16)
        return v if v <= 0x10FFFF else None
    try:
        s = b.decode("utf8")
    except UnicodeDecodeError:
        return None
    if len(s) == 2 and s[0] == "\u25cc":
        return ord(s[1])
    return ord(s) if len(s) == 1 else None


def wac(out):
    """Word accuracy report -> dict; tables are lists of [key, count, missed, pct], total rows separate."""
    L = Lines(out)
    L.exact(b"ocreval Word Accuracy Report Version " + VERSION)
    L.exact(b"-" * 40)
    r = {"words": int(L.match(N + b"   Words")[0]), "missed": int(L.match(N + b"   Misrecognized")[0]),
         "acc": pct(L.match(P_ + b"%  Accuracy")[0])}
    row = N + b" " + N + b" " + P_ + b"   "

    def numbers(title, head, total, field):
        L.exact(b""); L.exact(title); L.exact(b"   Count   Missed   %Right   " + head)
        rows = []
        while True:
            if not total and L.peek() in (b"", None):
                break
            a, b, p, t = L.match(row + b"(.*)")
            if total and t == b" Total":
                r[field + "_total"] = [int(a), int(b), pct(p)]
                break
            m = re.fullmatch(rb" {4}( \d|\d\d)|   >(10)", t)
            need(m, "length")
            if m.group(2):
                need(head == b"Occurs", "excess")
            rows.append([int(m.group(1)) if m.group(1) else 11, int(a), int(b), pct(p)])
        r[field] = rows

    def terms(title, field):
        L.exact(b""); L.exact(title); L.exact(b"   Count   Missed   %Right   ")
        rows = []
        while L.more() and L.peek() != b"":
            a, b, p, t = L.match(row + b"(.+)")
            rows.append([list(t), int(a), int(b), pct(p)])
        r[field] = rows
    numbers(b"Stopwords", b"Length", True, "stop")
    numbers(b"Non-stopwords", b"Length", True, "non")
    numbers(b"Distinct Non-stopwords", b"Occurs", True, "distinct")
    r["phrase"], r["stopterm"], r["nonterm"] = [], [], []
    r["hasphrase"] = r["hasstop"] = r["hasnon"] = False
    if L.more():
        r["hasphrase"] = True
        numbers(b"Phrases", b"Length", False, "phrase")
        if L.more() and L.l[L.i + 1:L.i + 2] == [b"Stopwords"]:
            r["hasstop"] = True
            terms(b"Stopwords", "stopterm")
        if L.more():
            r["hasnon"] = True
            terms(b"Non-stopwords", "nonterm")
    need(not L.more(), "extra lines")
    return r


def ed(out):
    """Edit operation report."""
    L = Lines(out)
    L.exact(b"ocreval Edit Operation Report Version " + VERSION)
    L.exact(b"-" * 41)
    one = lambda name: int(L.match(N + b"   " + name)[0])
    r = {"ins": one(b"Insertions"), "del": one(b"Deletions"), "moves": one(b"Moves"), "len": [], "hasmoves": False}
    if L.more():
        L.exact(b""); L.exact(b"Moves"); L.exact(b"   Count   Length")
        r["hasmoves"] = True
        while L.more():
            a, b = L.match(N + b" " + N)
            r["len"].append([int(b), int(a)])
    return r


# ---------------------------------------------------------------- for Report.tla: naturals of any size
def nat(n):
    o = []
    while n:
        o.append(n % 10000); n //= 10000
    return o


def big(n):
    return {"neg": n < 0, "mag": nat(abs(n))}


def bpct(h):
    return {"none": True, "v": big(0)} if h == NOPCT else {"none": False, "v": big(h)}


def report(kind, r):
    """A parsed report in the form of Report.tla: num (named counts), tab (named tables of <<key, count, missed, percent>>),
    pct (named percentages), has (which parts are present)."""
    row = lambda x: [x[0], nat(x[1]), nat(x[2]), bpct(x[3])]
    if kind == "acc":
        num = {k: nat(r[k]) for k in ("chars", "errors", "rejects", "suspects", "false")}
        for n, o in zip(("marked", "unmarked", "total"), r["ops"]):
            for f, v in zip(("ins", "subst", "del", "errors"), o):
                num[n + "_" + f] = nat(v)
        num["count"], num["missed"] = nat(r["total"][0]), nat(r["total"][1])
        chars = []
        for a, b, p, s in r["rows"]:
            cp = undisplay(bytes(s))
            need(cp is not None, "displayed character")
            chars.append([cp, nat(a), nat(b), bpct(p), s])
        return {"num": num, "pct": {"acc": bpct(r["acc"]), "pmark": bpct(r["pmark"]), "pafter": bpct(r["pafter"]), "total": bpct(r["total"][2])},
                "tab": {"class": [row(x) for x in r["classes"]], "conf": [[x[2], nat(x[0]), nat(x[1]), bpct(NOPCT)] for x in r["conf"]],
                        "char": chars},
                "has": {"conf": r["hasconf"], "char": r["hasrows"]}}
    if kind == "wac":
        num = {"words": nat(r["words"]), "missed": nat(r["missed"])}
        pct = {"acc": bpct(r["acc"])}
        for f in ("stop", "non", "distinct"):
            num[f + "_count"], num[f + "_missed"] = nat(r[f + "_total"][0]), nat(r[f + "_total"][1])
            pct[f] = bpct(r[f + "_total"][2])
        return {"num": num, "pct": pct,
                "tab": {f: [row(x) for x in r[f]] for f in ("stop", "non", "distinct", "phrase", "stopterm", "nonterm")},
                "has": {f: r["has" + f] for f in ("phrase", "stop", "non")}}
    return {"num": {"ins": nat(r["ins"]), "del": nat(r["del"]), "moves": nat(r["moves"])}, "pct": {},
            "tab": {"len": [[k, nat(n), [], bpct(NOPCT)] for k, n in r["len"]]}, "has": {"len": r["hasmoves"]}}


READ = {"acc": acc, "wac": wac, "ed": ed}
