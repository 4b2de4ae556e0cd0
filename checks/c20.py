"""C20: misrecognized words are those outside a longest common subsequence."""
import itertools
import gen, wordacc


def edited(rng, a, vocab, rate):
    b = []
    for w in a:
        k = rng.random()
        if k < rate * 0.4:
            b.append(rng.choice(vocab))
        elif k < rate * 0.6:
            pass
        elif k < rate * 0.8:
            b += [w, rng.choice(vocab)]
        elif k < rate and b:
            b[-1:] = [w, b[-1]]
        else:
            b.append(w)
    return b


def text(rng, ws):
    return "".join(w + rng.choice((" ", "  ", "\n", ", ", ". ", " - ", "\t")) for w in ws)


def cases(c):
    rng = c.rng
    out = []
    # all pairs of short sequences over two and three words
    A2 = [k for n in range(0, 5 if c.quick else 6) for k in itertools.product("xy", repeat=n)]
    A3 = [k for n in range(0, 4 if c.quick else 5) for k in itertools.product("xyz", repeat=n)]
    pairs = [(p, q) for p in A2 for q in A2]
    pairs += [(p, q) for p in A3 for q in A3 if len(set(p + q)) > 2]
    pairs = rng.sample(pairs, 1200) if c.quick else pairs
    for p, q in pairs:
        out.append({"a": " ".join(p), "b": " ".join(q)})
    for i in range(500 if c.quick else 5000):
        vocab = ["v%d" % j for j in range(rng.choice((2, 3, 5, 10, 30)))]
        n = rng.choice((5, 8, 8, 12, 20, 40))
        a = [rng.choice(vocab) for _ in range(n)]
        b = edited(rng, a, vocab + ["q1", "q2"], rng.choice((0.05, 0.2, 0.5, 0.9))) if rng.random() < 0.7 else [rng.choice(vocab) for _ in range(rng.randint(0, 2 * n))]
        out.append({"a": text(rng, a), "b": text(rng, b), "to": rng.choice(("out", "file"))})
    for i in range(150 if c.quick else 1500):     # nearly unique words: the recognized set is unique
        n = rng.randint(10, 60)
        a = ["u%d" % rng.randrange(3 * n) for _ in range(n)]
        b = edited(rng, a, ["z%d" % j for j in range(50)] + a, rng.choice((0.05, 0.2, 0.6)))
        out.append({"a": text(rng, a), "b": text(rng, b)})
    for i in range(6 if c.quick else 60):        # blocks moved, long runs of equal words
        vocab = ["m%d" % j for j in range(rng.choice((2, 4, 20)))]
        a = [rng.choice(vocab) for _ in range(150)]
        k = rng.randint(10, 140)
        out.append({"a": text(rng, a), "b": text(rng, a[k:] + a[:k])})
    for n in (4, 8, 12, 16, 20, 24, 28, 32, 40, 50, 64, 100, 127, 128, 200, 255, 256, 300):       # words that differ only at the end
        ws = gen.alike(rng, n)
        out.append({"a": " ".join(rng.choice(ws) for _ in range(6)), "b": " ".join(rng.choice(ws) for _ in range(6))})
    # very long texts: the frontiers need more than 15 bits, the number of rounds more than 8
    for n in ((40000,) if c.quick else (32767, 32768, 40000, 65535, 65600)):
        a = list(range(n))
        drop = set(rng.sample(a, n // 90 + 100)) | ({0} if n != 65535 else set())
        b = [x + 100000 if x in drop and x % 3 else x for x in a if x not in drop or x % 3]
        if n == 65535:
            b = a[:]
        out.append({"numbers": (a, b)})
    # the limit: texts of the words numbered lo..hi
    for k in (((1, 65535), (1, 65535)), ((1, 65536), (1, 65536)), ((1, 70000), (2000, 67534)), ((1, 70000), (2000, 67535)), ((65530, 65545), (1, 65540)), ((300, 66000), (1, 65700)))[:None if not c.quick else 5]:
        out.append({"ranges": k})
    a = list(range(700))
    out.append({"numbers": (a, [x for x in a if x % 2])})
    return out


def body(c):
    c.build()
    c.model("MCWordacc", what="exploring diagonals finds a longest common subsequence of the words, and terminates")
    if not c.quick:
        c.model("MCWordacc", "MCWordaccThorough", what="same, texts of up to 5 words")
    ev = wordacc.check(c, cases(c), "word matchings")
    c.sample(lambda: {"correct": ev[1300]["_files"]["a"].decode(), "generated": ev[1300]["_files"]["b"].decode(), "misrecognized": ev[1300]["r"]["missed"]})
