"""Input generators."""
import itertools

# characters that are equal modulo 2^7, 2^8 or 2^16
ALIKE = "a\u00e1\u0161\u0461\uf600\U0001F600"


def strings(alphabet, maxlen):
    for n in range(maxlen + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield "".join(t)


def rand_string(rng, alphabet, lo, hi):
    return "".join(rng.choice(alphabet) for _ in range(rng.randint(lo, hi)))


def mutate(rng, s, alphabet, rate):
    """A copy with random insertions, deletions, substitutions, block moves and repetitions."""
    out = []
    for c in s:
        r = rng.random()
        if r < rate / 4:
            continue
        if r < rate / 2:
            out.append(rng.choice(alphabet)); continue
        if r < rate * 3 / 4:
            out.append(rng.choice(alphabet))
        out.append(c)
    s = "".join(out)
    if s and rng.random() < rate:
        i, j = sorted((rng.randrange(len(s) + 1), rng.randrange(len(s) + 1)))
        blk, rest = s[i:j], s[:i] + s[j:]
        k = rng.randrange(len(rest) + 1)
        s = rest[:k] + blk + rest[k:]
    if s and rng.random() < rate / 3:
        i, j = sorted((rng.randrange(len(s) + 1), rng.randrange(len(s) + 1)))
        s = s[:j] + s[i:j] + s[j:]
    return s


def pair(rng, alphabet, hi, other=None):
    """A pair of related texts; the amount of difference varies from none to complete."""
    a = rand_string(rng, alphabet, 0, hi)
    k = rng.random()
    if k < 0.1:
        b = rand_string(rng, other or alphabet, 0, hi)
    elif k < 0.15:
        b = a
    else:
        b = mutate(rng, a, other or alphabet, rng.choice((0.03, 0.1, 0.25, 0.5, 0.8)))
    return (a, b) if rng.random() < 0.5 else (b, a)


def cps(s):
    return [ord(c) for c in s]


def write(path, s):
    with open(path, "wb") as f:
        f.write(s if isinstance(s, bytes) else s.encode("utf8", "surrogatepass"))


def alike(rng, n, k=4):
    """k words of n letters and a few more: they differ only at the end, and their bytes have the same sum."""
    ch = rng.choice("abxyz")
    return [ch * n + t for t in rng.sample(["adcb", "abcd", "bacd", "dbca", "acdb", "bbcc", "aacf", "cbad", "bbbd", "fbaa"], k)]
