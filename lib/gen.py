"""Generators shared by the checks.  All randomness comes from the seed."""
import random

from .core import SEED

ORDERED = ["euclidean", "manhattan", "chebyshev"]
ALLDIST = ORDERED + ["cosine", "sorensen"]

# ratios whose floating-point product with every length up to 64 rounds down as the exact one does
RATIOS = [(a, b) for a, b in [(0, 1), (1, 10), (1, 8), (1, 5), (1, 4), (3, 10), (3, 8), (2, 5), (1, 2), (3, 5), (5, 8),
                              (7, 10), (3, 4), (4, 5), (7, 8), (9, 10), (1, 1), (3, 2), (2, 1)]
          if all(int(n * (a / b)) == n * a // b for n in range(65))]


# units of the values, as powers of two
SCALES = [0, 0, 0, 0, -16, -10, 7, 12]
WIDE = SCALES + [-40, 40, -150, 150]          # without comparisons of candidates, which are up to 1e-9


def rng(*key):
    return random.Random(repr((SEED,) + key))


def row(r, n, lo, hi, style=None):
    """a row with one of several shapes, so that ties and near-ties occur"""
    style = style or r.choice(["uniform", "uniform", "walk", "few", "const", "ramp"])
    if style == "uniform":
        return [r.randint(lo, hi) for _ in range(n)]
    if style == "few":
        a = [r.randint(lo, hi) for _ in range(2)]
        return [r.choice(a) for _ in range(n)]
    if style == "const":
        return [r.randint(lo, hi)] * n
    if style == "ramp":
        s = r.choice([-1, 1])
        a = r.randint(lo, hi)
        return [min(hi, max(lo, a + s * i)) for i in range(n)]
    v, out = r.randint(lo, hi), []
    for _ in range(n):
        out.append(v)
        v = min(hi, max(lo, v + r.randint(-2, 2)))
    return out


def table(r, nrows, maxlen, lo=-9, hi=9, ragged=True, minlen=1):
    rows = []
    for i in range(nrows):
        n = r.randint(minlen, maxlen) if ragged and i and r.random() < 0.6 else maxlen
        rows.append(row(r, n, lo, hi))
    if rows and r.random() < 0.3:
        rows[r.randrange(len(rows))] = list(rows[0])
    r.shuffle(rows)
    return rows


def sub(r, rows, minlen=1):
    """a random existing sub-sequence (index, start, end), sometimes the whole series as (-1, -1)"""
    ok = [i for i, x in enumerate(rows) if len(x) >= minlen]
    if not ok:
        return None
    i = r.choice(ok)
    n = len(rows[i])
    if r.random() < 0.25:
        return (i, -1, -1)
    s = r.randint(0, n - minlen)
    e = r.randint(s + minlen, n)
    return (i, s, e)


def maxlen(rows):
    return max([len(x) for x in rows] or [0])


def values(rows):
    return [v for x in rows for v in x]
