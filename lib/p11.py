"""C11: best match."""
from . import gen
from .core import Session
from .p08 import model

# the library takes distances that differ by less than 1e-9 for equal
SCALES = [0, 0, 0, -3, -8, -14, 7, 12]


def base(r, s, G=1, hi=8, maxl=8, nrows=4):
    rows = gen.table(r, r.randint(1, nrows), r.randint(2, maxl), -hi, hi)
    other = gen.table(r, r.randint(1, 2), r.randint(1, maxl + 3), -hi, hi)
    s.table("a.csv", rows).table("b.csv", other).load("a", "a.csv").load("b", "b.csv")
    return rows, other


def thr(r):
    return r.choice([0, 2, 4, 8, 12, 16, 24, 32, 48, 64, 128])


def large(r, s, i):
    """many series or long ones, the values far apart or close"""
    hi = r.choice([5, 40, 40])
    if i % 3 == 0:
        rows = gen.table(r, r.randint(60, 140), 3, 0, hi)
    elif i % 3 == 1:
        rows = gen.table(r, r.randint(1, 2), r.randint(18, 28), 0, hi)
    else:
        rows = gen.table(r, r.randint(8, 14), 8, 0, hi)
    s.table("a.csv", rows).load("a", "a.csv")
    s.group("a", thr(r), r.choice(gen.ORDERED), r.choice([1, 1, 3]), r.random() < 0.1)
    return rows


NARROW = [(1, 10), (1, 20), (1, 16), (0, 1)]


def huge(key, n, ask):
    """groups of more than a hundred members, and series of up to 70 points asked by long queries"""
    out = []
    for i in range(n):
        r = gen.rng(key + "huge", i)
        s = Session(1)
        d = r.choice(gen.ORDERED)
        if i % 2 == 0:
            rows = gen.table(r, r.randint(110, 160), 3, 0, 60, ragged=False)
            s.table("a.csv", rows).load("a", "a.csv").group("a", 8 * 120, d)
            for _ in range(6):
                s.ratio(*r.choice(gen.RATIOS))
                x, b, e = gen.sub(r, rows, 2)
                ask(r, s, d, x, b, e)
        else:
            rows = gen.table(r, r.randint(1, 2), r.randint(45, 70), 0, 20, ragged=False)
            s.table("a.csv", rows).load("a", "a.csv").group("a", r.choice([0, 16, 64]), d, 1, False)
            for _ in range(3):
                s.ratio(*r.choice(NARROW))
                x = r.randrange(len(rows))
                l = r.randint(36, len(rows[x]))
                b = r.randint(0, len(rows[x]) - l)
                ask(r, s, d, x, b, b + l)
        out.append(s)
    return out


def quotients(key, n, ask):
    """cosine and Sorensen distances, of positive values: a smaller part may be farther than the whole"""
    out = []
    for i in range(n):
        r = gen.rng(key + "q", i)
        s = Session(1)
        rows = gen.table(r, r.randint(1, 3), r.randint(2, 6), 1, r.choice([3, 9]))
        other = gen.table(r, 1, r.randint(2, 7), 1, 9)
        s.table("a.csv", rows).table("b.csv", other).load("a", "a.csv").load("b", "b.csv")
        dist = r.choice(["cosine", "sorensen"])
        s.group("a", r.choice([0, 1, 2, 4, 8, 15, 16]), dist, 1, r.random() < 0.1)
        total = sum(len(x) * (len(x) - 1) // 2 for x in rows)
        for _ in range(4):
            s.ratio(*r.choice(gen.RATIOS))
            q, qr = r.choice([("a", rows), ("b", other)])
            x = gen.sub(r, qr, 2)
            if x:
                ask(r, s, dist, total, q, *x)
        out.append(s)
    return out


def run(check):
    model(check, "Best")
    out = quotients("C11", check.pick(120, 1200), lambda r, s, dist, total, q, x, b, e: s.best("a", q, x, b, e))
    for i in range(check.pick(500, 5000)):
        r = gen.rng("C11", i)
        s = Session(1, r.choice(SCALES))
        rows, other = base(r, s)
        if r.random() < 0.1:
            s.best("a", "b", 0)                       # not grouped yet
        s.group("a", thr(r), r.choice(["euclidean", "euclidean", "manhattan", "chebyshev"]), 1, r.random() < 0.15)
        for _ in range(r.randint(3, 6)):
            s.ratio(*r.choice(gen.RATIOS))
            q, qr = r.choice([("a", rows), ("b", other)])
            x, b, e = gen.sub(r, qr, 1 if r.random() < 0.2 else 2) or (0, -1, -1)
            s.best("a", q, x, b, e)
        if r.random() < 0.2:
            s.best("a", "zz", 0).best("zz", "a", 0).best("a", "b", 0, 2, 1).best("a", "b", 9)
        out.append(s)
    for i in range(check.pick(24, 240)):
        r = gen.rng("C11large", i)
        s = Session(1)
        rows = large(r, s, i)
        for _ in range(3):
            s.ratio(*r.choice(gen.RATIOS))
            x, b, e = gen.sub(r, rows, 2)
            s.best("a", "a", x, b, min(e, b + 12))
        out.append(s)
    out += huge("C11", check.pick(6, 60), lambda r, s, d, x, b, e: s.best("a", "a", x, b, e))
    check.validate(out)
