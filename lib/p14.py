"""C14: search on block averages."""
from . import gen
from .core import Session
from .p08 import model


def run(check):
    model(check, "Averaged")
    out = []
    for i in range(check.pick(900, 6000)):
        r = gen.rng("C14", i)
        normalize = r.random() < 0.3
        s = Session(144 if normalize else 12)
        hi = r.choice([1, 2, 3, 4]) if normalize else 6
        lo = r.choice([0, 0, -3, 2, 5]) if normalize else 0
        rows = gen.table(r, r.randint(1, 3), r.randint(2, 8), lo, lo + hi)
        rows[0] = [lo, lo + hi] + rows[0][:5]
        other = gen.table(r, r.randint(1, 2), r.randint(1, 9), lo, lo + hi)
        s.table("a.csv", rows).table("b.csv", other).load("a", "a.csv").load("b", "b.csv")
        total = sum(len(x) * (len(x) - 1) // 2 for x in rows)
        mx = gen.maxlen(rows)
        sizes = [b for b in (1, 2, 3, 4, 2, 3, 6, 12) if safe(b, mx, rows + other)]
        if r.random() < 0.1:
            s.paa(1, "a", "b", 0)
        bs, did = None, False
        for _ in range(r.randint(2, 4)):
            if bs is None or r.random() < 0.5:
                bs = r.choice(sizes)
                s.prep("a", bs)
                if r.random() < 0.2:
                    s.prep("a", r.choice([0, -1]))
            if normalize and not did and r.random() < 0.6:
                s.norm("a")
                did = True
            s.ratio(*r.choice(gen.RATIOS))
            q, qr = r.choice([("a", rows), ("b", other)])
            if did:
                q, qr = "a", rows
            x, b, e = gen.sub(r, qr)
            k = r.choice([1, 2, 3, 5, total, total + 1])
            s.paa(k, "a", q, x, b, e, r.choice(gen.ORDERED))
        if r.random() < 0.2:
            s.paa(0, "a", "b", 0).paa(1, "b", "a", 0).paa(1, "a", "b", 0, dist="nodist")
            s.prep("zz", 2)
        if r.random() < 0.2:
            s.unload("a").load("a", "a.csv").paa(1, "a", "b", 0).prep("a", 2).paa(2, "a", "b", 0)
        out.append(s)
    # larger blocks and longer series
    for i in range(check.pick(150, 1500)):
        r = gen.rng("C14blocks", i)
        if i % 3:
            s, bs, hi, n = Session(840), r.choice([5, 6, 7, 8, 8]), r.choice([1, 2]), r.randint(5, 12)
        else:
            s, bs, hi, n = Session(12), r.choice([2, 3, 4]), 2, r.randint(14, 22)
        rows = gen.table(r, r.randint(1, 3 if i % 3 else 2), n, 0, hi)
        s.table("a", rows).load("a", "a").prep("a", bs)
        total = sum(len(x) * (len(x) - 1) // 2 for x in rows)
        for _ in range(2):
            s.ratio(*r.choice(gen.RATIOS))
            x, b, e = gen.sub(r, rows)
            s.paa(r.choice([1, 3, 40, total]), "a", "a", x, b, e, r.choice(gen.ORDERED))
        out.append(s)
    # the averages themselves
    for i in range(check.pick(150, 1500)):
        r = gen.rng("C14values", i)
        s = Session(840)
        rows = gen.table(r, r.randint(1, 3), r.randint(1, 20), -9, 9)
        if r.random() < 0.2:
            rows.insert(r.randint(0, len(rows)), [])
        s.table("f", rows)
        for _ in range(8):
            bs = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 8, 0, -1])
            x, b, e = gen.sub(r, rows) or (0, -1, -1)
            if r.random() < 0.2:
                x, b, e = r.randint(-1, len(rows)), r.randint(-2, 3), r.randint(-2, 6)
            s.blocks("f", bs, x, b, e, r.choice([0, 0, 1, 2, 5]))
        out.append(s)
    check.validate(out)


def safe(bs, mx, rows):
    """every block length that can occur divides 12"""
    eff = min(bs, mx)
    return all(12 % n == 0 for n in range(1, min(eff, max(len(x) for x in rows)) + 1))
