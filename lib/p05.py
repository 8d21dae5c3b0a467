"""C05: distances."""
import itertools

from . import gen
from .core import Session


def whole(n, x):
    return (n, x, -1, -1)


def pairs(op, dists=gen.ORDERED, plain=True):
    """every pair of short sequences over a small domain under several ratios"""
    out = []
    seqs = [list(t) for n in (1, 2, 3) for t in itertools.product((0, 1, 3), repeat=n)]
    for ratio in ((0, 1), (2, 5), (1, 2), (7, 10), (1, 1)):
        for dn in dists:
            for part in range(0, len(seqs), 13):
                s = Session(1)
                s.table("a", seqs).load("a", "a").ratio(*ratio)
                for i in range(part, min(part + 13, len(seqs))):
                    for j in range(len(seqs)):
                        s.pair(op, whole("a", i), whole("a", j), dn, True)
                        if plain and ratio == (0, 1):
                            s.pair(op, whole("a", i), whole("a", j), dn, False)
                out.append(s)
    return out


def random_pairs(key, op, n, dists, warps=(True, False), hi=20, maxl=14, minl=1, lo=None):
    out = []
    for i in range(n):
        r = gen.rng(key, i)
        G = r.choice([1, 1, 1, 10])
        s = Session(G, r.choice(gen.WIDE) if G == 1 else 0)
        rows = gen.table(r, r.randint(2, 4), r.randint(minl, maxl), -hi if lo is None else lo, hi)
        if G == 10:
            s.file("a", "".join(",".join("%.1f" % (v / 10) for v in x) + "\n" for x in rows))
        else:
            s.table("a", rows)
        s.load("a", "a")
        other = gen.table(r, 2, r.randint(minl, maxl), -hi if lo is None else lo, hi)
        if G == 10:
            s.file("b", "".join(",".join("%.1f" % (v / 10) for v in x) + "\n" for x in other))
        else:
            s.table("b", other)
        s.load("b", "b")
        for _ in range(6):
            s.ratio(*r.choice(gen.RATIOS))
            n1, r1 = r.choice([("a", rows), ("b", other)])
            n2, r2 = r.choice([("a", rows), ("b", other)])
            x, y = gen.sub(r, r1), gen.sub(r, r2)
            dn, w = r.choice(dists), r.choice(warps)
            if not w and r.random() < 0.8:          # same length for the plain distances
                la = len(r1[x[0]]) if x[1] < 0 else x[2] - x[1]
                c = [j for j, v in enumerate(r2) if len(v) >= la]
                if c:
                    j = r.choice(c)
                    b = r.randint(0, len(r2[j]) - la)
                    y = (j, b, b + la)
            s.pair(op, (n1,) + x, (n2,) + y, dn, w)
            s.pair(op, (n2,) + y, (n1,) + x, dn, w)
            s.pair(op, (n1,) + x, (n1,) + x, dn, w)
        if r.random() < 0.3:
            k = r.randrange(4)
            if k == 0:
                s.pair(op, ("a", 0, -1, -1), ("zz", 0, -1, -1), "euclidean", True)
            elif k == 1:
                s.pair(op, ("a", len(rows), -1, -1), ("b", 0, -1, -1), "euclidean", True)
            elif k == 2:
                s.pair(op, ("a", 0, -1, -1), ("b", 0, -1, -1), "nodist", r.choice([True, False]))
            else:
                s.pair(op, ("a", 0, 1, 1), ("b", 0, -1, -1), "euclidean", True)
        out.append(s)
    return out


def huge(key, op, n):
    """longer than a byte can count"""
    out = []
    for i in range(n):
        r = gen.rng(key + "huge", i)
        s = Session(1)
        rows = [[r.randint(-9, 9) for _ in range(r.randint(120, 300))] for _ in range(2)]
        rows.append(list(rows[0]))
        del rows[2][r.randrange(len(rows[2]))]
        rows += [[0] * a + [9] * (n - a) for n in [r.randint(200, 300)] for a in (r.randint(1, 30), r.randint(160, 199))]
        s.table("a", rows).load("a", "a").ratio(*[(1, 8), (1, 1), (1, 20), (3, 4)][i % 4])
        for dn in gen.ORDERED:
            s.pair(op, ("a", 0, -1, -1), ("a", 2, -1, -1), dn, True)
            s.pair(op, ("a", 2, -1, -1), ("a", 1, -1, -1), dn, True)
            s.pair(op, ("a", 3, -1, -1), ("a", 4, -1, -1), dn, True)      # a long way from the diagonal
            if op == "dist":
                s.pair(op, ("a", 0, 5, 119), ("a", 1, 5, 119), dn, False)
                s.pair(op, ("a", 2, -1, -1), ("a", 0, 0, len(rows[2])), dn, False)
        out.append(s)
    return out


def run(check):
    out = pairs("dist") + huge("C05", "dist", check.pick(4, 40))
    out += random_pairs("C05", "dist", check.pick(350, 4000), gen.ORDERED + ["sorensen"], (True, True, False))
    out += random_pairs("C05small", "dist", check.pick(150, 2000), ["cosine", "sorensen"], (False,), hi=6, maxl=4)
    out += random_pairs("C05long", "dist", check.pick(60, 600), gen.ORDERED + ["sorensen"], (True, True, False), maxl=64, minl=30)
    check.model("MCDist", consts=dict(Dom="{0, 1, 3}", N=check.pick(3, 4)),
                invariants="Programming Symmetric Identical Monotone Plain Matching")
    check.validate(out)
    # a program that never set a ratio
    s = Session(1)
    r = gen.rng("C05first", 0)
    rows = gen.table(r, 6, 40, -9, 9)
    s.table("a", rows).load("a", "a")
    for _ in range(60):
        s.pair("dist", ("a",) + gen.sub(r, rows), ("a",) + gen.sub(r, rows), r.choice(gen.ORDERED), True)
        n = r.randint(8, 40)
        b, c = r.randint(0, 40 - n), r.randint(0, 40 - n)
        s.pair("dist", ("a", r.randrange(6), b, b + n), ("a", r.randrange(6), c, c + n), r.choice(gen.ORDERED), True)
    check.validate([s])
