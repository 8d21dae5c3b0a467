"""C04: normalization."""
from . import gen
from .core import Session


def scaled(n):
    """values far apart and values that differ very little, near to and far from zero"""
    out = []
    for i in range(n):
        r = gen.rng("C04s", i)
        rng = r.choice([0, 1, 2, 3, 5, 7, 8])
        k = r.choice([-20, -20, -16, -12, -5, 3, 8, 12])
        base = r.choice([0, 0, 1, -1, 37, -37]) if k < 0 else 0
        lo = r.randint(-9, 9)
        s = Session(max(rng, 1) * (2 ** -k if k < 0 else 1))
        rows = gen.table(r, r.randint(1, 4), r.randint(1, 8), lo, lo + rng)
        x = r.randrange(len(rows))
        rows[x] = rows[x][:6] + r.sample([lo, lo + rng], 2)
        rows = [[repr(base + v * 2.0 ** k) for v in x] for x in rows]
        s.file("a", "".join(",".join(x) + "\n" for x in rows), kind="opaque").load("a", "a")
        if r.random() < 0.3:
            s.group("a", 8, "euclidean")
        s.norm("a").obs()
        if r.random() < 0.5 and s.G < 40000:           # the products have to fit in 32 bits
            s.norm("a").obs()
        out.append(s)
    return out


def extreme(n):
    """values near the ends of what a number can be, and ranges beyond that"""
    out = []
    for i in range(n):
        r = gen.rng("C04e", i)
        s = Session(1, r.choice([1021, 1021, 1020, 1000, 512, 60, -60, -500, -1000, -1023]))
        lo, hi = r.randint(-7, 0), r.randint(0, 7)
        rows = gen.table(r, r.randint(1, 4), r.randint(1, 8), lo, hi)
        for v in (lo, hi):
            rows[r.randrange(len(rows))].append(v)
        s.table("a", rows).load("a", "a").norm("a", max(hi - lo, 1)).obs()
        if r.random() < 0.5:
            s.norm("a", max(hi - lo, 1)).obs()
        out.append(s)
    return out


def run(check):
    out = scaled(check.pick(300, 3000)) + extreme(check.pick(100, 1000))
    for i in range(check.pick(1000, 8000)):
        r = gen.rng("C04", i)
        rng = r.choice([0, 1, 2, 3, 5, 7, 8, 10, 11, 12, 17, 30, 60])
        s = Session(max(rng, 1) * r.choice([1, 1, 2]))
        lo = r.randint(-40, 40)
        rows = gen.table(r, r.randint(1, 4), r.randint(1, 8), lo, lo + rng)
        if rng:
            x = r.randrange(len(rows))          # both extremes occur
            rows[x].insert(r.randint(0, len(rows[x])), lo)
            x = r.randrange(len(rows))
            rows[x].insert(r.randint(0, len(rows[x])), lo + rng)
        else:
            rows = [[lo] * len(x) for x in rows]
        if r.random() < 0.3:
            rows.insert(r.randint(0, len(rows)), [])
        named = r.random() < 0.4
        names = ["n%d" % j for j in range(len(rows))]
        s.table("a", rows, names=names if named else None)
        # values that are not selected must not influence the normalization
        if r.random() < 0.3 and not named:
            s.file("a", "".join(",".join(["100"] + [str(v) for v in x]) + "\n" for x in rows) + "500,600\n")
            s.load("a", "a", ",", len(rows), 1)
        else:
            s.load("a", "a", ",", named=named)
        s.table("b", [[0, 5], [1]]).load("b", "b")
        if r.random() < 0.5 and gen.maxlen(rows) >= 2:
            s.group("a", r.choice([0, 1, 8, 40]), r.choice(gen.ALLDIST))
        s.norm("a").obs()
        for _ in range(r.randint(0, 2)):
            s.norm("a")
        s.obs()
        if r.random() < 0.2:
            s.norm("zz").obs()
        out.append(s)
    for i in range(check.pick(20, 200)):
        r = gen.rng("C04large", i)
        rng = r.choice([1, 7, 12, 60])
        s = Session(rng)
        lo = r.randint(-40, 40)
        n, m = r.choice([(r.randint(100, 400), 3), (2, r.randint(100, 400)), (30, 30)])
        rows = gen.table(r, n, m, lo, lo + rng)
        for v in (lo, lo + rng):
            x = r.choice([r.randrange(n), n - 1])
            rows[x][r.choice([-1, r.randrange(len(rows[x]))])] = v
        if gen.values(rows) and max(gen.values(rows)) - min(gen.values(rows)) == rng:
            s.table("a", rows).load("a", "a").norm("a").obs()
            out.append(s)
    s = Session(1)
    s.file("e", "").load("e", "e").norm("e").obs()
    out.append(s)
    check.validate(out)
