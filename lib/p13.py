"""C13: exhaustive search."""
from . import gen
from .core import Session
from .p08 import model
from .p11 import SCALES, huge, quotients


def sessions(check, n):
    out = []
    for i in range(n):
        r = gen.rng("C13", i)
        s = Session(1, r.choice(SCALES))
        rows = gen.table(r, r.randint(1, 4), r.randint(2, 8), -9, 9)
        other = gen.table(r, r.randint(1, 2), r.randint(1, 10), -9, 9)
        s.table("a.csv", rows).table("b.csv", other).load("a", "a.csv").load("b", "b.csv")
        total = sum(len(x) * (len(x) - 1) // 2 for x in rows)
        for _ in range(r.randint(2, 4)):
            s.ratio(*r.choice(gen.RATIOS))
            q, qrows = r.choice([("a", rows), ("b", other)])
            x, b, e = gen.sub(r, qrows)
            k = r.choice([1, 2, 3, 5, max(1, total - 1), max(1, total), total + 3])
            s.brute(k, "a", q, x, b, e, r.choice(gen.ORDERED))
        if r.random() < 0.3:
            bad = r.choice([0, 1, 2, 3, 4])
            if bad == 0:
                s.brute(0, "a", "b", 0)
            elif bad == 1:
                s.brute(-3, "a", "b", 0)
            elif bad == 2:
                s.brute(1, "a", "b", 0, dist="nodist")
            elif bad == 3:
                s.brute(1, "nods", "b", 0)
            else:
                s.brute(1, "a", "b", len(other))
        out.append(s)
    return out


def large(n):
    out = []
    for i in range(n):
        r = gen.rng("C13large", i)
        s = Session(1)
        rows = gen.table(r, r.randint(100, 140), 3, 0, 40) if i % 2 else gen.table(r, 1, r.randint(20, 26), 0, 40)
        s.table("a", rows).load("a", "a")
        x, b, e = gen.sub(r, rows, 2)
        for k in (1, r.choice([5, 100, 300])):
            s.ratio(*r.choice(gen.RATIOS))
            s.brute(k, "a", "a", x, b, min(e, b + 8) if e > 0 else e, r.choice(gen.ORDERED))
        out.append(s)
    return out


def run(check):
    model(check, "Exhaustive")

    def quotient(r, s, dist, total, q, x, b, e):
        s.brute(r.choice([1, 2, 3, 5, max(1, total - 1), total + 3]), "a", q, x, b, e, r.choice([dist, "cosine", "sorensen"]))
    check.validate(sessions(check, check.pick(500, 4000)) + large(check.pick(8, 60)) +
                   huge("C13", check.pick(6, 60), lambda r, s, d, x, b, e: s.brute(r.choice([1, 3, 40, 120]), "a", "a", x, b, e, d)) +
                   quotients("C13", check.pick(120, 1200), quotient))
