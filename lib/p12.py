"""C12: k best matches."""
from . import gen
from .core import Session
from .p08 import model
from .p11 import SCALES, base, huge, large, quotients, thr


def run(check):
    model(check, "KNearest")

    def quotient(r, s, dist, total, q, x, b, e):
        k = r.choice([1, 1, 2, 3, 5, 10, total + 2])
        s.kbest(k, k + r.choice([0, 0, 1, 2, 5, total]), "a", q, x, b, e)
    out = quotients("C12", check.pick(120, 1200), quotient)
    for i in range(check.pick(500, 5000)):
        r = gen.rng("C12", i)
        s = Session(1, r.choice(SCALES))
        rows, other = base(r, s, hi=r.choice([8, 20, 20]), maxl=7, nrows=3)
        total = sum(len(x) * (len(x) - 1) // 2 for x in rows)
        if r.random() < 0.1:
            s.kbest(1, 1, "a", "b", 0)
        s.group("a", thr(r), r.choice(["euclidean", "euclidean", "manhattan", "chebyshev"]), 1, r.random() < 0.15)
        for _ in range(r.randint(3, 6)):
            s.ratio(*r.choice(gen.RATIOS))
            q, qr = r.choice([("a", rows), ("b", other)])
            x, b, e = gen.sub(r, qr, 1 if r.random() < 0.1 else 2) or (0, -1, -1)
            k = r.choice([1, 1, 2, 3, 5, 10, total, total + 2])
            ke = k + r.choice([0, 0, 1, 2, 5, 10, total])
            s.kbest(max(k, 1), max(ke, 1), "a", q, x, b, e)
        if r.random() < 0.25:
            s.kbest(0, 3, "a", "b", 0).kbest(-1, 3, "a", "b", 0).kbest(3, 2, "a", "b", 0)
            s.kbest(1, 1, "a", "zz", 0).kbest(1, 1, "zz", "a", 0).kbest(1, 1, "a", "b", 0, 3, 1)
        out.append(s)
    for i in range(check.pick(24, 240)):
        r = gen.rng("C12large", i)
        s = Session(1)
        rows = large(r, s, i)
        for _ in range(2):
            s.ratio(*r.choice(gen.RATIOS))
            x, b, e = gen.sub(r, rows, 2)
            k = r.choice([1, 5, 20, 60, 150, 400])
            s.kbest(k, k + r.choice([0, 0, 3, 30, 200]), "a", "a", x, b, min(e, b + 12))
        out.append(s)

    def many(r, s, d, x, b, e):
        k = r.choice([1, 3, 40, 120])
        s.kbest(k, k + r.choice([0, 3, 30, 130]), "a", "a", x, b, e)
    out += huge("C12", check.pick(6, 60), many)
    check.validate(out)
