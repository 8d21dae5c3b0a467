"""C09: members are near their representative."""
from . import gen
from .core import Session
from .p08 import group_sessions, large, model


def normalized(n):
    """normalized data, grid 12"""
    out = []
    for i in range(n):
        r = gen.rng("C09n", i)
        s = Session(12)
        rng = r.choice([1, 2, 3, 4, 6, 12])
        lo = r.randint(-5, 5)
        rows = gen.table(r, r.randint(1, 4), r.randint(2, 8), lo, lo + rng)
        rows[0] = [lo, lo + rng] + rows[0][:6]
        s.table("a", rows).load("a", "a").norm("a")
        for _ in range(2):
            s.group("a", r.choice([0, 1, 2, 3, 4, 5, 6, 8, 12]), r.choice(gen.ORDERED), 1, r.random() < 0.1)
        out.append(s)
    return out


def boundary():
    """thresholds that sub-sequences hit exactly"""
    out = []
    for dn in gen.ORDERED:
        for k in range(1, 7):
            for thr8 in (16 * k - 1, 16 * k, 16 * k + 1):
                s = Session(1)
                s.table("a", [[0, 0, 0, 0], [k, k, k, k], [-k, -k], [2 * k, 2 * k, 2 * k, 2 * k], [0, 2 * k, 0, 2 * k]])
                s.load("a", "a").group("a", thr8, dn)
                out.append(s)
    return out


def run(check):
    model(check, "Groups ZeroThreshold")
    check.validate(boundary() + group_sessions("C09", check.pick(500, 5000), gen.ORDERED) +
                   normalized(check.pick(150, 1500)) + large("C09", check.pick(6, 40), gen.ORDERED))
