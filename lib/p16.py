"""C16: interrupted and failed saves, at every byte."""
from . import gen
from .core import Session, build_driver, run_sessions, to_trace


def base(r, small):
    s = Session(1)
    rows = gen.table(r, r.randint(1, 2 if small else 3), r.randint(2, 3) if small else r.choice([4, 5, 12]), -6, 6)
    if not small:
        rows = rows[:2]
    s.table("t", rows, names=["n%d" % j for j in range(len(rows))])
    s.load("a", "t", ",", 0, 0, True).load("b", "t", ",", 0, 0, True).load("e", "t", ",", 0, 0, True)
    whole = r.random() < 0.3
    s.group("a", r.choice([2, 8, 16, 48]), r.choice(gen.ORDERED), 1, whole)
    s.group("b", r.choice([0, 4, 24]), r.choice(gen.ORDERED), 1, False)
    s.saveg("a", "fg").saveo("a", "fo").saved("a", "fd")
    return s


def big(r):
    """files larger than the buffers they are written through"""
    s = Session(1)
    rows = gen.table(r, 12, 15, -999, 999)
    s.table("t", rows, names=["n%d" % j for j in range(len(rows))]).load("a", "t", ",", 0, 0, True)
    s.table("w", rows * 60, names=["n%d" % j for j in range(60 * len(rows))]).load("w", "w", ",", 0, 0, True)
    s.load("b", "t", ",", 0, 0, True).load("e", "t", ",", 0, 0, True)
    s.group("a", r.choice([8, 800]), r.choice(gen.ORDERED)).group("b", 16000)
    return s.saveg("a", "fg").saveo("a", "fo").saved("w", "fd")


def plan(i, n):
    return base(gen.rng("C16", i), i % 2 == 0) if i < n else big(gen.rng("C16big", i))


def run(check):
    n = check.pick(8, 40)
    bigs = check.pick(2, 8)
    plans = [plan(i, n) for i in range(n + bigs)]
    prog = build_driver()
    # first pass: how long the complete files are
    got, fails = run_sessions(prog, plans, check.work)
    for f in fails:
        check.crash(prog, plans, f)
    out = []
    for i in range(n + bigs):
        t, _, _ = to_trace(plans[i], got[i])
        size = {e["op"]: e["size"] for e in t["ev"] if e["op"] in ("saveg", "saveo", "saved") and e["ok"]}
        r = gen.rng("C16cuts", i)
        for op, src, load in (("saveg", "fg", "loadg"), ("saveo", "fo", "loado"), ("saved", "fd", None)):
            if op not in size:
                continue
            cuts = list(range(size[op]))
            if i >= n:
                cuts = sorted({c + d for c in range(0, size[op], 4096) for d in (-1, 0, 1)} | set(r.sample(cuts, 10)) |
                              {size[op] - d for d in (1, 2, 3, 9)})
                cuts = [c for c in cuts if 0 <= c < size[op]]
                cuts = sorted(r.sample(cuts, min(len(cuts), check.pick(40, 1000))))
            step = max(1, check.pick(120, 100000))
            if len(cuts) > step:                    # always the ends, and a sample of the middle
                mid = r.sample(cuts[30:-40], step - 70)
                cuts = cuts[:30] + sorted(mid) + cuts[-40:]
            for part in range(0, len(cuts), 40):
                s = plan(i, n)
                data = "w" if op == "saved" and i >= n else "a"
                for c in cuts[part:part + 40]:
                    if load:
                        s.cut(src, "x", c)
                        getattr(s, load)("b", "x")           # over other groups
                        if c % 7 == 0:
                            getattr(s, load)("e", "x")       # over no groups
                    s.save(op, data, "y", limit=c)
                    if load and c % 3 == 0:
                        getattr(s, load)("b", "y")
                s.save(op, data, "y", limit=size[op])        # just enough
                if load:
                    getattr(s, load)("b", "y")
                s.obs()
                out.append(s)
    check.validate(out)
