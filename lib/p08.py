"""C08: grouping partitions the sub-sequences."""
from . import gen
from .core import Session


def group_sessions(key, n, dists, G=1, maxl=9, hi=6):
    out = []
    for i in range(n):
        r = gen.rng(key, i)
        s = Session(G, r.choice(gen.WIDE) if G == 1 else 0)
        rows = gen.table(r, r.randint(1, 5), r.randint(2, maxl), -hi, hi)
        if r.random() < 0.15:
            rows.insert(r.randint(0, len(rows)), [])
        s.table("a", rows).load("a", "a")
        for _ in range(r.randint(1, 3)):
            whole = r.random() < 0.2
            s.group("a", r.choice([0, 1, 2, 4, 8, 12, 16, 24, 32, 48, 64, 128]), r.choice(dists),
                    r.choice([1, 1, 1, 2, 3]), whole, off=r.choice([0, 0, 1, 7]))
        s.obs()
        if r.random() < 0.2:
            s.group("a", 8, "nodist").group("a", 8, "euclidean", 0).group("zz", 8).obs()
        out.append(s)
    return out


def large(key, n, dists):
    """many series or long ones: large groups and many groups"""
    out = []
    for i in range(n):
        r = gen.rng(key + "large", i)
        s = Session(1)
        if i % 3 == 0:
            rows = gen.table(r, r.randint(90, 330), 3, 0, r.choice([1, 3, 9]))
        elif i % 3 == 1:
            rows = gen.table(r, 2, r.randint(25, 40), 0, r.choice([1, 4]))
        else:
            rows = gen.table(r, r.randint(10, 20), 9, 0, 2)
        if i == 0:                            # many groups
            rows = [[r.randint(-99, 99) for _ in range(3)] for _ in range(330)]
            s.table("a", rows).load("a", "a").group("a", 0, "euclidean", 1)
            out.append(s)
            continue
        if i == 1:                            # long
            rows = [[r.randint(0, 3) for _ in range(n)] for n in (150, 20, 140)]
            s.table("a", rows).load("a", "a").group("a", 4000, r.choice(["manhattan", "chebyshev"]), r.choice([1, 2]))
            s.group("a", 8, r.choice(dists), 1, True)
            out.append(s)
            continue
        s.table("a", rows).load("a", "a")
        s.group("a", r.choice([0, 4, 8, 24]), r.choice(dists), r.choice([1, 1, 2]), r.random() < 0.2)
        out.append(s)
    return out


def model(check, invariants):
    """the definitions of the specification against each other"""
    check.model("MCGroup", consts=dict(Dom="{0, 2}", R=2, N=check.pick(2, 3), Thr="{0, 8, 16}", Tenths="{0, 5}"), invariants=invariants)


def run(check):
    model(check, "Groups ZeroThreshold")
    check.validate(group_sessions("C08", check.pick(700, 6000), gen.ALLDIST) + large("C08", check.pick(9, 60), gen.ALLDIST))
