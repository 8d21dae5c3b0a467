"""C02: independent datasets."""
from . import gen
from . import walks
from .world import World

WEIGHTS = [("load", 6), ("unload", 4), ("unloadall", 0.7), ("norm", 2), ("group", 3), ("prep", 2), ("query", 3),
           ("save", 0.7), ("restore", 0.7), ("rewrite", 1), ("empties", 0.4), ("fail", 0.5)]


NAMES = ["a", "b", "A", "aa", "ab", "a b", "a.b", "", "0", "-1", "a/b", "dataset", "x" * 70, "B", "b1", "b10", "b2", " a", "a ", "\u00e9"]


def crowd(r):
    """many datasets with names that resemble each other"""
    w = World(r, names=tuple(r.sample(NAMES, r.randint(8, len(NAMES)))), ntables=4, maxl=4, nrows=2)
    for _ in range(len(w.names)):
        w.load()
        if r.random() < 0.6:
            w.step([("group", 2), ("prep", 1), ("norm", 1)])
    w.s.obs()
    for _ in range(10):
        w.step(WEIGHTS)
        if r.random() < 0.5:
            w.s.obs()
    w.s.obs()
    return w.s


APART = [x for x in WEIGHTS if x[0] not in ("unloadall", "fail")] + [("fail", 1)]


def apart(r):
    """two API objects at the same time, with datasets of the same names"""
    one = World(r, ntables=2, maxl=5, nrows=2)
    two = World(r, names=("2:a", "2:b", "2:c"), ntables=2, maxl=5, nrows=2, s=one.s, files="uh")
    for w in (one, two):
        w.load()
    for _ in range(r.randint(10, 16)):
        w = r.choice([one, two])
        w.step(APART)
        if r.random() < 0.3:
            r.choice([one, two]).query(("paa", "best", "kbest", "brute"))
        if r.random() < 0.07:
            w.s.drop(two.ds, r.random() < 0.6)
            two.ds = {}
        w.s.obs()
    one.probe()
    two.probe()
    one.s.obs()
    return one.s


def run(check):
    out = [crowd(gen.rng("C02crowd", i)) for i in range(check.pick(30, 300))]
    for i in range(check.pick(250, 2500)):
        r = gen.rng("C02", i)
        w = World(r)
        w.load()
        for _ in range(r.randint(10, 20)):
            w.step(WEIGHTS)
            w.s.obs()
            if r.random() < 0.4:
                w.query(("paa", "best", "ts", "brute"))
        out.append(w.s)
    out += [apart(gen.rng("C02apart", i)) for i in range(check.pick(100, 1000))]
    check.validate(out)
    # the operations that change something, in every state of the model
    check.validate(walks.sessions(check, lambda op: op[3] and op[0] not in walks.QUERIES, check.pick(5000, 1 << 30)))
