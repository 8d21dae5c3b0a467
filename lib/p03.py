"""C03: failed operations change nothing."""
from . import gen
from . import walks
from .world import World


def run(check):
    out = []
    for i in range(check.pick(250, 2500)):
        r = gen.rng("C03", i)
        w = World(r)
        for _ in range(2):
            w.load()
        for _ in range(r.randint(2, 6)):
            w.step([("group", 4), ("prep", 2), ("norm", 1), ("save", 3)])
        w.s.obs()
        for _ in range(r.randint(5, 9)):
            w.fail()
            w.s.obs()
            if r.random() < 0.5:
                w.probe()
            else:
                w.query()
            if r.random() < 0.25:
                w.step([("group", 2), ("prep", 1), ("norm", 1), ("save", 2), ("restore", 2), ("load", 1), ("unload", 1),
                        ("rewrite", 1)])
                w.s.obs()
        out.append(w.s)
    # every kind of failure against a dataset that has everything a failure could take away
    for i in range(check.pick(2, 12) * len(World.EVERY)):
        r = gen.rng("C03each", i)
        w = World(r, names=("a", "b"), ntables=2)
        w.load("a")
        w.load("b")
        for n in ("a", "b"):
            if n == "a" or r.random() < 0.3:
                d = r.choice(w.dists)
                w.s.group(n, r.choice([0, 2, 8]), d)
                w.ds[n]["grp"] = d
                w.s.prep(n, 2)
                w.ds[n]["paa"] = 2
        w.save()
        w.s.obs()
        for _ in range(2):
            w.fail("a", [World.EVERY[i % len(World.EVERY)]])
            w.s.obs()
            for n in ("a", "b"):
                x = w.sub("a", 2)
                if w.ds[n]["grp"] and x:
                    w.s.paa(2, n, "a", *x).best(n, "a", *x).kbest(2, 3, n, "a", *x)
            w.s.obs()
        out.append(w.s)
    check.validate(out)
    # the failing operations, in every state of the model
    check.validate(walks.sessions(check, lambda op: not op[3], check.pick(6000, 1 << 30)))
