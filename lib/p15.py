"""C15: saved groups load back."""
from . import gen
from . import walks
from .core import Session
from .p11 import thr


def queries(r, s, t, rows, n=2):
    for _ in range(n):
        x = gen.sub(r, rows, 2)
        if x and r.random() < 0.5:
            s.best(t, "a", *x)
        elif x:
            k = r.choice([1, 2, 4])
            s.kbest(k, k + r.choice([0, 2]), t, "a", *x)


def large(r, i):
    """many groups, large groups, many lengths"""
    s = Session(1)
    rows = (gen.table(r, r.randint(40, 150), 3, 0, r.choice([2, 30])) if i % 2 else gen.table(r, r.randint(1, 3), r.randint(15, 24), 0, r.choice([2, 30])))
    s.table("t", rows).load("a", "t").load("b", "t").ratio(*r.choice(gen.RATIOS))
    s.group("a", thr(r), r.choice(gen.ORDERED), 1, r.random() < 0.1)
    for k in ("g", "o"):
        (s.saveg if k == "g" else s.saveo)("a", "f" + k)
        (s.loadg if k == "g" else s.loado)("b", "f" + k)
        queries(r, s, "b", [x[:9] for x in rows], 1)
    return s.sizes_only("b", "sizes").obs()


def run(check):
    out = [large(gen.rng("C15large", i), i) for i in range(check.pick(12, 120))]
    for i in range(check.pick(700, 5000)):
        r = gen.rng("C15", i)
        s = Session(1)
        rows = gen.table(r, r.randint(1, 4), r.randint(2, 7 if r.random() < 0.9 else 13), -6, 6)
        if r.random() < 0.15:
            rows.insert(r.randint(0, len(rows)), [])
        s.table("t", rows).load("a", "t").ratio(*r.choice(gen.RATIOS))
        dist = r.choice(gen.ALLDIST if r.random() < 0.3 else gen.ORDERED)
        t8 = thr(r)
        if r.random() < 0.2:                          # a threshold with many digits
            s.group("a", -77777777, dist, 1, r.random() < 0.2, thr=r.uniform(0, 4))
        else:
            s.group("a", t8, dist, 1, r.random() < 0.2)
        if r.random() < 0.3:
            s.sizes_only("a", "sizes").loadg("a", "sizes").loado("a", "sizes")
        kinds = ["g", "o"]
        r.shuffle(kinds)
        for k in kinds[:r.randint(1, 2)]:
            p = "f" + k
            (s.saveg if k == "g" else s.saveo)("a", p)
            load = s.loadg if k == "g" else s.loado
            s.load("b" + k, "t")
            load("b" + k, p)
            queries(r, s, "b" + k, rows)
            # over other groups of the same dataset
            if r.random() < 0.5:
                s.group("b" + k, thr(r), r.choice(gen.ORDERED), 1, r.random() < 0.3)
                load("b" + k, p)
                queries(r, s, "b" + k, rows, 1)
            # save what was loaded, in either format
            k2 = r.choice(["g", "o"])
            (s.saveg if k2 == "g" else s.saveo)("b" + k, "second" + k)
            (s.loadg if k2 == "g" else s.loado)("a", "second" + k)
            queries(r, s, "a", rows, 1)
            if r.random() < 0.2:
                s.sizes_only("b" + k, "sizes" + k)
            if r.random() < 0.3:
                s.unload("b" + k).load("b" + k, "t").obs()
                load("b" + k, p)
            # other dimensions, or members that do not exist
            bad = [list(x) for x in rows]
            mode = r.randrange(5)
            if mode == 0:
                bad.append([1, 2])
            elif mode == 1:
                bad = bad[:-1]
            elif mode == 2:
                j = max(range(len(bad)), key=lambda j: len(bad[j]))
                bad[j] = bad[j] + [0]
            elif mode == 3:
                j = min(range(len(bad)), key=lambda j: len(bad[j]))
                bad[j] = bad[j][:-1]
            else:
                bad = [[v + 1 for v in x] for x in bad]        # same shape, other values
            s.table("bad" + k, bad).load("c" + k, "bad" + k)
            if r.random() < 0.4 and gen.maxlen(bad) >= 2:
                s.group("c" + k, thr(r), "euclidean")
            load("c" + k, p)
            s.obs()
        out.append(s)
    check.validate(out)
    # saving and loading in every state of the model
    check.validate(walks.sessions(check, lambda op: op[0] in ("save", "restore"), check.pick(3000, 1 << 30)))
