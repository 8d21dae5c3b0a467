"""C24: a history that ends without datasets leaves nothing behind that grows when it is repeated."""
from . import gen, p23
from .core import CheckError, Session
from .world import World

TIMES = 8


def repeat(s):
    body, s.cmds = s.cmds, []
    for k in range(TIMES):
        s.cmds += body
        s.usage(k == 0)
    return s


def quotients(r):
    """distances that keep several totals for every pair of points"""
    s = Session(1)
    rows = [[r.randint(1, 5) for _ in range(r.randint(2, 5))] for _ in range(2)]
    rows.append(list(rows[0]))
    s.table("f", rows).load("a", "f")
    for _ in range(r.randint(1, 4)):
        d, x, y = r.choice(["cosine", "sorensen"]), r.randrange(3), r.randrange(3)
        k = r.choice(["dist", "match", "brute", "one", "plain", "lengths"])
        if k in ("dist", "match"):
            s.pair(k, ("a", x, -1, -1), ("a", y, -1, -1), d, True)
        elif k == "brute":
            s.brute(r.choice([1, 3]), "a", "a", x, dist=d)
        elif k == "one":
            s.pair("dist", ("a", x, 0, 1), ("a", y, 1, 2), d, True)
        elif k == "plain":
            s.pair("dist", ("a", 0, -1, -1), ("a", 2, -1, -1), d, False)
        else:
            s.pair("dist", ("a", x, 0, 1), ("a", y, 0, 2), d, False)
    return repeat(s.unloadall())


def run(check):
    out = []
    for i in range(check.pick(60, 600)):
        out.append(quotients(gen.rng("C24quotients", i)))
    for i in range(check.pick(260, 2600)):
        r = gen.rng("C24", i)
        w = World(r, names=("a", "b"), ntables=2, nrows=r.choice([2, 3]), maxl=r.choice([4, 6]))
        # some histories are about one kind of operation, so that little else hides what it leaves
        w.load()
        kind = r.choice(["mixed", "mixed", "groups", "files", "queries", "failures", "loading"])
        weights = {
            "mixed": [("load", 3), ("unload", 1), ("norm", 1), ("group", 3), ("prep", 2), ("save", 2), ("restore", 2), ("query", 4),
                      ("ratio", 1), ("fail", 3), ("unloadall", 0.5)],
            "groups": [("group", 4), ("norm", 1), ("load", 1), ("prep", 2)],
            "files": [("group", 2), ("save", 3), ("restore", 4), ("load", 2), ("fail", 1)],
            "queries": [("group", 1), ("query", 8), ("prep", 1), ("ratio", 1)],
            "failures": [("fail", 8), ("group", 1), ("load", 1), ("save", 1)],
            "loading": [("load", 4), ("unload", 4), ("unloadall", 1), ("fail", 1), ("prep", 1)],
        }[kind]
        if kind in ("files", "queries"):
            w.group()
        for _ in range(r.randint(3, 9)):
            w.step(weights)
        if r.random() < 0.3:
            for n in sorted(w.ds):
                w.s.unload(n)
        else:
            w.unloadall()
        out.append(repeat(w.s))
    check.validate(out)
    try:
        prog = p23.program()
    except CheckError as e:
        print("note: the bundled search is not checked: %s" % str(e)[:300])
        return
    again = []
    for i in range(check.pick(40, 200)):
        c, e = p23.search(gen.rng("C24search", i))
        again.append([(["again"] + c[1:], dict(e, op="again"))])
    p23.drive(check, prog, again)
