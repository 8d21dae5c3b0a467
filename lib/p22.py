"""C22: damaged group files and extreme arguments."""
from . import gen
from .core import Session

TOP, LOW = 2147483647, -2147483648
WORDS = ["", "0", "1", "-1", "2", "3", "7", "100", "2147483647", "2147483648", "-2147483648", "99999999999999999999",
         "nan", "inf", "1e400", "x", "0x1", "1.5", "+1", "euclidean", "manhattan", "cosine", "euclidean_dtw", "\0"]


def thr(r):
    return r.choice([0, 2, 8, 24, 80])


def use(r, s, n, rows):
    x = gen.sub(r, rows, 2)
    if x:
        s.best(n, "a", *x)
        s.kbest(2, 3, n, "a", *x)


def damage(r, s, bin):
    src = "fg" if bin else "fo"
    if bin:
        kind = r.choice(["byte"] * 5 + ["insert", "erase", "erase", "twice"])
    else:
        kind = r.choice(["byte"] * 3 + ["word"] * 5 + ["insert", "erase", "twice", "dropline", "dupline", "swapline"])
    at = r.choice([r.randrange(1 << 30), r.randrange(40)])
    chars = "".join(map(chr, range(256))) if bin else "0123456789 -\n.,xe\t"
    arg = {"byte": r.choice(chars), "insert": "".join(r.choice(chars) for _ in range(r.randint(1, 3))),
           "erase": r.choice([1, 1, 2, 5]), "word": r.choice(WORDS), "swapline": r.randrange(1 << 30)}.get(kind, 0)
    s.damage(src, "x", kind, at, arg)


def files(r):
    s = Session(1)
    rows = gen.table(r, r.randint(1, 3), r.choice([2, 3, 4, 5, 8]), -6, 6)
    s.table("t", rows).load("a", "t").load("b", "t").load("e", "t").ratio(*r.choice(gen.RATIOS))
    s.group("a", thr(r), r.choice(gen.ORDERED), 1, r.random() < 0.3)
    s.group("b", thr(r), r.choice(gen.ORDERED))
    s.saveg("a", "fg").saveo("a", "fo")
    bin = r.random() < 0.4
    for _ in range(12):
        damage(r, s, bin)
        n = r.choice(["b", "b", "e"])
        (s.loadg if bin == (r.random() < 0.95) else s.loado)(n, "x")
        if n == "b":
            use(r, s, n, rows)
    return s.obs()


def ratio(r, s):
    s.ratio(*r.choice([(0, 0, "nan"), (0, 0, "-nan"), (-1, 1, "-inf"), (-1, 1, "-1"), (-1, 1000, "-1e-9"), (-1, 1, "-1e308"),
                       (1, 1, "inf"), (1, 1, "1e308"), (1, 1, "1e10"), (5, 1, "5"), (1, 1, "1.0000000001"),
                       (0, 1, "1e-320"), (0, 1, "-0.0"), (0, 1, "0"), (1, 2, "0.5")]))


def arguments(r):
    s = Session(1)
    rows = [[60 * v for v in x] for x in gen.table(r, r.randint(1, 3), r.randint(2, 6), -6, 6)]       # exact averages
    s.table("t", rows).load("a", "t").group("a", 60 * thr(r), r.choice(gen.ORDERED))
    big = [TOP, TOP - 1, 1 << 30, 1000000, 65536]
    ends = [LOW, LOW + 1, TOP, TOP - 1, -2, -1, 0, 1, 2, 3]
    for _ in range(8):
        k = r.randrange(9)
        x = gen.sub(r, rows, 2) or (0, -1, -1)
        odd = (r.choice([0, 0, LOW, TOP, -1]), r.choice(ends), r.choice(ends))
        if k == 0:
            ratio(r, s)
        elif k == 1:
            s.kbest(r.choice([1, 2, 65536]), r.choice(big[:4]), "a", "a", *x)
        elif k == 2:
            s.kbest(r.choice(big[:3]), r.choice([TOP, 5, LOW]), "a", "a", *x) if r.random() < 0.5 else s.kbest(r.choice([LOW, -1, 0]), r.choice(big), "a", "a", *x)
        elif k == 3:
            s.brute(r.choice(big + [LOW, 0]), "a", "a", *x, r.choice(gen.ORDERED))
        elif k == 4:
            s.prep("a", r.choice(big + [LOW, 0, 1, 2])).paa(r.choice(big + [1, LOW]), "a", "a", *x, r.choice(gen.ORDERED))
        elif k == 5:
            s.ts("a", *odd).best("a", "a", *odd)
        elif k == 6:
            s.kbest(1, 2, "a", "a", *odd).brute(1, "a", "a", *odd)
        elif k == 7:
            s.pair(r.choice(["dist", "match"]), ("a",) + odd, ("a",) + tuple(x), r.choice(gen.ORDERED), True)
        else:
            s.load("z", "t", ",", r.choice([TOP, LOW, -1, 1]), r.choice([0, 0, 1, TOP, TOP - 1])).unload("z")
        if r.random() < 0.3:
            s.best("a", "a", *x)
    return s.obs()


def run(check):
    check.validate([files(gen.rng("C22f", i)) for i in range(check.pick(1500, 5000))] +
                   [arguments(gen.rng("C22a", i)) for i in range(check.pick(1500, 5000))])
