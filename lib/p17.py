"""C17: saved datasets."""
from . import gen
from .core import Session


def value(r):
    k = r.random()
    if k < 0.4:
        return str(r.randint(-999, 999))
    if k < 0.7:
        return repr(r.uniform(-100, 100))
    if k < 0.8:
        return repr(r.uniform(-1, 1) * 10 ** r.randint(-12, 5))
    if k < 0.9:
        return repr(1 / r.randint(1, 99))
    return r.choice(["0", "-0", "1e-7", "123456789", "0.1", "1e-300", "4e-320", "-3e-308", "1.7e308", "16777217", "-0.000123456789"])


def run(check):
    out = []
    for i in range(check.pick(900, 6000)):
        r = gen.rng("C17", i)
        s = Session(12)
        named = r.random() < 0.5
        sep = r.choice([",", ";", " ", "|", "\t"])
        if r.random() < 0.5:
            rng = r.choice([1, 2, 3, 4, 6, 12])
            rows = gen.table(r, r.randint(1, 4), r.randint(1, 7), 0, rng)
            rows[0] = [0, rng] + rows[0][:5]
            exact = True
        else:
            rows = [[value(r) for _ in range(r.randint(1, 6))] for _ in range(r.randint(1, 4))]
            exact = False
        if r.random() < 0.2:
            rows.insert(r.randint(0, len(rows)), [])
        names = ["n%d" % r.randint(0, 99) for _ in rows]
        text = "".join(sep.join(([names[j]] if named else []) + [str(v) for v in x]) + "\n" for j, x in enumerate(rows))
        if exact:
            s.file("f", text)
        else:
            # values outside the grid: the specification takes the first loading as given
            s.file("f", text, kind="opaque")
        s.load("a", "f", sep, 0, 0, named)
        if r.random() < (0.7 if exact else 0.4):
            s.norm("a")
        out.append(s)
        sep2 = r.choice([",", ";", " ", "|", "\t"])
        s.saved("a", "g", sep2).obs()
        s.load("b", "g", sep2, 0, 0, named).obs()
        if r.random() < 0.4:
            s.saved("b", "h", ",").load("c", "h", ",", 0, 0, named)
        if r.random() < 0.3:
            s.unload("a").load("a", "g", sep2, 0, 0, named).obs()
        if r.random() < 0.3:                  # over a longer or a shorter file
            s.file("o", "".join("7,8,9\n" for _ in range(r.choice([1, 50])))).load("d", "o").saved("a", "o", sep2)
            s.load("e", "o", sep2, 0, 0, named).saved("d", "g", sep2).load("f", "g", sep2).obs()
        if r.random() < 0.2:
            s.saved("zz", "g", ",").obs().saved("a", "nodir/x", ",", dir=False).obs()
    for i in range(check.pick(16, 160)):
        r = gen.rng("C17large", i)
        s = Session(1)
        n, m = r.choice([(r.randint(100, 400), 4), (3, r.randint(200, 500)), (40, 40)])
        named = r.random() < 0.5
        rows = gen.table(r, n, m, -99999, 99999)
        s.table("f", rows, names=["series number %d" % j for j in range(n)] if named else None)
        s.load("a", "f", ",", 0, 0, named).saved("a", "g", ",").load("b", "g", ",", 0, 0, named)
        if r.random() < 0.5:
            s.saved("b", "f", ",").load("c", "f", ",", 0, 0, named)
        out.append(s.obs())
    check.validate(out)
