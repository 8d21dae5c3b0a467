"""C01: loading tables."""
from . import gen
from .core import Session

SEPS = [",", " ", ";", "|", ", ", ",;", " \t", "\t"]


def number(r):
    k = r.random()
    if k < 0.55:
        return str(r.randint(-99, 99))
    if k < 0.75:
        return "%s%d.%02d" % (r.choice(["", "-", "+"]), r.randint(0, 99), r.randint(0, 99))
    if k < 0.82:
        return r.choice(["", "-"]) + ".%d" % r.randint(0, 9)
    if k < 0.88:
        return "%d." % r.randint(0, 99)
    if k < 0.94:
        return "%d%s%s" % (r.randint(-9, 9), r.choice("eE"), r.choice(["0", "1", "+2", "-1", "-2"]))
    return r.choice(["0", "-0", "007", "+5", "1.50", "00.25"])


JUNK = ["abc", "x1", "1abc", "2x", "3-4", "1.2.3", "5e", "4 5", "-", ".", "+", "e5", "--1", "N/A", "1e999", "_"]
NAMES = ["alpha", "b", "ts1", "42", "x.y", "A-B", "name", "7.5"]


def content(r, seps, named, ncols, nrows, junk, tails=0.08):
    lines = []
    for _ in range(nrows):
        k = r.random()
        n = ncols if k < 0.5 else r.randint(0, ncols) if k < 0.9 else 0
        cells = [r.choice(NAMES) if j == 0 and named and r.random() < 0.9 else number(r) for j in range(n)]
        line = ""
        for j, c in enumerate(cells):
            if j or r.random() < 0.1:
                line += r.choice(seps) * (1 if r.random() < 0.85 else r.randint(2, 3))
            line += c
        if r.random() < 0.2 and seps:
            line += r.choice(seps)
        if r.random() < tails and (tails == 0.08 or cells and line.endswith(cells[-1])):
            line += r.choice(["\r", " "])
        lines.append(line)
    if junk and lines:
        i = r.randrange(len(lines))
        parts = lines[i].split(seps[0]) if seps else [lines[i]]
        parts[r.randrange(len(parts))] = r.choice(JUNK)
        lines[i] = (seps[0] if seps else "").join(parts)
    return "\n".join(lines) + ("\n" if r.random() < 0.8 and lines else "")


def sessions(n):
    out = []
    for i in range(n):
        r = gen.rng("C01", i)
        s = Session(100)
        seps = r.choice(SEPS)
        ncols, nrows = r.randint(1, 7), r.randint(0, 6)
        c = content(r, seps, r.random() < 0.5, ncols, nrows, r.random() < 0.2)
        s.file("f", c)
        for j in range(4):
            n = "d%d" % j
            named = r.random() < 0.4
            s.load(n, "f", seps if r.random() < 0.8 else r.choice(SEPS), r.choice([0, 0, -1, 1, 2, 3, nrows, nrows + 2]),
                   r.choice([0, 0, 0, 1, 1, 2, 3, ncols, ncols + 1, -1] if r.random() < 0.7 else [0]), named)
            for _ in range(2):
                x, b = r.randint(-1, nrows), r.randint(-1, ncols)
                e = r.randint(-1, ncols + 1)
                s.ts(n, x, b, e).tsname(n, r.randint(-1, nrows)).tslen(n, r.randint(-1, nrows))
            s.ts(n, r.randint(0, max(0, nrows - 1)))
        s.load("e", "nofile")
        s.obs()
        out.append(s)
    return out


def exhaustive():
    """all options on a fixed set of small files"""
    out = []
    files = ["1,2,3\n4,5\n\n6,7,8,9\n", "a,1,2\nb,3\nc,4,5,6\n", "1 2,,3\n ,4\n", "a,1,x\nb,2,3\n", "", "\n", "5\n", "x\n"]
    for c in files:
        for seps in (",", " ,"):
            s = Session(100)
            s.file("f", c)
            k = 0
            for maxrow in (-1, 0, 1, 2, 3, 9):
                for startcol in (-1, 0, 1, 2, 5):
                    for named in (False, True):
                        n = "d%d" % k
                        k += 1
                        s.load(n, "f", seps, maxrow, startcol, named)
                        for x in (-1, 0, 1, 3):
                            s.tslen(n, x).tsname(n, x).ts(n, x, 0, 1).ts(n, x, 1, 3)
                        s.unload(n)
            s.obs()
            out.append(s)
    return out


def large(n):
    """many rows, long rows, long cells"""
    out = []
    for i in range(n):
        r = gen.rng("C01large", i)
        s = Session(100)
        seps = r.choice([",", " ", ",;"])
        k = i % 5
        ncols, nrows = ((r.randint(200, 400), r.randint(2, 6)) if k == 0 else (r.randint(2, 4), r.randint(200, 500)) if k == 1
                        else (r.randint(20, 60), r.randint(20, 60)) if k == 2 else (r.randint(1, 3), r.randint(1, 300)) if k == 3
                        else (r.randint(600, 1500), r.randint(1, 3)) if r.random() < 0.5 else (r.randint(1, 2), r.randint(600, 1500)))
        named = r.random() < 0.4
        lines = content(r, seps, named, ncols, nrows, r.random() < 0.1, 0.05)  # nearly all of these can be read
        if r.random() < 0.3:                      # the last row is the longest one
            lines = lines.rstrip("\n") + "\n" + seps[0].join("%d" % (j % 90) for j in range(ncols + r.randint(1, 70)))
        s.file("f", lines)
        for j, c in enumerate(r.sample(["plain", "rows", "col"], 2)):
            n = "d%d" % j
            s.load(n, "f", seps, r.randint(1, nrows + 1) if c == "rows" else 0, r.choice([1, ncols // 2]) if c == "col" else 0, named)
            for _ in range(4):
                x, b = r.randint(0, nrows), r.randint(0, ncols)
                s.ts(n, x, b, r.randint(b, ncols + 1)).tsname(n, x).tslen(n, x)
        s.obs()
        out.append(s)
    return out


def again(n):
    """one table object that has read another file before"""
    out = []
    for i in range(n):
        r = gen.rng("C01again", i)
        s = Session(100)
        seps = r.choice(SEPS)
        for p in ("f", "g", "h"):
            s.file(p, content(r, seps, r.random() < 0.5, r.randint(1, 6), r.randint(0, 5), r.random() < 0.15))
        for _ in range(6):
            s.reload(r.choice(["f", "g", "h", "none"]), r.choice(["f", "g", "h"]), seps, r.choice([0, 0, 2]), r.choice([0, 0, 1, -1]),
                     r.random() < 0.5, r.random() < 0.5)
        out.append(s)
    return out


def run(check):
    check.validate(again(check.pick(200, 2000)) + exhaustive() + sessions(check.pick(1500, 9000)) + large(check.pick(40, 250)))
