"""C21: the Python module."""
import glob
import os
import sysconfig

from . import gen, p01, walks
from .core import CheckError, HARNESS, REPO, SAN, Session, build
from .world import World

WEIGHTS = [("load", 3), ("unload", 1), ("norm", 1), ("group", 3), ("prep", 2), ("query", 8), ("save", 1), ("restore", 1),
           ("ratio", 1), ("fail", 1), ("rewrite", 0.5)]


def build_py():
    src = sorted(glob.glob(os.path.join(REPO, "pygenex", "**", "*.cpp"), recursive=True))
    if not src:
        raise CheckError("no sources of the module")
    inc = "-I" + sysconfig.get_paths()["include"]
    v = "%d%d" % __import__("sys").version_info[:2]
    flags = ("-O1", "-g") + tuple(SAN) + (inc,)
    return build("py", flags, ("py.cpp", "bounds.cpp", "series.cpp", "parts.cpp", "schedstub.cpp"), stubs=("bounds.cpp", "series.cpp", "parts.cpp"),
                 link=("-lboost_python" + v, "-lpython%d.%d" % __import__("sys").version_info[:2]),
                 more=tuple((s, ("-include", os.path.join(HARNESS, "pyprelude.hpp"))) for s in src))


def programs():
    build_py()


def pairs(r):
    """distances, matchings and reading"""
    s = Session(1)
    rows = gen.table(r, r.randint(2, 3), r.randint(2, 7), -5, 5)
    other = gen.table(r, 2, r.randint(2, 7), -5, 5)
    s.table("a", rows, " ").load("a", "a", " ").table("b", other).load("b", "b").dists()
    for _ in range(10):
        if r.random() < 0.2:
            s.ratio(*r.choice(gen.RATIOS))
        (n, x), (m, y) = [(k, gen.sub(r, t)) for k, t in (r.choice([("a", rows), ("b", other)]) for _ in "12")]
        if r.random() < 0.2:
            y = x if n == m else (y[0], -1, -1)
        if r.random() < 0.1:
            x = r.choice([(9, -1, -1), (0, 3, 2), (-1, 0, 1), (0, 0, 99)])
        d = r.choice(gen.ORDERED)
        k = r.random()
        if k < 0.4:
            s.pair("dist", (n,) + x, (m,) + y, d, r.random() < 0.7)
        elif k < 0.7:
            s.pair("match", (n,) + x, (m,) + y, d, True)
        else:
            s.ts(n, *x).tsname(n, x[0]).tslen(n, x[0])
    sep = r.choice([",", " ", ";", "|"])
    return s.saved("a", "saved", sep).load("c", "saved", sep).obs()


def run(check):
    check.focus = "C19"           # everything that an operation answers
    try:
        prog = build_py()
    except CheckError as e:
        print("note: the Python module cannot be driven: %s" % str(e)[:2000])
        check.extra["program"] = "not compiled"
        return
    out = p01.sessions(check.pick(60, 600))
    out += [pairs(gen.rng("C21p", i)) for i in range(check.pick(150, 1500))]
    for i in range(check.pick(250, 2500)):
        r = gen.rng("C21", i)
        w = World(r)
        for _ in range(2):
            w.load()
        for _ in range(r.randint(10, 18)):
            w.step(WEIGHTS)
        w.s.obs()
        out.append(w.s)
    out += walks.sessions(check, lambda op: True, check.pick(1500, 8000), has=lambda op: op[0] != "unloadall" and op[2] != "txt")
    check.validate(out, prog=prog)
