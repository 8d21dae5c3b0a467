"""C20: TimeSeries values."""
import json

from . import gen
from .core import Session
from .walks import steps, walks


def session(r, steps, most=6):
    s = Session(r.choice([1, 1, 7, 1000003]))
    bufs = {0: r.randint(3, most), 1: r.randint(3, most)}
    for b, n in bufs.items():
        v = gen.row(r, n, -5, 5)
        s.sv(["buf", b] + v, op="buf", a=b, vals=v)
    regs = {}
    # an envelope is kept until the series is assigned or added to; changes made through [] or
    # in a viewed buffer are not noticed, so nothing is asked of those series afterwards
    kept, stale = set(), set()

    def fresh(a):
        kept.discard(a)
        stale.discard(a)

    def mk(a):
        fresh(a)
        k = r.choice(["ref", "ref", "refl", "own", "own"] + (["copy"] * 3 if regs else []))
        if k == "ref":
            b = r.choice([0, 1])
            st = r.randint(0, bufs[b] - 1)
            e = r.randint(st + (1 if r.random() < 0.9 else 0), bufs[b])
            x = r.randint(0, 3)
            s.sv(["ref", a, b, x, st, e], op="ref", a=a, b=b, x=x, s=st, e=e)
            regs[a] = e - st
        elif k == "refl":
            b = r.choice([0, 1])
            n = r.randint(1, bufs[b])
            s.sv(["refl", a, b, n], op="refl", a=a, b=b, n=n)
            regs[a] = n
        elif k == "own":
            n = r.randint(1, most - 1)
            s.sv(["own", a, n], op="own", a=a, n=n)
            regs[a] = n
            for i in range(n):
                v = r.randint(-5, 5)
                s.sv(["set", a, i, v], op="set", a=a, i=i, val=v)
        else:
            c = r.choice(sorted(regs))
            s.sv(["copy", a, c], op="copy", a=a, b=c)
            regs[a] = regs[c]

    for a in range(3):
        mk(a)
    for _ in range(steps):
        a, b = r.choice(sorted(regs)), r.choice(sorted(regs))
        k = r.choice(["asg", "asg", "mov", "set", "set", "get", "add", "add", "eq", "eq", "avg", "mk", "buf", "env", "env", "env", "print", "cand"])
        if k == "mk":
            mk(r.randint(0, 3))
        elif k in ("asg", "mov"):
            s.sv([k, a, b], op=k, a=a, b=b)
            regs[a] = regs[b]
            if a != b:
                fresh(a)
        elif k == "env" and regs[a] and a not in stale:
            w = r.randint(0, regs[a])
            s.sv(["env", a, w], op="env", a=a, w=w)
            kept.add(a)
        elif k == "print":
            s.sv(["print", a], op="print", a=a)
        elif k == "cand":
            d = r.randint(0, 3)
            f = d if r.random() < 0.6 else r.randint(0, 3)
            s.sv(["cand", a, d, b, f], op="cand", a=a, d=d, b=b, f=f)
        elif k == "set":
            i, v = r.randint(-1, regs[a]), r.randint(-5, 5)
            stale.update(kept)
            s.sv(["set", a, i, v], op="set", a=a, i=i, val=v)
        elif k == "get":
            i = r.randint(-1, regs[a])
            s.sv(["get", a, i], op="get", a=a, i=i)
        elif k in ("add", "eq"):
            if k == "eq" and r.random() < 0.5:
                # two places with equal values
                c = [x for x in regs if regs[x] == regs[a]]
                b = r.choice(c)
            s.sv([k, a, b], op=k, a=a, b=b)
            if k == "add":
                stale.update(kept - {a})
                if regs[a] == regs[b]:
                    fresh(a)
        elif k == "avg" and regs[a]:
            s.sv(["avg", a], op="avg", a=a)
        elif k == "buf":
            c = r.choice([0, 1])
            v = gen.row(r, bufs[c], -5, 5)
            stale.update(kept)
            s.sv(["buf", c] + v, op="buf", a=c, vals=v)
    return s


TOKENS = dict(buf="a *vals", ref="a b x s e", refl="a b n", own="a n", set="a i val", env="a w", copy="a b", asg="a b", mov="a b", add="a b")


def followed(check, most, length=40):
    """programs that follow the steps of SeriesWalk"""
    graph, first = steps(check, "SeriesWalk", lambda o: json.dumps(o, sort_keys=True))
    every = [(a, op) for a, es in graph.items() for op, _ in es]
    r = gen.rng("C20walk", 0)
    wanted = every if len(every) <= most else r.sample(every, most)
    check.extra["model_steps_followed"] = "%d of %d" % (len(wanted), len(every))
    out = []
    for w in walks(r, graph, first, wanted, length):
        s = Session(r.choice([1, 7]))
        s.sv(["buf", 0, 0, 0], op="buf", a=0, vals=[0, 0])
        regs = {}
        for op in w:
            o = json.loads(op)
            tokens = [o["op"]]
            for k in TOKENS[o["op"]].split():
                tokens += o[k[1:]] if k[0] == "*" else [o[k]]
            s.sv(tokens, **o)
            if o["op"] in ("ref", "refl", "own"):
                regs[o["a"]] = o["n"] if "n" in o else o["e"] - o["s"]
            elif o["op"] in ("copy", "asg", "mov"):
                regs[o["a"]] = regs[o["b"]]
            if regs and r.random() < 0.2:
                a, b = r.choice(sorted(regs)), r.choice(sorted(regs))
                k = r.choice(["get", "eq", "eq", "avg", "print", "cand"])
                if k == "get":
                    i = r.randint(-1, regs[a])
                    s.sv(["get", a, i], op="get", a=a, i=i)
                elif k == "eq":
                    s.sv(["eq", a, b], op="eq", a=a, b=b)
                elif k == "cand":
                    s.sv(["cand", a, 1, b, 1], op="cand", a=a, d=1, b=b, f=1)
                else:
                    s.sv([k, a], op=k, a=a)
        out.append(s)
    return out


def run(check):
    out = followed(check, check.pick(12000, 60000))
    for i in range(check.pick(1500, 8000)):
        r = gen.rng("C20", i)
        out.append(session(r, r.randint(5, 25)))
    for i in range(check.pick(60, 600)):
        r = gen.rng("C20long", i)
        out.append(session(r, r.randint(5, 15), most=70))
    check.validate(out, module="SeriesTrace")
