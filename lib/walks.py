"""Sessions that follow the steps of StoreWalk: TLC explores it completely and prints its steps; here they are put
together to walks in which every wanted step occurs, and given values."""
import collections
import json
import re

from . import gen
from .core import CheckError, tlc
from .world import THR, World


def steps(check, module="StoreWalk", key=lambda o: (o["o"], o["n"], o["x"], o["ok"])):
    """{state: [(operation, state)]} and the initial state"""
    r = tlc(module, check.work, workers=1)
    if not r.finished:
        raise CheckError(module + ": " + r.out[-2000:])
    check.states += r.states
    graph, first = collections.OrderedDict(), None
    for m in re.finditer(r'^"STEP (.*)"$', r.out, re.M):
        d = json.loads(m.group(1).replace('\\"', '"'))
        a, b = json.dumps(d["from"], sort_keys=True), json.dumps(d["to"], sort_keys=True)
        op = key(d["op"])
        if first is None:
            first = a
        graph.setdefault(a, []).append((op, b))
    if not graph:
        raise CheckError(module + " printed no steps")
    return graph, first


def walks(r, graph, first, wanted, length):
    """lists of operations; every wanted step (state, operation) occurs in one of them"""
    left = {}
    for a, op in wanted:
        left.setdefault(a, []).append(op)
    for v in left.values():
        r.shuffle(v)
    move = {a: [(op, b) for op, b in es if b != a] for a, es in graph.items()}
    to = {a: dict(es) for a, es in graph.items()}
    out, cur, at = [], [], first
    while left:
        if len(cur) >= length:
            out.append(cur)
            cur, at = [], first
        if at in left:
            op = left[at].pop()
            if not left[at]:
                del left[at]
            cur.append(op)
            at = to[at][op]
            continue
        # the way to the nearest state with something left
        seen, queue, way = {at: None}, collections.deque([at]), None
        while queue and way is None:
            a = queue.popleft()
            es = list(move[a])
            r.shuffle(es)
            for op, b in es:
                if b in seen:
                    continue
                seen[b] = (a, op)
                if b in left:
                    way = []
                    while seen[b]:
                        a, op = seen[b]
                        way.append(op)
                        b = a
                    break
                queue.append(b)
        if way is None:
            raise CheckError("steps that cannot be reached")
        for op in reversed(way):
            cur.append(op)
            at = to[at][op]
    if cur:
        out.append(cur)
    return out


def concrete(r, ops, wanted):
    w = World(r, names=("a", "b"), ntables=1, maxl=5)
    rows = w.tables["t0"][0]
    while True:
        w.write("t1")
        if w.differs((len(rows), gen.maxlen(rows)), w.tables["t1"][0]):
            break
    s = w.s

    def sub(n):
        return w.sub(n) if n in w.ds else (0, -1, -1)

    for o, n, x, ok in ops:
        if o == "load":
            if ok:
                w.load_from(n, x)
            else:
                s.load(n, x, ",", 0, 0, w.tables[x][1])
        elif o == "unload":
            s.unload(n)
            w.ds.pop(n, None)
        elif o == "unloadall":
            w.unloadall()
        elif o == "norm":
            s.norm(n)
        elif o == "group":
            d = r.choice(gen.ORDERED)
            s.group(n, r.choice(THR), d, r.choice([1, 1, 2]), r.random() < 0.15, off=r.choice([0, 0, 3]))
            if ok:
                w.ds[n]["grp"] = d
        elif o == "prep":
            bs = r.choice([1, 2, 3, 4])
            s.prep(n, bs)
            if ok:
                w.ds[n]["paa"] = bs
        elif o == "save":
            k = "saveg" if x == "bin" else "saveo"
            s.save(k, n, "g")
            if ok:
                w.gfiles["g"] = (k, w.ds[n]["table"], w.ds[n]["grp"])
        elif o == "restore":
            if ok:
                w.restore_from(n, "g", "saveg" if x == "bin" else "saveo")
            else:
                (s.loadg if x == "bin" else s.loado)(n, "g")
        elif o == "best":
            s.best(n, x, *sub(x))
        elif o == "kbest":
            k = r.choice([1, 2, 4])
            s.kbest(k, k + r.choice([0, 1, 5]), n, x, *sub(x))
        elif o == "paa":
            s.paa(r.choice([1, 3]), n, x, *sub(x), dist=r.choice(gen.ORDERED))
        elif o == "brute":
            s.brute(r.choice([1, 2, 5]), n, x, *sub(x), dist=r.choice(gen.ORDERED))
        elif o in ("dist", "match"):
            s.pair(o, (n,) + sub(n), (x,) + sub(x), r.choice(gen.ORDERED), True)
        elif o == "ts":
            s.ts(n, *sub(n))
        elif o == "load missing":
            s.load(n, "nofile")
        elif o == "load wrong":
            s.file("bad", r.choice(["1,2,3\n4,x,6\n", "1,2\n3,,4z\n", "a\n", "1,2,3\n1,2,3\n1,2,-\n"])).load(n, "bad")
        elif o == "group wrong":
            s.group(n, 8, r.choice(["nodist", "", "euclid", "euclidean_dtw"]), r.choice([1, 2]))
        elif o == "group threads":
            s.group(n, 8, r.choice(gen.ORDERED), r.choice([0, -1, -7]))
        elif o == "prep wrong":
            s.prep(n, r.choice([0, -1]))
        elif o == "restore cut":
            if "g" in w.gfiles:
                s.cut("g", "cut", r.choice([r.randint(0, 40), r.randint(20, 400)]))
                (s.loadg if w.gfiles["g"][0] == "saveg" else s.loado)(n, "cut")
            else:
                s.loadg(n, "t0")
        elif o == "restore junk":
            s.file("junk", r.choice(["", "hello\n", "1 2 3\n4 5 6\n"]), kind="junk")
            r.choice([s.loadg, s.loado])(n, "junk")
        elif o == "restore missing":
            r.choice([s.loadg, s.loado])(n, "nofile")
        elif o == "save nowhere":
            r.choice([s.saveg, s.saveo, s.saved])(n, "nodir/x", dir=False)
        elif o == "k wrong":
            r.choice([lambda: s.kbest(0, 5, n, n, 0), lambda: s.kbest(3, 2, n, n, 0), lambda: s.brute(0, n, n, 0),
                      lambda: s.paa(-1, n, n, 0)])()
        else:
            raise CheckError("StoreWalk: unknown operation " + o)
        if (o, n, x, ok) in wanted or r.random() < 0.2:
            s.obs()
    w.probe()
    return s


QUERIES = ("best", "kbest", "paa", "brute", "dist", "match", "ts")


def reduced(graph, first, has):
    """the part that the operations with has(operation) reach"""
    out, todo = collections.OrderedDict(), [first]
    while todo:
        a = todo.pop()
        if a in out:
            continue
        out[a] = [(op, b) for op, b in graph[a] if has(op)]
        todo += [b for _, b in out[a] if b not in out]
    return out


def sessions(check, kinds, most, length=25, has=None, concrete=concrete):
    """kinds(operation) tells which operations have to occur in every state; at most so many steps are chosen"""
    graph, first = steps(check)
    if has:
        graph = reduced(graph, first, has)
    every = [(a, op) for a, es in graph.items() for op, _ in es if kinds(op)]
    r = gen.rng("walks", check.prop)
    wanted = every if len(every) <= most else r.sample(every, most)
    ops = {op for _, op in wanted}
    out = [concrete(gen.rng("walk", check.prop, i), w, ops) for i, w in enumerate(walks(r, graph, first, wanted, length))]
    check.extra["model_steps_followed"] = "%d of %d" % (len(wanted), len(every))
    return out
