#!/usr/bin/env python3
"""Are wrong recordings rejected?

selftest.py [--seed N] [--each N] [checks...]

Records the sessions of a check as the check does, changes one result in one event of a recording at a time (a number, an
outcome, a name, the length of a list), and has the specification judge it.  Prints for every kind of event and field how
many of the changes the check rejected. Also runs the broken
designs of ThreadPool, each of which has to be found wrong.
"""
import argparse, collections, copy, importlib, json, os, random, re, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from lib import core

ap = argparse.ArgumentParser()
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--each", type=int, default=12, help="changes per kind of event and field")
ap.add_argument("checks", nargs="*")
a = ap.parse_args()
rnd = random.Random(a.seed)


def leaves(x, path=()):
    """(path, kind) of everything that can be changed"""
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        yield path + ("#",)
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path


def shape(path):
    return ".".join("*" if isinstance(p, int) else p for p in path)


def change(e, path):
    *way, last = path
    x = e
    for p in way:
        x = x[p]
    if last == "#":
        if x and rnd.random() < 0.7:
            x.pop(rnd.randrange(len(x)))
        elif x:
            x.append(copy.deepcopy(rnd.choice(x)))
        else:
            return False
        return True
    v = x[last]
    if isinstance(v, bool):
        x[last] = not v
    elif isinstance(v, int):
        x[last] = v + rnd.choice([-1, 1, 1, 2])
    elif isinstance(v, str):
        x[last] = v + "x" if rnd.random() < 0.5 or not v else v[:-1]
    else:
        return False
    return True


class Done(Exception):
    pass


class Self(core.Check):
    """a check whose recordings are changed before they are judged"""
    def model(self, *x, **k):
        pass

    def validate(self, sessions, module="GenexTrace", prog=None, **k):
        sessions = random.Random(a.seed).sample(sessions, min(len(sessions), 120))
        got, fails = core.run_sessions(prog or core.build_driver(), sessions, self.work)
        traces, args = [], []
        for i, s in enumerate(sessions):
            t = core.clamp(core.to_trace(s, got.get(i, []))[0])
            if sum(map(len, map(json.dumps, t["ev"]))) < 60000:
                traces.append(t)
                args.append([set(m) for _, m in s.cmds if m])
        self.corrupt(traces, args, module)

    def judge(self, traces, module, script=None):
        self.corrupt(traces[:200], None, module)

    def corrupt(self, traces, args, module):
        places = collections.defaultdict(list)
        keys = {"op"}
        for i, t in enumerate(traces):
            given = set().union(*args[i]) if args and args[i] else set()
            for k, e in enumerate(t["ev"]):
                for p in leaves({f: v for f, v in e.items() if f not in keys and (f not in given or f == "ok")}):
                    places[(e["op"], shape(p))].append((i, k, p))
        out, what = [], []
        for key, where in sorted(places.items()):
            for i, k, p in rnd.sample(where, min(a.each, len(where))):
                t = dict(traces[i], ev=copy.deepcopy(traces[i]["ev"][:k + 1]))
                if change(t["ev"][k], p):
                    out.append(t)
                    what.append(key)
        left = list(range(len(out)))
        rejected = set()
        while left:
            f = os.path.join(self.work.path, "self.ndjson")
            core.write_traces(f, [out[i] for i in left])
            r = core.tlc(module, self.work, env=dict(TRACE=f, FOCUS=self.focus), args=("-continue",), workers=1)
            bad = {int(x) for x in re.findall(r"(?:^|/\\ )tr = (\d+)\s*$", r.out, re.M)}
            rejected |= {left[x - 1] for x in bad}
            if r.finished:                 # with -continue this only means that everything was looked at
                break
            rest = [i for i in left if i not in rejected]
            if len(rest) == len(left):
                break
            left = rest
        for i, key in enumerate(what):
            TABLE[key][i in rejected].append(self.prop)


TABLE = collections.defaultdict(lambda: {True: [], False: []})


def broken_designs():
    w = core.Work("selftest")
    for v in ("code", "if", "stopless", "nodrain", "dies", "silent", "notifyone", "fewer"):
        found = []
        for workers, how in ((1, "get"), (2, "get"), (2, "drop"), (2, "group"), (2, "meet")):
            p = os.path.join(w.path, "pool.cfg")
            with open(p, "w") as o:
                o.write('SPECIFICATION Spec\nCONSTANTS\n W = %d\n N = 3\n Failing = {0}\n How = "%s"\n Spurious = TRUE\n Variant = "%s"\n'
                        'INVARIANTS Mutual NoCrash ExactlyOnce\nPROPERTIES Refines Terminates\n' % (workers, how, v))
            if not core.tlc("ThreadPool", w, cfg=p).finished:
                found.append("%d workers/%s" % (workers, how))
        print("design %-10s %s" % (v, "found wrong with " + ", ".join(found) if found else "accepted"), flush=True)
    w.remove()


broken_designs()
for c in a.checks or ["C%02d" % i for i in range(1, 22)]:
    check = Self(c)
    importlib.import_module("lib.p" + c[1:]).run(check)
    check.work.remove()
    n = [sum(x == c for x in t[b]) for b in (True, False) for t in TABLE.values()]
    print("%s: %d rejected, %d accepted" % (c, sum(n[:len(n) // 2]), sum(n[len(n) // 2:])), flush=True)
print("\n%-10s %-30s %s" % ("event", "field", "rejected/accepted by check"))
for (op, f), t in sorted(TABLE.items()):
    by = ["%s %d/%d" % (c, t[True].count(c), t[False].count(c)) for c in sorted(set(t[True] + t[False]))]
    print("%-10s %-30s %s%s" % (op, f, "" if t[True] else "NEVER REJECTED  ", "  ".join(by)))
