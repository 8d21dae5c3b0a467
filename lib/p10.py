"""C10: grouping with threads."""
import concurrent.futures as cf
import json
import os
import subprocess

from . import gen
from .core import CheckError, SEED, Session, WORKERS, build, build_driver, build_scheduled, clamp
from .p11 import thr


def design(check):
    """the design of the pool, all interleavings"""
    cfgs = [(1, 2, "{0}", "group"), (2, 3, "{1}", "get"), (2, 2, "{}", "drop"), (3, 2, "{0}", "group"), (2, 0, "{}", "get"), (2, 3, "{}", "meet"), (3, 3, "{}", "meet")]
    if check.thorough():
        cfgs += [(3, 3, "{0,2}", h) for h in ("get", "drop", "group")] + [(2, 5, "{3}", "get"), (4, 2, "{}", "drop")]
    for w, n, f, h in cfgs:
        p = os.path.join(check.work.path, "pool.cfg")
        with open(p, "w") as o:
            o.write('SPECIFICATION Spec\nCONSTANTS\n W = %d\n N = %d\n Failing = %s\n How = "%s"\n Spurious = TRUE\n'
                    ' Variant = "code"\nINVARIANTS Mutual NoCrash ExactlyOnce\nPROPERTIES Refines Terminates\n' % (w, n, f, h))
        check.model("ThreadPool", cfg=p)


def pools():
    return (build_scheduled("pool", ("pool.cpp",), lib=None),
            build("poolos", ("-O1", "-g", "-fsanitize=address,undefined"), ("pool.cpp", "schedstub.cpp"), lib=None))


def threaded():
    return build_scheduled("tdriver", ("driver.cpp", "bounds.cpp", "series.cpp", "parts.cpp"), stubs=("bounds.cpp", "series.cpp", "parts.cpp"))


def programs():
    pools()
    threaded()


def pool(check):
    """the real pool under many schedules"""
    try:
        prog, free = pools()
    except CheckError as e:
        print("note: the pool is not checked by itself: %s" % str(e)[:300])
        check.extra["pool"] = "not compiled"
        return
    jobs = []
    n = check.pick(300, 5000)
    for w, t, f in ((1, 3, 2), (2, 3, 0), (2, 4, 5), (3, 3, 1), (3, 5, 16), (5, 2, 0), (4, 9, 0b100010001), (2, 1, 1), (1, 0, 0)):
        for how in ("get", "drop", "group", "two"):
            jobs.append((prog, w, t, f, how, "random", n, SEED, 0))
            jobs.append((prog, w, t, f, how, "priority", n, SEED + 1, 0))
            jobs.append((free, w, t, f, how, "os", 40, SEED, 0))
    for w, t, f in ((3, 70, 5), (8, 150, 1 << 20)):             # far more jobs than workers
        for how in ("get", "drop", "group", "two"):
            jobs.append((prog, w, t, f, how, "random", check.pick(10, 200), SEED + 2, 0))
            jobs.append((free, w, t, f, how, "os", check.pick(5, 40), SEED, 0))
    for w, t in ((2, 2), (3, 3), (2, 5), (4, 6), (5, 3)):
        jobs.append((prog, w, t, 0, "meet", "random", n, SEED + 3, 0))
        jobs.append((prog, w, t, 0, "meet", "priority", n, SEED + 4, 0))
        jobs.append((free, w, t, 0, "meet", "os", 40, SEED, 0))
    for w, t, f, how in ((2, 2, 0, "meet"), (3, 3, 0, "meet"), (1, 2, 1, "get"), (2, 2, 1, "get"), (2, 2, 0, "drop"), (2, 3, 1, "group"), (2, 2, 2, "two"), (3, 2, 0, "drop")):
        jobs.append((prog, w, t, f, how, "all", check.pick(8000, 300000), SEED, check.pick(2, 3)))

    def one(k):
        j = jobs[k]
        res = os.path.join(check.work.path, "pool%d" % k)
        try:
            r = subprocess.run([j[0], res] + [str(x) for x in j[1:]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=240)
        except subprocess.TimeoutExpired:
            return k, "does not end", []
        lines = open(res).read().split("\n")[:-1] if os.path.exists(res) else []
        return k, ("ended with status %d: %s" % (r.returncode, r.stdout[-400:])) if r.returncode else None, lines

    traces, origin, runs, complete = [], [], 0, 0
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for k, why, lines in ex.map(one, range(len(jobs))):
            if why:
                check.violation("the pool of workers (%s) %s" % (" ".join(map(str, jobs[k][1:])), why),
                                {"job": " ".join(map(str, jobs[k]))})
            for x in lines:
                d = json.loads(x)
                if "runs" in d:
                    runs += d["runs"]
                    complete += d["complete"]
                else:
                    traces.append(clamp(d))
                    origin.append(jobs[k])
    # the same sequence of events under different schedulers is judged once
    seen, uniq, orig = set(), [], []
    for t, o in zip(traces, origin):
        key = json.dumps(t["ev"])
        if key not in seen:
            seen.add(key)
            uniq.append(t)
            orig.append(o)
    check.judge(uniq, "PoolTrace", lambda i: " ".join(map(str, orig[i])) + "\n")
    check.extra["pool_runs"] = runs
    check.extra["pool_schedules_exhausted_within_bound"] = complete


def sessions(check, n, again, scheduled):
    out = []
    for i in range(n):
        r = gen.rng("C10" + str(scheduled), i)
        s = Session(1)
        rows = gen.table(r, r.randint(1, 4), r.randint(2, 6 if scheduled else 10), -4, 4)
        s.table("t", rows).load("a", "t")
        for _ in range(r.randint(1, 2)):
            d = r.choice(gen.ALLDIST if r.random() < 0.4 else gen.ORDERED)
            t8, whole, off = thr(r), r.random() < 0.15, r.choice([0, 0, 1, 7])
            s.group("a", t8, d, 1, whole, off=off)
            for j in range(r.randint(2, again)):
                if scheduled:
                    s.sched(r.choice([1, 1, 2]), r.randrange(1 << 30), r.random() < 0.3)
                k = r.choice([2, 2, 3, 4, 8, 16])
                if r.random() < 0.3:      # from something else
                    s.group("a", thr(r), r.choice(gen.ORDERED), r.choice([1, 2, 5]), not whole)
                    s.group("a", t8, d, 1, whole, off=off)
                s.regroup("a", t8, d, k, whole, off=off)
                if r.random() < 0.5:
                    x = gen.sub(r, rows, 2)
                    if x:
                        s.best("a", "a", *x)
        out.append(s)
    return out


def large(n):
    """many lengths, some with many groups"""
    out = []
    for i in range(n):
        r = gen.rng("C10large", i)
        s = Session(1)
        rows = gen.table(r, r.randint(1, 3), r.randint(70, 90) if i % 8 == 1 else r.randint(20, 40), -4, 4) if i % 2 else gen.table(r, r.randint(40, 120), 4, -9, 9)
        s.table("t", rows).load("a", "t")
        d, t8, whole = r.choice(gen.ORDERED), thr(r), r.random() < 0.1
        s.group("a", t8, d, 1, whole)
        for k in (r.choice([2, 3]), r.choice([5, 8, 13, 16, 40, 64])):
            s.regroup("a", t8, d, k, whole)
        out.append(s)
    return out


def run(check):
    design(check)
    pool(check)
    prog = threaded()
    check.validate(sessions(check, check.pick(160, 2000), 8, True), prog=prog)
    check.validate(sessions(check, check.pick(160, 2000), 5, False) + large(check.pick(16, 160)), prog=build_driver())
