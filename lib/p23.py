"""C23: the bundled search of one recording for the best match of a query."""
import concurrent.futures as cf
import json
import os
import subprocess

from . import gen
from .core import CheckError, SAN, WORKERS, build, san_env

EPOCH = 100000      # values the search reads at a time


def design(check):
    check.model("MCUcr", consts=dict(Dom="{0, 1}", N=check.pick(5, 6), Guard="TRUE"), invariants="Admissible Parts")
    check.model("MCUcr", consts=dict(Dom="{0, 1, 3}", N=check.pick(3, 4), Guard="TRUE"), invariants="Admissible Parts")


def program():
    return build("ucr", ("-O1", "-g") + tuple(SAN), ("ucr.cpp",))


def programs():
    program()


def shape(r, m, hi):
    k = r.random()
    if k < 0.4:
        return [r.randint(-hi, hi) for _ in range(m)]
    if k < 0.7:
        v, out = r.randint(-hi, hi), []
        for _ in range(m):
            v = max(-hi, min(hi, v + r.randint(-2, 2)))
            out.append(v)
        return out
    return [r.choice([-hi, 0, 1, hi]) if r.random() < 0.3 else 0 for _ in range(m)]


def varied(r, n, m, lo, hi):
    """values of which no m in a row are equal"""
    out = []
    while len(out) < n:
        x = r.randint(lo, hi)
        if len(out) >= m - 1 and all(y == x for y in out[len(out) - m + 1:]):
            continue
        out.append(x)
    return out


def pieces(r):
    m = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 20])
    hi = r.choice([2, 9, 40])
    band = r.randint(0, m - 1)
    a = shape(r, m, hi)
    b = shape(r, m, hi) if r.random() < 0.6 else [x + r.randint(-1, 1) for x in a[1:] + a[:1]]
    if r.random() < 0.3 and m > 2:          # one waits where the other goes on
        k, d = r.randint(1, min(4, m - 1)), r.randint(1, min(4, m - 1))
        base = shape(r, m, hi)
        a, b = ([base[0]] * k + base)[:m], (base + [base[-1]] * d)[-m:]
        if r.random() < 0.5:
            a, b = b, a
    cut = -1 if r.random() < 0.4 else r.choice([1, hi, 3 * hi, hi * hi, m * hi])
    op = r.choice(["dtw", "dtw", "kim", "keogh", "keogh2"])
    if op == "dtw":
        how = r.choice([0, 1, 2])
        return (["dtw", m, band, cut, how] + a + b, dict(op=op, a=a, b=b, r=band, cut=cut))
    j, mean, dev = r.randrange(m), r.choice([0, 0, -3, 17]), r.choice([1, 1, 2, 5])
    return ([op, m, band, cut, j, mean, dev] + a + b, dict(op=op, a=a, b=b, r=band, cut=cut))


def search(r):
    m = r.choice([2, 3, 4, 5, 6, 7, 8, 10, 12])
    band = r.choice([0, 1, 1, 2, 2, m // 2, m - 1])
    band = min(band, m - 1)
    n = m if r.random() < 0.05 else r.randint(m, m + r.choice([4, 20, 40]))
    hi = r.choice([3, 5, 9])
    q = varied(r, m, m, 0, hi)
    data = varied(r, n, m, 0, hi)
    if r.random() < 0.5 and n > m + 3:      # something like the query, at a larger or smaller scale
        p, f, c = r.randint(0, n - m), r.choice([1, 1, 2]), r.choice([0, 1, 3])
        w = [f * x + c + (r.random() < 0.2) for x in q]
        new = data[:p] + w + data[p + m:]
        if all(len(set(new[i:i + m])) > 1 for i in range(n - m + 1)):
            data = new
    rest = [r.randint(0, hi) for _ in range(r.choice([0, 0, 0, 3]))]      # a longer file of which m values are used
    return (["search", m, band, len(q) + len(rest)] + q + rest + [len(data)] + data, dict(op="search", q=q, data=data, r=band))


def long(r):
    m = r.choice([8, 10, 12])
    band = r.choice([1, 2, 3])
    step = EPOCH - m + 1
    n = r.choice([EPOCH, EPOCH + 1, EPOCH - 1, EPOCH + m, 2 * step, 2 * step + m - 1, 2 * step + m, r.randint(EPOCH, 2 * EPOCH)])
    q = varied(r, m, m, 0, 6)
    edge = [x for x in (0, 1, EPOCH - m, step - 1, step, step + 1, EPOCH, 2 * step - 1, 2 * step, n - m) if 0 <= x <= n - m]
    at = r.choice(edge)
    puts = [(at, [2 * x + 1 for x in q])]
    for other in r.sample([0, m, n // 2, n - m], 2):
        if abs(other - at) >= m and 0 <= other <= n - m and all(abs(other - p) >= m for p, _ in puts):
            puts.append((other, [3 * x + 2 * (i % 3 == 0) for i, x in enumerate(q)]))
    flat = []
    for p, w in puts:
        flat += [p] + w
    return (["long", m, band, n, len(puts)] + q + [r.randint(1, 1 << 20)] + flat,
            dict(op="long", q=q, r=band, n=n, puts=[w for _, w in puts]))


def run(check):
    design(check)
    try:
        prog = program()
    except CheckError as e:
        print("note: the bundled search is not checked: %s" % str(e)[:300])
        check.extra["search"] = "not compiled"
        return
    sessions = []
    for i in range(check.pick(1000, 8000)):
        r = gen.rng("C23", i)
        sessions.append([pieces(r) for _ in range(20)] if i % 2 else [search(r) for _ in range(4)])
    sessions.append([(["missing", k], dict(op="missing")) for k in (1, 2)])
    for i in range(check.pick(16, 120)):
        sessions.append([long(gen.rng("C23long", i))])
    drive(check, prog, sessions)


def drive(check, prog, sessions):
    def one(k):
        d = os.path.join(check.work.path, "ucr%d" % k)
        os.makedirs(d)
        mine = range(k, len(sessions), WORKERS)
        with open(os.path.join(d, "script"), "w") as f:
            for i in mine:
                for c, _ in sessions[i]:
                    f.write(" ".join(map(str, c)) + "\n")
        try:
            p = subprocess.run([prog, os.path.join(d, "script"), os.path.join(d, "result"), d], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600, env=san_env())
        except subprocess.TimeoutExpired:
            return k, mine, [], "does not end"
        res = open(os.path.join(d, "result")).read().split("\n")[:-1]
        return k, mine, res, ("ended with status %d: %s" % (p.returncode, p.stdout[-600:])) if p.returncode else None

    traces, scripts = {}, {}
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for k, mine, res, why in ex.map(one, range(WORKERS)):
            flat = [(i, c, e) for i in mine for c, e in sessions[i]]
            if why:
                at = flat[min(len(res), len(flat) - 1)]
                check.violation("the bundled search %s\nin: %s" % (why, " ".join(map(str, at[1]))[:400]),
                                {"script": " ".join(map(str, at[1])) + "\n"})
            for (i, c, e), x in zip(flat, res):
                e.update(json.loads(x))
                traces.setdefault(i, []).append(e)
                scripts.setdefault(i, []).append(" ".join(map(str, c)))
    order = sorted(traces)
    check.judge([dict(G=1, ev=traces[i]) for i in order], "UcrTrace", lambda k: "\n".join(scripts[order[k]]) + "\n")
