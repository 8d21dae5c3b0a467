"""C19: the command line program."""
import glob
import math
import os
import re

from . import gen, walks
from .core import Check, CheckError, HARNESS, REPO, SAN, Session, build, clamp, run_sessions, to_trace, hx

G = 2
NUM = r"([-+0-9.eEinfa]+)"


def build_cli():
    src = sorted(glob.glob(os.path.join(REPO, "cli", "**", "*.cpp"), recursive=True))
    return build("cli", ("-O1", "-g") + tuple(SAN), ("cli.cpp", "bounds.cpp", "series.cpp", "parts.cpp", "schedstub.cpp"),
                 stubs=("bounds.cpp", "series.cpp", "parts.cpp"), link=("-lreadline",),
                 more=tuple((s, ("-include", os.path.join(HARNESS, "cliprelude.hpp"))) for s in src))


# ---- what is shown ---------------------------------------------------------------

def total(text, scale, power):
    """the integer (scale * d) ** power, where d is shown with at least four digits"""
    try:
        d = float(text)
    except ValueError:
        return -2
    if math.isnan(d):
        return -3
    if math.isinf(d):
        return -1
    err = 0.5 * 10 ** (math.floor(math.log10(abs(d))) - 3) if d else 0
    lo, hi = (scale * max(0, d - err)) ** power, (scale * (d + err)) ** power
    t = round((scale * d) ** power)
    return t if lo - 1e-6 <= t <= hi + 1e-6 else -2


def warped(dist, text, la, lb):
    m = max(la, lb)
    return {"euclidean": lambda: total(text, 2 * m * G, 2), "manhattan": lambda: total(text, 2 * m * G, 1),
            "chebyshev": lambda: total(text, G, 1)}.get(dist, lambda: -9)()


def qlen(ev, name, x, s, e):
    try:
        row = ev["all"][name]["rows"][int(x)]
        return max(1, len(row) if int(s) < 0 and int(e) < 0 else int(e) - int(s))
    except (KeyError, IndexError, ValueError):
        return 1


def matches(ev, out, pattern, dist, lq):
    res = []
    for x, s, e, d in re.findall(pattern, out):
        res.append(dict(x=int(x), s=int(s), e=int(e), t=warped(dist, d, lq, int(e) - int(s))))
    return res


def shown(ev, toks, out):
    """the fields that the output shows, or None"""
    c, a = toks[0], toks[1:]
    if c == "load":
        n, m = re.search(r"Item count:\s*(\d+)", out), re.search(r"Item length:\s*(\d+)", out)
        return dict(info=dict(cnt=int(n.group(1)), max=int(m.group(1)))) if n and m else None
    if c == "group":
        n = re.search(r"Number of Groups:\s*(\d+)", out, re.I)
        return dict(cnt=int(n.group(1))) if n else None
    if c == "loadGroups":
        n = re.search(r"(\d+) groups loaded", out, re.I)
        return dict(cnt=int(n.group(1))) if n else None
    if c == "list" and a and a[0] == "dataset":
        n = re.search(r"(\d+) datasets? loaded", out, re.I)
        ds = {}
        for line in out.split("\n"):
            m = re.match(r"\s*(\S+)\s+(?:Grouped \((\w+), TS = %s\)|Not grouped)\s+(Not n|N)ormalized\s*$" % NUM, line)
            if m:
                v = float(m.group(3)) * 8 if m.group(2) else 0
                v = round(v) if abs(v - round(v)) < 1e-3 * max(1, abs(v)) else -77777777
                ds[m.group(1)] = dict(on=bool(m.group(2)), dist=m.group(2) or "", thr8=v, norm=m.group(4) == "N")
        return dict(n=int(n.group(1)), ds=ds) if n else None
    if c == "list" and a and a[0] == "distance":
        return dict(names=[x.split()[0] for x in out.split("\n") if x.split()])
    if c == "help" and not a:
        return dict(cmds=[x.split()[0] for x in out.split("\n") if x.split()])
    if c == "timer":
        m = re.search(r"\b(ON|OFF)\b", out, re.I)
        return dict(timer=m.group(1).lower()) if m else None
    if c == "distance" and len(a) >= 8:
        m = re.search(r"^is %s\s*$" % NUM, out, re.M)
        if not m:
            return None
        dn = a[8] if len(a) > 8 else "euclidean_dtw"
        la, lb = qlen(ev, *a[0:4]), qlen(ev, *a[4:8])
        if dn.endswith("_dtw"):
            return dict(t=warped(dn[:-4], m.group(1), la, lb), u=1, sg=0)
        return dict(t={"euclidean": lambda: total(m.group(1), math.sqrt(la) * G, 2),
                       "manhattan": lambda: total(m.group(1), la * G, 1),
                       "chebyshev": lambda: total(m.group(1), G, 1)}.get(dn, lambda: -9)(), u=1, sg=0)
    if c == "sim" and len(a) >= 3:
        dist = ev["all"].get(a[0], {}).get("grp", {}).get("dist", "")
        lq = qlen(ev, a[1], a[2], *(a[3:5] if len(a) == 5 else ("-1", "-1")))
        r = matches(ev, out, r"(?i)Best match is time series (-?\d+) \[(-?\d+), (-?\d+)\]\s+Distance = " + NUM, dist, lq)
        return dict(res=r) if r else None
    if c in ("ksim", "ksimBF") and len(a) >= 4:
        dist = ev["all"].get(a[1], {}).get("grp", {}).get("dist", "") if c == "ksim" else "euclidean"
        lq = qlen(ev, a[2], a[3], *(a[4:6] if len(a) >= 6 else ("-1", "-1")))
        return dict(res=matches(ev, out, r"(?i)Timeseries (-?\d+) \[(-?\d+), (-?\d+)\] - distance = " + NUM, dist, lq))
    if c == "print":
        v = []
        for x in out.split():
            try:
                v.append(float(x) * G)
            except ValueError:
                return None
        return dict(vals=[round(x) if abs(x - round(x)) < 1e-3 else -77777777 for x in v])
    return {}


def digest(trace):
    """replaces the text that was shown by what it says"""
    for e in trace["ev"]:
        if e["op"] not in ("line", "eof"):
            continue
        e.setdefault("over", False)
        for k, v in (("ended", False), ("rc", 0), ("count", 0), ("list", []), ("all", {}), ("files", {}), ("szs", {})):
            e.setdefault(k, v)
        out = e.pop("out", "")
        e["err"] = bool(re.search(r"^\s*Error", out, re.M | re.I))
        e["silent"] = not out.strip()
        e["timed"] = bool(re.search(r"executed in", out, re.I))
        toks = [t["t"] for t in e.get("toks", [])]
        s = shown(e, toks, out) if toks and not e["err"] else {}
        e["complete"] = s is not None
        e["shown"] = s or {}
    return trace


# ---- sessions ------------------------------------------------------------------------

class Cli(Session):
    def __init__(self):
        Session.__init__(self, G)

    def line(self, text):
        toks = [t for t in text.split(" ") if t]
        return self.add(["line", hx(text)], dict(op="line", raw=text, toks=[dict(t=t, c=list(t)) for t in toks]))

    def eof(self):
        return self.add(["eof"], dict(op="eof", raw="", toks=[]))


def broken(r, line):
    """a line that is not quite right"""
    t = line.split(" ")
    m = r.randrange(9)
    if m == 0 and len(t) > 1:
        t.pop(r.randrange(1, len(t)))
    elif m == 1:
        t.append(r.choice(["1", "x", "0"]))
    elif m == 2:
        t += ["1", "2", "3", "4"][:r.randint(2, 4)]
    elif m == 3:
        ints = [i for i in range(1, len(t)) if re.fullmatch(r"-?\d+(\.\d+)?", t[i])]
        if ints:
            i = r.choice(ints)
            t[i] = r.choice(["x", t[i] + "x", "--1", "1.5", "", "1 2", "+", "-", "12345678901234567890"]) or "x"
            if t[0] == "group" and t[i][-1:] == "0":
                t[i] = "1..5"
        else:
            t[0] = t[0].upper()
    elif m == 4:
        i = r.randrange(len(t))
        t[i] = r.choice(["zz", "nofile", t[i] + "z"])
    elif m == 5:
        t = [t[0]]
    elif m == 6:
        t[0] = r.choice(["Load", "lod", "quitt", "helpme", "?", "loadgroups", "ksimbf", "\\", "\"", "%s%n", "/", t[0] + "//", "/" + t[0]])
    elif m == 7:
        ints = [i for i in range(1, len(t)) if re.fullmatch(r"-?\d+", t[i])]
        if ints:
            t[r.choice(ints)] = r.choice(["-1", "99", "-5", "0", "+1"])
    else:
        t = t[:1] + t[2:] + t[1:2]
    return " ".join(t)


def session(r):
    s = Cli()
    rows, names = {}, {}
    for p in ("t0", "t1"):
        rows[p] = gen.table(r, r.randint(1, 3), r.randint(2, 4), 0, 2)
        rows[p][0] = ([0, 2] + rows[p][0])[:4]
        sep = r.choice([" ", ","])
        nm = r.random() < 0.3
        names[p] = (sep, nm)
        s.table(p, rows[p], sep=sep, names=["n%d" % i for i in range(len(rows[p]))] if nm else None)
    ds, saved, gfile = {}, {}, {}

    def pick():
        return r.choice(sorted(ds)) if ds else "zz"

    def sub(n):
        x = gen.sub(r, rows[ds[n]], 2) if n in ds else None
        return x or (0, 0, 1)

    def good():
        n = pick()
        k = r.choice(["load"] * 3 + ["unload", "normalize", "group", "group", "group", "list", "timer", "distance", "distance",
                                     "saveGroups", "loadGroups", "sim", "sim", "ksim", "ksim", "ksimBF", "print", "print",
                                     "help", "save", "reload", "comment"])
        if k == "load" or not ds:
            n = r.choice(["a", "b", "c"])
            p = r.choice(["t0", "t1"])
            sep, nm = names[p]
            esc = sep.replace(" ", "\\s")
            line = "load %s %s %s 0 0 %d" % (n, p, esc, nm) if nm or r.random() < 0.3 else \
                   ("load %s %s %s" % (n, p, esc) if sep != " " or r.random() < 0.3 else "load %s %s" % (n, p))
            if not nm and r.random() < 0.2:
                line = "load %s %s %s %d" % (n, p, r.choice([esc, ",\\s"]), r.randint(0, 3))
                if r.random() < 0.3:
                    line += " 1"
                return line, None
            if n in ds:
                return line, None
            return line, lambda: ds.__setitem__(n, p)
        if k == "unload":
            return "unload " + n, lambda: ds.pop(n, None)
        if k == "normalize":
            return "normalize " + n, None
        if k == "group":
            return ("group %s %s %s" % (n, r.choice(["0.5", "1", "0", "0.25", ".5", "2e0", "0.125", "1.375"]),
                                        r.choice(["euclidean", "manhattan", "chebyshev", ""]))).strip(), None
        if k == "list":
            return "list " + r.choice(["dataset", "dataset", "distance"]), None
        if k == "timer":
            return r.choice(["timer", "timer on", "timer off"]), None
        if k == "distance":
            m = pick()
            x, y = sub(n), sub(m)
            d = r.choice(["", " euclidean_dtw", " manhattan_dtw", " chebyshev_dtw", " euclidean", " manhattan", " chebyshev", " nodist"])
            return "distance %s %d %d %d %s %d %d %d%s" % ((n,) + x + (m,) + y + (d,)), None
        if k == "saveGroups":
            return "saveGroups %s g%d%s" % (n, r.randint(0, 1), r.choice(["", "", " 0", " 1"])), None
        if k == "loadGroups":
            return "loadGroups %s g%d" % (n, r.randint(0, 1)), None
        if k == "sim":
            m = pick()
            x = sub(m)
            return ("sim %s %s %d" % (n, m, x[0])) + (" %d %d" % x[1:] if r.random() < 0.6 else ""), None
        if k == "ksim":
            m = pick()
            x = sub(m)
            kk = r.randint(1, 3)
            tail = r.choice(["", " %d" % (kk + r.randint(0, 2)), " %d %d" % x[1:], " %d %d %d" % (x[1:] + (kk + r.randint(0, 3),))])
            return "ksim %d %s %s %d" % (kk, n, m, x[0]) + tail, None
        if k == "ksimBF":
            m = pick()
            x = sub(m)
            return "ksimBF %d %s %s %d" % (r.randint(1, 4), n, m, x[0]) + (" %d %d" % x[1:] if r.random() < 0.6 else ""), None
        if k == "print":
            x = sub(n)
            return "print %s %d %d %d" % ((n,) + x), None
        if k == "help":
            return r.choice(["help", "help load", "help ksim", "help quit", "help exit", "help print", "help timer", "help help", "help nothing"]), None
        if k == "save":
            p = "s%d" % r.randint(0, 1)
            sep = r.choice(["", " \\s", " ,"])

            def done():
                saved[p] = (" " if sep != " ," else ",", ds.get(n))
            return "save %s %s%s" % (n, p, sep), done if n in ds else None
        if k == "reload" and saved:
            p = r.choice(sorted(saved))
            sep, t = saved[p]
            nm = names[t][1]
            return "load d %s %s 0 0 %d" % (p, sep.replace(" ", "\\s"), nm), None
        return r.choice(["", "   ", "// load a t0", "//"]), None

    for _ in range(r.randint(15, 35)):
        line, done = good()
        if r.random() < 0.3:
            b = broken(r, line)
            if b != line and b.split() != line.split():
                line, done = b, None
                # a broken line may still mean something; keep track of datasets
                if b.split()[:1] in (["load"], ["unload"], ["save"]):
                    continue
        if "d" in line.split() and not line.startswith("load d"):
            continue
        if r.random() < 0.1:
            line = r.choice(["  " + line, line + "  ", line.replace(" ", "   ")])
        s.line(line)
        if done:
            done()
    end = r.randrange(5)
    if end == 0:
        s.line("quit")
    elif end == 1:
        s.line("exit " + r.choice(["", "now"]))
    elif end == 2:
        s.eof().eof()
    elif end == 3:
        s.eof().line("n").line("list dataset").eof().line("y")
    else:
        s.eof().line(r.choice(["what", "yes", "N"])).line("")
    if r.random() < 0.3:
        s.line("list dataset")
    return s


def searches(r):
    """groups of several members, so that it matters how many are examined"""
    s = Cli()
    long = r.random() < 0.3
    quotient = r.random() < 0.2
    lo = 1 if quotient else 0
    rows = gen.table(r, r.randint(1, 2) if long else r.randint(2, 4), r.randint(9, 12) if long else r.randint(3, 6), lo, 6)
    other = gen.table(r, 2, r.randint(3, 7), lo, 6)
    s.table("t0", rows, sep=" ").table("t1", other, sep=" ")
    s.line("load a t0").line("load b t1")
    for _ in range(r.randint(1, 2)):
        d = r.choice(["cosine", "sorensen"] if quotient else ["euclidean", "manhattan", "chebyshev"])
        s.line("group a %s %s" % (r.choice(["0.125", "0.25", "0.375"] if quotient else ["0.5", "1", "1.375", "2", "3", "4"]), d))
        s.line("list dataset")
        if r.random() < 0.5:
            s.line(r.choice(["timer", "timer on", "timer off", "timer off"]))
        for _ in range(6):
            q, qr = r.choice([("a", rows), ("b", other)])
            x = gen.sub(r, qr, 2) or (0, -1, -1)
            if r.random() < 0.15:
                x = (r.randint(-1, len(qr)), -1, -1)
            k = r.choice([1, 1, 2, 3, 3, 7])
            ke = k + r.choice([-1, 0, 1, 2, 3, 5, 9, 30])
            c = r.choice(["sim", "ksim", "ksim", "ksim", "ksimBF"])
            if c == "sim":
                s.line(("sim a %s %d" % (q, x[0])) + r.choice(["", " %d %d" % x[1:], " %d %d" % x[1:]]))
            elif c == "ksim":
                s.line(("ksim %d a %s %d" % (k, q, x[0])) + r.choice(["", " %d" % ke, " %d %d" % x[1:]] + [" %d %d %d" % (x[1:] + (ke,))] * 3))
            else:
                s.line(("ksimBF %d a %s %d" % (k, q, x[0])) + r.choice(["", " %d %d" % x[1:], " %d %d" % x[1:]]))
    s.line("quit")
    return s


FULL = ["load c t0 \\s 1 1 0", "save a s0 ,", "unload a", "list dataset", "list distance", "timer on", "distance a 0 0 1 b 0 1 2 manhattan",
        "group a 0.5 manhattan", "saveGroups a g1 1", "loadGroups a g0", "normalize a", "sim a b 0 0 2", "ksim 1 a b 0 0 2 3",
        "ksimBF 1 a b 0 0 2", "print a 0 1 3", "help load", "help quit", "quit", "exit"]


def usages():
    """every command with every number of arguments, and with each argument spoiled"""
    lines = []
    for f in FULL:
        t = f.split(" ")
        for n in range(len(t) + 3):
            lines.append((t + ["1", "0", "1"])[:n + 1])
        for i in range(1, len(t)):
            for w in ("x", "1x", "1.5", "-1", "7", "zz"):
                if not (t[0] in ("save", "saveGroups") and i == 2):
                    lines.append(t[:i] + [w] + t[i + 1:])
    out = []
    for t in lines + [["help"], ["list", "distance"]]:
        s = Cli()
        s.table("t0", [[0, 2, 1, 1], [1, 1, 2, 0]], sep=" ").table("t1", [[2, 0, 1]], sep=" ")
        for x in ("load a t0", "load b t1", "group a 1", "saveGroups a g0", " ".join(t), "list dataset", "quit"):
            s.line(x)
        out.append(s)
    return out


# operations of StoreWalk that the program has
HAS = lambda op: op[0] not in ("unloadall", "prep", "paa", "match", "group threads", "prep wrong") and op[2] != "txt"


def followed(r, ops, wanted):
    """typed in: a walk through StoreWalk"""
    s = Cli()
    rows = {}
    for p, n in (("t0", r.randint(1, 2)), ("t1", 3)):
        rows[p] = gen.table(r, n, r.randint(2, 4), 0, 2)
        rows[p][0] = ([0, 2] + rows[p][0])[:4]
        s.table(p, rows[p], sep=" ")
    ds, saved = {}, False

    def sub(n):
        return (gen.sub(r, rows[ds[n]], 2) if n in ds else None) or (0, -1, -1)

    for o, n, x, ok in ops:
        if o == "load":
            s.line("load %s %s" % (n, x))
            if ok:
                ds[n] = x
        elif o == "unload":
            s.line("unload " + n)
            ds.pop(n, None)
        elif o == "norm":
            s.line("normalize " + n)
        elif o == "group":
            s.line("group %s %s %s" % (n, r.choice(["0", "0.5", "1", "1.375"]), r.choice(gen.ORDERED)))
        elif o == "save":
            s.line("saveGroups %s g" % n)
            saved = saved or ok
        elif o == "restore":
            s.line("loadGroups %s g" % n)
        elif o == "best":
            s.line("sim %s %s %d %d %d" % ((n, x) + sub(x)))
        elif o == "kbest":
            k = r.choice([1, 2, 4])
            s.line("ksim %d %s %s %d %d %d %d" % ((k, n, x) + sub(x) + (k + r.choice([0, 1, 5]),)))
        elif o == "brute":
            s.line("ksimBF %d %s %s %d %d %d" % ((r.choice([1, 2, 5]), n, x) + sub(x)))
        elif o == "dist":
            s.line("distance %s %d %d %d %s %d %d %d %s_dtw" % ((n,) + sub(n) + (x,) + sub(x) + (r.choice(gen.ORDERED),)))
        elif o == "ts":
            s.line("print %s %d %d %d" % ((n,) + sub(n)))
        elif o == "load missing":
            s.line("load %s nofile" % n)
        elif o == "load wrong":
            s.file("bad", r.choice(["1 2 3\n4 x 6\n", "a\n", "1 2 3\n1 2 3\n1 2 -\n"])).line("load %s bad" % n)
        elif o == "group wrong":
            s.line("group %s 1 %s" % (n, r.choice(["nodist", "euclid", "euclidean_dtw"])))
        elif o == "restore cut":
            s.line("loadGroups %s t1" % n)
        elif o == "restore junk":
            s.file("junk", r.choice(["", "hello\n", "1 2 3\n4 5 6\n"]), kind="junk").line("loadGroups %s junk" % n)
        elif o == "restore missing":
            s.line("loadGroups %s nofile" % n)
        elif o == "save nowhere":
            s.line("%s %s nodir/x" % (r.choice(["save", "saveGroups"]), n))
        elif o == "k wrong":
            s.line(r.choice(["ksim 0 %s %s 0", "ksim 3 %s %s 0 2", "ksimBF 0 %s %s 0"]) % (n, n))
        else:
            raise CheckError("StoreWalk: unknown operation " + o)
        if r.random() < 0.2:
            s.line("list dataset")
    return s.line("quit")


def programs():
    build_cli()


def run(check):
    try:
        prog = build_cli()
    except CheckError as e:
        print("note: the command line program cannot be driven: %s" % str(e)[:2000])
        check.extra["program"] = "not compiled"
        return
    sess = [session(gen.rng("C19", i)) for i in range(check.pick(250, 1200))]
    sess += usages()
    sess += walks.sessions(check, lambda op: True, check.pick(2500, 8000), has=HAS, concrete=followed)
    sess += [searches(gen.rng("C19search", i)) for i in range(check.pick(200, 900))]
    got, fails = run_sessions(prog, sess, check.work)
    for f in fails:
        check.crash(prog, sess, f)
    traces = []
    for i, s in enumerate(sess):
        t, _, problem = to_trace(s, got[i])
        if problem:
            check.violation("session %d: %s" % (i, problem[1]), {"script": s.script(i)})
        if len(got[i]) != len(s.cmds):
            check.violation("session %d: the program reads on after its end" % i, {"script": s.script(i)})
        traces.append(clamp(digest(t)))
    text = lambda i: "\n".join(e["raw"] for c, e in sess[i].cmds if e["op"] == "line") + "\n"
    check.judge(traces, "CliTrace", text)
