"""Building the harness, running sessions and validating them with TLC."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", VERIF)     # builds, scratch files and evidence
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = min(8, os.cpu_count() or 1)
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
QUIET_S = 120          # a session without progress for that long counts as hanging


class CheckError(Exception):
    """The check itself could not be carried out."""


# ---- work directories -------------------------------------------------------

class Work:
    def __init__(self, name):
        self.path = os.path.join(OUT, ".work", "%s-%d" % (name, os.getpid()))
        shutil.rmtree(self.path, ignore_errors=True)
        os.makedirs(self.path)

    def sub(self, name):
        p = os.path.join(self.path, name)
        os.makedirs(p, exist_ok=True)
        return p

    def remove(self):
        shutil.rmtree(self.path, ignore_errors=True)


# ---- building -----------------------------------------------------------------

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined",
       "-ftrivial-auto-var-init=pattern"]
BASE = ["g++", "-std=c++11", "-w", "-fPIC", "-pthread"]
LIBS = ["-lboost_serialization", "-lboost_iostreams", "-lz", "-pthread"]


def sources(sub="genex"):
    return sorted(glob.glob(os.path.join(REPO, sub, "**", "*.cpp"), recursive=True))


def tree_hash(extra=()):
    h = hashlib.sha256()
    files = []
    for sub in ("genex", "cli", "pygenex"):
        for ext in ("cpp", "hpp", "h", "c", "cc"):
            files += glob.glob(os.path.join(REPO, sub, "**", "*." + ext), recursive=True)
    files += glob.glob(os.path.join(HARNESS, "*"))
    for f in sorted(files):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]


def compile_all(jobs, cwd):
    """jobs: (source, object, flags, optional stub flags)."""
    def one(job):
        src, obj, flags, stub = job

        def attempt(*more):
            return subprocess.run(BASE + list(more) + flags + ["-c", src, "-o", obj], cwd=cwd, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, text=True, errors="replace")
        r = attempt()
        if r.returncode and attempt("-std=c++17").returncode == 0:      # sources that have moved on
            return src, subprocess.CompletedProcess([], 0)
        if r.returncode and stub is not None:
            print("note: %s does not compile with the current sources, using its stub" % os.path.basename(src))
            r = attempt(*stub)
        return src, r
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for src, r in ex.map(one, jobs):
            if r.returncode:
                raise CheckError("cannot compile %s:\n%s" % (src, r.stdout[-3000:]))


def build(kind, flags, mains, stubs=(), lib="genex", link=(), inst=(), more=()):
    """Compiles the library sources and the given harness sources; returns the program.
    inst: flags for all sources but sched.cpp, not used for linking; more: other sources with their flags."""
    key = tree_hash((kind, flags, mains, stubs, lib, link, inst, more))
    out = os.path.join(OUT, ".build", "%s-%s" % (kind, key))
    prog = os.path.join(out, kind)
    if os.path.exists(prog):
        return prog
    tmp = out + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    inc = ["-I" + os.path.join(REPO, "genex"), "-I" + HARNESS]
    jobs, objs = [], []
    for i, s in enumerate(sources(lib) if lib else []):
        o = os.path.join(tmp, "lib%d.o" % i)
        jobs.append((s, o, list(flags) + list(inst) + inc, None))
        objs.append(o)
    for i, s in enumerate(mains):
        o = os.path.join(tmp, "main%d.o" % i)
        src = s if os.path.isabs(s) else os.path.join(HARNESS, s)
        extra = [] if s == "sched.cpp" else list(inst)
        jobs.append((src, o, list(flags) + extra + inc, ["-DSTUB"] if s in stubs else None))
        objs.append(o)
    for i, (s, f) in enumerate(more):
        o = os.path.join(tmp, "more%d.o" % i)
        jobs.append((s, o, list(flags) + inc + list(f), None))
        objs.append(o)
    compile_all(jobs, tmp)
    r = subprocess.run(BASE + list(flags) + objs + ["-o", os.path.join(tmp, kind)] + list(link) + LIBS,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise CheckError("cannot link %s:\n%s" % (kind, r.stdout[-3000:]))
    for o in objs:
        os.unlink(o)
    if os.path.exists(out):
        shutil.rmtree(tmp, ignore_errors=True)
    else:
        os.rename(tmp, out)
    return prog


def build_driver():
    return build("driver", ("-O1", "-g") + tuple(SAN), ("driver.cpp", "bounds.cpp", "series.cpp", "parts.cpp", "schedstub.cpp"),
                 stubs=("bounds.cpp", "series.cpp", "parts.cpp"))


def build_scheduled(kind, mains, stubs=(), lib="genex"):
    """a program whose threads are scheduled by sched.cpp"""
    return build(kind, ("-O1", "-g"), tuple(mains) + ("sched.cpp",), stubs=stubs, lib=lib, link=("-ldl",),
                 inst=("-fsanitize=thread",))


def san_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:hard_rss_limit_mb=3000:malloc_fill_byte=203:max_malloc_fill_size=1048576:abort_on_error=0:exitcode=99:" \
                        "allocator_may_return_null=0:detect_stack_use_after_return=1"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:print_stacktrace=1"
    return e


# ---- sessions ------------------------------------------------------------------

def hx(s):
    return "x" + s.encode("latin-1").hex()


class Session:
    """A script for the driver together with the events it stands for."""

    def __init__(self, G=1, scale=0):
        """values are logged in units of 1/G, or with a scale in units of 2^scale (then the model does not read files)"""
        self.G = G
        self.scale = scale
        self.cmds = []        # (driver tokens, event or None)
        self.sizes = {}

    def add(self, tokens, event=None):
        self.cmds.append((" ".join(str(t) for t in tokens), event))
        return self

    # -- harness actions
    def file(self, p, content, kind="text"):
        lines = []
        if kind == "text":
            parts = content.split("\n")
            if parts and parts[-1] == "":
                parts.pop()
            lines = [list(x) for x in parts]
        return self.add(["file", hx(p), hx(content)], dict(op="file", p=p, kind=kind, lines=lines))

    def table(self, p, rows, sep=",", names=None):
        out = []
        for i, r in enumerate(rows):
            c = [repr(v * 2.0 ** self.scale) if self.scale else str(v) for v in r]
            if names:
                c = [names[i]] + c
            out.append(sep.join(c) + "\n")
        return self.file(p, "".join(out), kind="opaque" if self.scale else "text")

    def delete(self, p):
        return self.add(["del", hx(p)], dict(op="del", p=p))

    def cut(self, p, to, n):
        return self.add(["cut", hx(p), hx(to), n], dict(op="cut", p=p, to=to, n=n))

    def damage(self, p, to, kind, at, arg=0):
        return self.add(["damage", hx(p), hx(to), kind, at, hx(arg) if isinstance(arg, str) else arg], dict(op="damage", p=p, to=to, kind=kind))

    def obs(self):
        return self.add(["obs"], dict(op="obs"))

    # -- operations
    def load(self, n, p, seps=",", maxrow=0, startcol=0, named=False):
        return self.add(["load", hx(n), hx(p), hx(seps), maxrow, startcol, int(named)],
                        dict(op="load", n=n, p=p, seps=list(seps), maxrow=maxrow, startcol=startcol, named=bool(named)))

    def sched(self, mode, seed, stutter):
        """how the threads of the next command are scheduled"""
        return self.add(["sched", mode, seed, int(stutter)])

    def unload(self, n):
        return self.add(["unload", hx(n)], dict(op="unload", n=n))

    def drop(self, names, destroy):
        """the second API object loses its datasets"""
        return self.add(["drop", int(destroy)], dict(op="drop", ns=sorted(names)))

    def usage(self, first):
        """what the program holds now and held at the calls before, back to the first"""
        return self.add(["usage", int(first)], dict(op="usage"))

    def unloadall(self):
        return self.add(["unloadall"], dict(op="unloadall"))

    def ts(self, n, x, s=-1, e=-1):
        return self.add(["ts", hx(n), x, s, e], dict(op="ts", n=n, x=x, s=s, e=e))

    def tsname(self, n, x):
        return self.add(["tsname", hx(n), x], dict(op="tsname", n=n, x=x))

    def tslen(self, n, x):
        return self.add(["tslen", hx(n), x], dict(op="tslen", n=n, x=x))

    def norm(self, n, grid=None):
        """grid: from here on values are logged in units of 1/grid"""
        if grid:
            return self.add(["norm", hx(n), grid], dict(op="norm", n=n, grid=grid))
        return self.add(["norm", hx(n)], dict(op="norm", n=n))

    def group(self, n, thr8, dist="euclidean", threads=1, whole=False, op="group", off=0, thr=None):
        """off: so many 1e-9 above thr8 / 8, too little for another grouping but not for another threshold"""
        v = (thr8 / 8.0 + off * 1e-9) * 2.0 ** self.scale if thr is None else thr
        return self.add([op, hx(n), repr(v), hx(dist), threads, int(whole)],
                        dict(op=op, n=n, thr8=thr8, thr="%.17g" % v, dist=dist, threads=threads, whole=bool(whole)))

    def regroup(self, n, thr8, dist, threads, whole=False, off=0):
        return self.group(n, thr8, dist, threads, whole, op="regroup", off=off)

    def save(self, op, n, p, limit=-1, sep=None, dir=True):
        if limit >= 0:
            self.add(["limit", limit])
        if op == "saved" and not sep:
            sep = ","
        t = [op, hx(n), hx(p)] + ([hx(sep)] if sep else [])
        return self.add(t, dict(op=op, n=n, p=p, limit=limit, dir=dir))

    def saveg(self, n, p, **k):
        return self.save("saveg", n, p, **k)

    def saveo(self, n, p, **k):
        return self.save("saveo", n, p, **k)

    def sizes_only(self, n, p, **k):
        return self.save("sizes", n, p, **k)

    def saved(self, n, p, sep=",", **k):
        return self.save("saved", n, p, sep=sep, **k)

    def loadg(self, n, p):
        return self.add(["loadg", hx(n), hx(p)], dict(op="loadg", n=n, p=p))

    def loado(self, n, p):
        return self.add(["loado", hx(n), hx(p)], dict(op="loado", n=n, p=p))

    def ratio(self, num, den, text=None):
        """text: the real ratio, when num/den only has its effect (or 0/0: none)"""
        return self.add(["ratio", text or repr(num / den)], dict(op="ratio", r=[num, den]))

    def prep(self, n, bs):
        return self.add(["prep", hx(n), bs], dict(op="prep", n=n, bs=bs))

    def best(self, t, q, x, s=-1, e=-1):
        return self.add(["best", hx(t), hx(q), x, s, e], dict(op="best", t=t, q=q, x=x, s=s, e=e))

    def kbest(self, k, ke, t, q, x, s=-1, e=-1):
        return self.add(["kbest", k, ke, hx(t), hx(q), x, s, e],
                        dict(op="kbest", k=k, ke=ke, t=t, q=q, x=x, s=s, e=e))

    def brute(self, k, t, q, x, s=-1, e=-1, dist="euclidean"):
        return self.add(["brute", k, hx(t), hx(q), x, s, e, hx(dist)],
                        dict(op="brute", k=k, t=t, q=q, x=x, s=s, e=e, dist=dist))

    def paa(self, k, t, q, x, s=-1, e=-1, dist="euclidean"):
        return self.add(["paa", k, hx(t), hx(q), x, s, e, hx(dist)],
                        dict(op="paa", k=k, t=t, q=q, x=x, s=s, e=e, dist=dist))

    def pair(self, op, a, b, dist, warp):
        name = dist + ("_dtw" if warp else "")
        return self.add([op, hx(a[0]), *a[1:], hx(b[0]), *b[1:], hx(name)],
                        dict(op=op, n1=a[0], x1=a[1], s1=a[2], e1=a[3], n2=b[0], x2=b[1], s2=b[2], e2=b[3],
                             dist=dist, warp=bool(warp)))

    def dists(self):
        return self.add(["dists"], dict(op="dists"))

    def bound(self, a, b, what, dist="euclidean", warp=True, cut=-1, w=0):
        return self.add(["bound", hx(a[0]), *a[1:], hx(b[0]), *b[1:], hx(what), hx(dist), int(warp), cut, w],
                        dict(op="bound", n1=a[0], x1=a[1], s1=a[2], e1=a[3], n2=b[0], x2=b[1], s2=b[2], e2=b[3],
                             what=what, dist=dist, warp=bool(warp), cut=cut, w=w))

    def reload(self, p1, p2, seps=",", maxrow=0, startcol=0, named=False, norm=False):
        return self.add(["reload", hx(p1), hx(p2), hx(seps), maxrow, startcol, int(named), int(norm)],
                        dict(op="reload", p=p2, seps=list(seps), maxrow=maxrow, startcol=startcol, named=bool(named)))

    def blocks(self, p, bs, x, s=-1, e=-1, before=0):
        return self.add(["blocks", hx(p), before, bs, x, s, e], dict(op="blocks", p=p, bs=bs, x=x, s=s, e=e))

    def sv(self, tokens, **ev):
        return self.add(["sv"] + list(tokens), dict(ev))

    def script(self, i):
        return "T %d %r %r\n" % (i, 2.0 ** -self.scale if self.scale else self.G, 2.0 ** self.scale) + "".join(c + "\n" for c, _ in self.cmds)


class Failure:
    """A session that the real code did not survive."""

    def __init__(self, index, at, what):
        self.index, self.at, self.what = index, at, what


def _drive(prog, script, outdir, first, env, quiet=QUIET_S):
    """Runs the driver from the given session on; returns (result lines, problem or None)."""
    res = os.path.join(outdir, "result")
    log = os.path.join(outdir, "log")
    if os.path.exists(res):
        os.unlink(res)
    with open(log, "wb") as lf:
        p = subprocess.Popen([prog, script, res, outdir, str(first)], stdout=subprocess.DEVNULL, stderr=lf,
                             stdin=subprocess.DEVNULL, env=env, start_new_session=True)
        size, since, why = -1, time.time(), None
        while True:
            try:
                p.wait(0.2 if size < 1000000 else 1)
                break
            except subprocess.TimeoutExpired:
                pass
            s = os.path.getsize(res) if os.path.exists(res) else 0
            if s != size:
                size, since = s, time.time()
            elif time.time() - since > quiet:
                why = "no progress for %d s" % quiet
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
    lines = open(res, errors="replace").read().split("\n") if os.path.exists(res) else []
    lines = [x for x in lines[:-1] if x]
    if lines and lines[-1].startswith('{"END"') and p.returncode == 0:
        return lines[:-1], None
    text = open(log, errors="replace").read()
    if p.returncode in (64, 65):
        raise CheckError("driver: " + text[-500:])
    if why is None:
        m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|terminate called[^\n]*(?:\n[^\n]*)?|Assertion[^\n]*)", text)
        why = m.group(1) if m else "ended with status %s" % p.returncode
    return lines, why


def run_chunk(prog, sessions, base, outdir, env):
    """sessions with indices base.. ; returns ({index: results}, [Failure])"""
    script = os.path.join(outdir, "script")
    with open(script, "w") as f:
        for i, s in enumerate(sessions):
            f.write(s.script(base + i))
    got, fails, first = {}, [], base
    while True:
        lines, why = _drive(prog, script, outdir, first, env)
        cur = None
        for x in lines:
            if x.startswith('{"T":'):
                cur = json.loads(x)["T"]
                got[cur] = []
            else:
                got[cur].append(x)
        if why is None:
            return got, fails
        if cur is None:
            cur = first
            got[cur] = []
        fails.append(Failure(cur, len(got[cur]), why))
        first = cur + 1
        if len(fails) >= 3 or first >= base + len(sessions):
            return got, fails


def run_sessions(prog, sessions, work, env=None, chunks=None):
    env = env or san_env()
    n = chunks or WORKERS
    per = (len(sessions) + n - 1) // n
    jobs = []
    for c in range(n):
        part = sessions[c * per:(c + 1) * per]
        if part:
            jobs.append((part, c * per, work.sub("run%d" % c)))
    got, fails = {}, []
    with cf.ThreadPoolExecutor(n) as ex:
        for g, f in ex.map(lambda j: run_chunk(prog, j[0], j[1], j[2], env), jobs):
            got.update(g)
            fails += f
    return got, fails


def to_trace(session, results):
    """Merges the events of a session with the recorded results."""
    ev, skipped, problem = [], 0, None
    sizes = {}
    for i, ((cmd, e), line) in enumerate(zip(session.cmds, results)):
        if e is None:
            continue
        r = json.loads(line)
        if r.get("unsupported"):
            skipped += 1
            continue
        o = dict(e)
        o.update({k: v for k, v in r.items() if k not in ("err", "races")})
        o.setdefault("ok", True)
        if o.get("ok") and "postfail" in r and problem is None:
            problem = (i, "the dataset cannot be read after %s: %s" % (e.get("op"), r["postfail"]))
        if e.get("op") in ("saveg", "saveo", "saved"):
            key = (e["op"], e["n"])
            if e["limit"] < 0:
                sizes[key] = r.get("size", -1)
            o["size"] = sizes.get(key, -1)
        o.pop("postfail", None)
        ev.append(o)
    return dict(G=session.G, ev=ev), skipped, problem


# ---- TLC ------------------------------------------------------------------------

class TLC:
    def __init__(self, out, code):
        self.out, self.code = out, code
        m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct", out)
        self.generated = int(m.group(1).replace(",", "")) if m else 0
        self.states = int(m.group(2).replace(",", "")) if m else 0
        self.violated = code == 12 or "is violated" in out
        self.finished = code == 0 and "No error has been found" in out

    def last(self, var):
        m = re.findall(r"(?:^|/\\ )%s = (-?\d+)\s*$" % re.escape(var), self.out, re.M)
        return int(m[-1]) if m else None


def tlc(module, work, env=None, cfg=None, workers=WORKERS, args=(), timeout=850, heap="6g"):
    e = dict(os.environ)
    e.update(env or {})
    meta = os.path.join(work.path, "tlc-%s-%d" % (module, time.time_ns()))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + work.path, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
           "-metadir", meta, "-workers", str(workers), "-config", cfg or module + ".cfg"] + list(args) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC on %s did not finish in %d s" % (module, timeout))
    shutil.rmtree(meta, ignore_errors=True)
    return TLC(r.stdout, r.returncode)


def write_traces(path, traces):
    with open(path, "w") as f:
        for t in traces:
            f.write(json.dumps(t, separators=(",", ":")) + "\n")


def clamp(x):
    """TLC's integers have 32 bits."""
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return max(-2000000001, min(2000000001, x))
    if isinstance(x, list):
        return [clamp(v) for v in x]
    if isinstance(x, dict):
        return {k: clamp(v) for k, v in x.items()}
    return x


# ---- verdicts -----------------------------------------------------------------------

class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.work = Work(prop)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.extra, self.assumptions = [], {}, []
        self.ops = {}
        self.skipped = 0
        self.focus = prop          # whose conditions count
        self.rep = os.path.join(OUT, "evidence", prop + ".replay")
        shutil.rmtree(self.rep, ignore_errors=True)

    def thorough(self):
        return TIER == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough() else quick

    def evidence(self, violations):
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, events_validated=self.events,
                   samples=self.samples[:3])
        if self.ops:                              # how often each operation was carried out, and refused
            cov["operations"] = {k: dict(accepted=v[0], refused=v[1]) for k, v in sorted(self.ops.items())}
        if self.skipped:
            cov["events_skipped_unsupported"] = self.skipped
        cov.update(self.extra)
        d = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                 assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations)
        p = os.path.join(OUT, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(d, f, indent=1)
        os.replace(p + ".tmp", p)

    def violation(self, what, files):
        """files: name -> content"""
        os.makedirs(self.rep, exist_ok=True)
        for n, c in files.items():
            with open(os.path.join(self.rep, n), "w") as f:
                f.write(c)
        with open(os.path.join(self.rep, "README"), "w") as f:
            f.write(what + "\n")
        self.evidence(1)
        self.work.remove()
        print(what)
        print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(self.rep, OUT)))
        sys.stdout.flush()
        os._exit(1)

    def held(self):
        self.evidence(0)
        self.work.remove()
        print("%s held: %d traces, %d events validated, %d states, %.1f s"
              % (self.prop, self.traces, self.events, self.states, time.time() - self.t0))
        sys.stdout.flush()
        os._exit(0)

    # -- model checking of the specification itself
    def model(self, module, cfg=None, env=None, consts=None, invariants="", **k):
        if consts is not None:
            cfg = os.path.join(self.work.path, "%s-%d.cfg" % (module, time.time_ns()))
            with open(cfg, "w") as f:
                f.write("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" +
                        "".join(" %s = %s\n" % kv for kv in consts.items()) + "INVARIANTS %s\n" % invariants)
        r = tlc(module, self.work, env=env, cfg=cfg, **k)
        if not r.finished:
            raise CheckError("the specification %s is not consistent:\n%s" % (cfg or module, r.out[-3000:]))
        self.states += r.states
        self.transitions += r.generated
        return r

    # -- sessions against the trace specification
    def validate(self, sessions, module="GenexTrace", prog=None, chunks=None, crash_counts=True):
        prog = prog or build_driver()
        got, fails = run_sessions(prog, sessions, self.work, chunks=chunks)
        for f in fails:
            self.crash(prog, sessions, f)
        traces, index = [], []
        for i in range(len(sessions)):
            t, sk, problem = to_trace(sessions[i], got.get(i, []))
            if problem:
                self.violation("session %d: %s" % (i, problem[1]),
                               {"script": sessions[i].script(i), "results": "\n".join(got.get(i, []))})
            self.skipped += sk
            traces.append(clamp(t))
            index.append(i)
            if len(got.get(i, [])) != len(sessions[i].cmds):
                raise CheckError("session %d has %d results for %d commands" % (i, len(got.get(i, [])), len(sessions[i].cmds)))
        self.judge(traces, module, lambda i: sessions[i].script(i) if i < len(sessions) else "")

    def judge(self, traces, module, script=lambda i: ""):
        f = os.path.join(self.work.path, "trace-%d.ndjson" % time.time_ns())
        write_traces(f, traces)
        env = dict(TRACE=f, FOCUS=self.focus)
        r = tlc(module, self.work, env=env)
        if not r.finished:
            self.reject(r, traces, module, script)
        n = sum(len(t["ev"]) for t in traces)
        if r.generated < n:
            raise CheckError("TLC looked at %d states for %d events" % (r.generated, n))
        for t in traces:
            for e in t["ev"]:
                self.ops.setdefault(str(e.get("op")), [0, 0])[0 if e.get("ok", True) else 1] += 1
        self.states += r.states
        self.transitions += n
        self.traces += len(traces)
        self.events += n
        if len(self.samples) < 3 and traces:
            t = traces[len(traces) // 2]
            s = json.dumps(t["ev"][-1])
            self.samples.append(dict(G=t["G"], events=len(t["ev"]), last_event=s[:600]))
        os.unlink(f)

    def reject(self, r, traces, module, script):
        tr, at = r.last("tr"), r.last("l")
        if tr is None:
            raise CheckError("TLC failed:\n" + r.out[-3000:])
        # the same recorded session once more, alone
        one = os.path.join(self.work.path, "one.ndjson")
        write_traces(one, [traces[tr - 1]])
        again = tlc(module, self.work, env=dict(TRACE=one, FOCUS=self.focus), workers=1)
        if again.finished:
            raise CheckError("TLC rejected session %d once but not again:\n%s" % (tr - 1, r.out[-2000:]))
        pos = again.last("l") or at or 1
        evs = traces[tr - 1]["ev"]
        k = pos - 2 if again.violated else pos - 1
        e = evs[min(max(k, 0), len(evs) - 1)]
        what = "session %d: event %d (%s) of the real code is not allowed by the specification" % (tr - 1, k + 1, e.get("op"))
        self.violation(what + "\n" + json.dumps(e)[:1500],
                       {"trace.ndjson": json.dumps(traces[tr - 1]) + "\n", "script": script(tr - 1),
                        "tlc.out": again.out[-20000:]})

    def crash(self, prog, sessions, f):
        s = sessions[f.index]
        cmd = s.cmds[f.at][0] if f.at < len(s.cmds) else "(end of session)"
        if "status -9" in f.what:
            raise CheckError("the driver was killed")
        self.violation("session %d: the library does not survive command %d (%s): %s" % (f.index, f.at, cmd[:200], f.what),
                       {"script": s.script(f.index)})
