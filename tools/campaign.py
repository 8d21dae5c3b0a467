#!/usr/bin/env python3
"""Runs checks against changed copies of /repo.

campaign.py MUTANTS.py [--checks all|own|C01,C02] [--only id,id] [--jobs N]

MUTANTS.py defines M, a list of dicts: id, prop (expected property), file, old, new (exact text, must be unique;
'edits' may instead list several (file, old, new)).  Every changed copy is built with its tests in a scratch
directory under /tmp; those that the tests do not notice are given to the checks.  Nothing in /repo is touched.
"""
import argparse, importlib.util, json, os, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("CAMPAIGN_DIR", "/tmp/campaign")
ALL = ["C%02d" % i for i in range(1, 30) if os.path.exists(os.path.join(VERIF, "lib", "p%02d.py" % i))]


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def prepare(w):
    d = os.path.join(BASE, "w%d" % w)
    shutil.rmtree(d, ignore_errors=True)          # a campaign that was stopped leaves its last change behind
    if not os.path.exists(d):
        os.makedirs(d)
        sh("cd /repo && git archive HEAD | tar -x -C %s" % d, shell=True)
        sh(["cmake", "-S", d, "-B", d + "/_build", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
            "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1", "-DBUILD_CLI=ON", "-DBUILD_TESTS=ON", "-DBUILD_PYGENEX=OFF"])
        r = sh(["ninja", "-C", d + "/_build"])
        assert r.returncode == 0, r.stdout[-2000:]
    return d


def tests(d, base):
    res = d + "/_build/results.txt"
    if os.path.exists(res):
        os.unlink(res)
    p = subprocess.Popen(["python3", "/opt/vp/run_tests.py", d, d + "/_build", res], stdout=subprocess.DEVNULL,
                         stderr=subprocess.DEVNULL, start_new_session=True)
    try:
        p.wait(120)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return ["timeout"]
    got = {l.split(" ", 1)[1].strip() for l in open(res) if l.startswith("PASS")} if os.path.exists(res) else set()
    return sorted(base - got)


def run(m, d, checks, base):
    edits = [] if "line" in m else m.get("edits") or [(m["file"], m["old"], m["new"])]
    orig = {}
    try:
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            orig.setdefault(p, s)
            if s.count(old) != 1:
                return dict(id=m["id"], status="text occurs %d times" % s.count(old))
            open(p, "w").write(s.replace(old, new))
        if "line" in m:
            f, n, old, new = m["line"]
            p = os.path.join(d, f)
            orig[p] = open(p).read()
            lines = orig[p].split("\n")
            if lines[n] != old:
                return dict(id=m["id"], status="line differs")
            lines[n] = new
            open(p, "w").write("\n".join(lines))
        r = sh(["ninja", "-C", d + "/_build"], timeout=600)
        if r.returncode:
            return dict(id=m["id"], status="does not build", out=r.stdout[-1500:])
        failed = tests(d, base)
        if failed:
            return dict(id=m["id"], status="fails tests", out=" ".join(failed[:5]))
        out = {}
        first = checks == "map"
        for c in (m["checks"].split() if first else ALL if checks == "all" else [m["prop"]] if checks == "own" else checks.split(",")):
            e = dict(os.environ, VERIF_REPO=d, VERIF_OUT=d + "/_vb")
            t = time.time()
            try:
                r = sh([sys.executable, os.path.join(BASE, "verif", "check.py"), c], env=e, cwd=os.path.join(BASE, "verif"), timeout=900)
                code, text = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                code, text = -1, "timeout"
            out[c] = (code, round(time.time() - t, 1), text[-300:] if code not in (0, 1) else text[:160] if code else "")
            if first and code == 1:
                break
        return dict(id=m["id"], prop=m["prop"], status="ran", checks=out)
    finally:
        for p, s in orig.items():
            open(p, "w").write(s)
        shutil.rmtree(d + "/_vb", ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mutants")
    ap.add_argument("--checks", default="own")
    ap.add_argument("--only", default="")
    ap.add_argument("--jobs", type=int, default=3)
    a = ap.parse_args()
    spec = importlib.util.spec_from_file_location("m", a.mutants)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    ms = [m for m in mod.M if not a.only or m["id"] in a.only.split(",")]
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    # the checks as they are now, whatever is changed meanwhile
    snap = os.path.join(BASE, "verif")
    shutil.rmtree(snap, ignore_errors=True)
    shutil.copytree(VERIF, snap, ignore=shutil.ignore_patterns(".git", ".build", ".work", "evidence", "__pycache__"))
    free = []
    for w in range(a.jobs):
        free.append(prepare(w))

    def one(m):
        d = free.pop()
        try:
            r = run(m, d, a.checks, base)
        except Exception as e:
            r = dict(id=m["id"], status="error %r" % e)
        finally:
            free.append(d)
        c = r.get("checks", {})
        own = c.get(m["prop"])
        word = r["status"] if not c else "CAUGHT" if (own and own[0] == 1 or "line" in m and any(v[0] == 1 for v in c.values())) else "missed" if own else "?"
        print("%-28s %-4s %-14s by %s %s" % (r["id"], m["prop"], word, ",".join(k for k, v in c.items() if v[0] == 1),
              " ".join("%s=%s" % (k, v[0]) for k, v in c.items() if v[0] not in (0, 1))), r.get("out", "")[:300 if "line" not in m else 60].replace("\n", " "),
              "| " + m["line"][3].strip() if "line" in m and "missed" in word else "", flush=True)
        with open(os.path.join(BASE, "results.jsonl"), "a") as f:
            f.write(json.dumps(r) + "\n")

    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, ms))


main()
