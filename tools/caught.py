#!/usr/bin/env python3
"""Which checks notice which planted bugs.

caught.py [--checks own|all|C01,C02] [ids...]

Every patch is applied to a scratch copy of /repo's HEAD and the checks are run against it.
"""
import argparse, json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ["C%02d" % i for i in range(1, 40) if os.path.exists(os.path.join(VERIF, "lib", "p%02d.py" % i))]

ap = argparse.ArgumentParser()
ap.add_argument("--checks", default="own")
ap.add_argument("ids", nargs="*")
a = ap.parse_args()
for b in sorted(a.ids or os.listdir(os.path.join(VERIF, "seeded"))):
    d = os.path.join(VERIF, "seeded", b)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="caught-")
    try:
        os.mkdir(tmp + "/repo")
        subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s/repo" % tmp, shell=True)
        subprocess.check_call(["git", "apply", os.path.join(d, "patch.diff")], cwd=tmp + "/repo")
        res = []
        for c in [prop] if a.checks == "own" else ALL if a.checks == "all" else a.checks.split(","):
            r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), c], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace",
                               env=dict(os.environ, VERIF_REPO=tmp + "/repo", VERIF_OUT=tmp + "/out"))
            res.append("%s:%s" % (c, {0: "quiet", 1: "caught"}.get(r.returncode, "exit %d" % r.returncode)))
        print("%-28s %s" % (b, " ".join(res)), flush=True)
    finally:
        shutil.rmtree(tmp)
