#!/usr/bin/env python3
"""Write the planted bugs of tools/planted.py to seeded/<id>/ and confirm each in a scratch copy.

usage: plant.py [ids...]
"""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from planted import BUGS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/plant"
DEMO = """#!/bin/bash
# Builds demo.cpp against the library in _build and runs it in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf -- "$tmp"' EXIT
g++ -std=c++11 -O1 -w -I"$repo/genex" -I"$repo" "$here/demo.cpp" "$repo/_build/genex/libgenexLib.a" \\
  -lboost_serialization -lboost_iostreams -lpthread -o "$tmp/demo" || exit 2
cd "$tmp" && timeout 120 ./demo
"""
HEAD = """#include "GenexAPI.hpp"
#include "Exception.hpp"
#include "distance/Distance.hpp"
#include "TimeSeries.hpp"

#include <cmath>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <string>
#include <vector>

using namespace genex;

static void file(const char* path, const std::string& text) { std::ofstream(path) << text; }
static int failures = 0;
#define EXPECT(c) do { if (!(c)) { printf("line %d: %s does not hold\\n", __LINE__, #c); failures++; } } while (0)

"""


def run(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def build(tree):
    s = open("/opt/vp/build.sh").read().replace("cd /repo\n", "cd %s\n" % tree)
    return run("bash", "-c", s)


def tests(tree):
    """names of the tests that pass"""
    res = tree + "/_build/results.txt"
    run("python3", "/opt/vp/run_tests.py", tree, tree + "/_build", res)
    return {l.split(" ", 1)[1].strip() for l in open(res) if l.startswith("PASS")} if os.path.exists(res) else set()


def main():
    want = sys.argv[1:]
    shutil.rmtree(SCRATCH, ignore_errors=True)
    os.makedirs(SCRATCH)
    tree = SCRATCH + "/repo"
    run("cp", "-a", "/repo", tree)
    run("rm", "-rf", SCRATCH + "/repo/_build")
    b = build(tree)
    assert b.returncode == 0, b.stdout[-2000:]
    base = tests(tree)
    assert len(base) > 10, base
    for b in BUGS:
        if want and b["id"] not in want:
            continue
        out = os.path.join(VERIF, "seeded", b["id"])
        os.makedirs(out, exist_ok=True)
        if b["demo"]:
            open(out + "/demo.cpp", "w").write((HEAD if not b.get("raw") else "") + b["demo"].lstrip("\n"))
        open(out + "/demo.sh", "w").write(b.get("script", DEMO))
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]),
                  open(out + "/meta.json", "w"), indent=1)
        d0 = run("bash", out + "/demo.sh", cwd=tree)
        msgs = []
        if d0.returncode:
            msgs.append("demo fails on the unchanged tree: " + d0.stdout[-600:])
        for f, old, new in b["edits"]:
            p = os.path.join(tree, f)
            s = open(p).read()
            if s.count(old) != 1:
                msgs.append("%d places in %s" % (s.count(old), f))
            open(p, "w").write(s.replace(old, new, 1))
        diff = run("git", "-C", tree, "diff").stdout
        open(out + "/patch.diff", "w").write(diff)
        # every line it takes away has to be one of the original repository
        for f in set(e[0] for e in b["edits"]):
            blame = run("git", "-C", tree, "blame", "-s", "HEAD", "--", f).stdout.splitlines()
            d = run("git", "-C", tree, "diff", "-U0", "--", f).stdout.splitlines()
            gone = mine = 0
            at = 0
            for l in d:
                if l.startswith("@@"):
                    at = int(l.split()[1][1:].split(",")[0])
                elif l.startswith("-") and not l.startswith("---"):
                    gone += 1
                    mine += not blame[at - 1].startswith("^")
                    at += 1
            if mine:
                msgs.append("%s: takes away %d line(s) of later commits" % (f, mine))
            if not gone:
                msgs.append("%s: takes away no line" % f)
        r = build(tree)
        if r.returncode:
            msgs.append("does not build: " + r.stdout[-800:])
        else:
            t = sorted(base - tests(tree))
            if t:
                msgs.append("fails tests: " + " | ".join(t))
            d1 = run("bash", out + "/demo.sh", cwd=tree)
            if d1.returncode == 0:
                msgs.append("demo passes with the change")
            print("%-28s %s %s" % (b["id"], b["prop"], "ok" if not msgs else "NOT OK"), flush=True)
            print("    " + d1.stdout.strip().replace("\n", "\n    ")[:500])
        for x in msgs:
            print("    !! " + x, flush=True)
        run("git", "-C", tree, "checkout", "--", ".")
    shutil.rmtree(SCRATCH, ignore_errors=True)


if __name__ == "__main__":
    main()
