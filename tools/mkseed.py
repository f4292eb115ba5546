"""mkseed(id, property, [(file under src, old, new[, count])], demo C++ body, needs, what): plants a bug in a scratch copy of /repo,
confirms build + stable tests + demo, and keeps it under /verif/seeded/<id>."""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
HEAD = r'''#include "theoretica.h"
#include <cstdio>
#include <cmath>
#include <cstdlib>
using namespace theoretica;
static int bad = 0;
#define EXPECT(c) do { if(!(c)) { bad++; std::printf("FAILED line %d: %s\n", __LINE__, #c); } } while(0)
static bool close_to(double a, double b, double tol = 1e-8) { return std::fabs(a - b) <= tol * (1 + std::fabs(b)); }
'''
SH = '''#!/bin/bash
# exit 0: the behaviour holds; nonzero: it is broken.  Run with cwd = the repository.
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
g++ -std=c++14 -O0 -w -fsanitize=address,undefined -fno-sanitize-recover=all -I"$PWD/src" "$here/demo.cpp" -o "$t/demo" || { rm -rf "$t"; exit 3; }
ASAN_OPTIONS=detect_leaks=1 timeout 60 "$t/demo"; rc=$?
rm -rf "$t"
exit $rc
'''


def sh(c, cwd=None):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def mkseed(id, prop, edits, demo, needs, what, check=True):
    d = tempfile.mkdtemp(prefix="seed_")
    w = d + "/repo"
    try:
        sh("cp -a /repo %s" % w)
        for e in edits:
            p = w + "/src/" + e[0]
            s = open(p).read()
            n = s.count(e[1])
            if n == 0 or (len(e) < 4 and n != 1):
                print(id, "EDIT does not apply", e[0], n)
                return False
            if len(e) > 3:
                i = -1
                for _ in range(e[3]):
                    i = s.index(e[1], i + 1)
                s = s[:i] + e[2] + s[i + len(e[1]):]
            else:
                s = s.replace(e[1], e[2])
            open(p, "w").write(s)
        diff = sh("git diff", w).stdout
        out = V + "/seeded/" + id
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.cpp", "w").write(HEAD + demo + ("" if "main(" in demo else ""))
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(out + "/meta.json", "w"), indent=1)
        a = sh("bash %s/demo.sh" % out, "/repo")
        b = sh("bash %s/demo.sh" % out, w)
        ok = a.returncode == 0 and b.returncode not in (0, 3)
        if not ok:
            print(id, "DEMO", a.returncode, b.returncode, a.stdout[-800:], b.stdout[-800:])
        # stable tests, built like build.sh but in the copy
        bs = open("/opt/vp/build.sh").read().replace("/repo", w)
        ts = open("/opt/vp/test.sh").read().replace("/repo", w)
        open(d + "/b.sh", "w").write(bs)
        open(d + "/t.sh", "w").write(ts)
        sh("rm -rf %s/_build/CMakeCache.txt %s/_build/CMakeFiles %s/_build/build.ninja" % (w, w, w))
        r = sh("bash %s/b.sh && bash %s/t.sh %s/o.json" % (d, d, d))
        try:
            o = json.load(open(d + "/o.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            passed = set(o["passed"]) if "passed" in o else {k for k, v in o.items() if v}
            miss = [t for t in base if t not in passed]
        except Exception as ex:
            miss = ["%r" % ex, r.stdout[-1500:]]
        if miss:
            print(id, "TESTS", miss[:5])
            ok = False
        caught = None
        if check:
            c = subprocess.run(["./check", prop], cwd=V, env=dict(os.environ, THV_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            caught = c.returncode == 1
            print(id, "CAUGHT" if caught else "MISSED", "|", " ; ".join(c.stdout.strip().split("\n")[-2:])[:300])
        if not ok:
            shutil.rmtree(out, ignore_errors=True)
            print(id, "NOT KEPT")
        return ok, caught
    finally:
        shutil.rmtree(d, ignore_errors=True)
