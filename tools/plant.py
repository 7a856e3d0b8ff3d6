#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: turns planted-bug descriptions into seeded/<id>/, after checking, against
the repository in VP_REPO (default /repo), that the change builds, passes the stable tests, and that
the demonstration passes without and fails with it.  SPEC defines SEEDS = [dict(id, prop, edits=[(file, old, new)],
needs, breaks, demo)].  No check uses this."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = os.environ.get("VP_REPO", "/repo")
VP = os.environ.get("VP_DIR", "/opt/vp")  # the build and test scripts of that repository
ns = {}; exec(open(sys.argv[1]).read(), ns)
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = '''#!/bin/bash
# exits 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d)
CXX=$(command -v clang++-17 || command -v clang++ || echo g++)
"$CXX" -std=c++20 -stdlib=libc++ -O1 -w -iquote . %s -o "$T/demo" "$D/demo.cc" best/log/internal/crash.cc best/text/format.cc best/iter/bounds.cc best/memory/allocator.cc %s || exit 0
timeout 60 "$T/demo"
'''
PRE = '''#include <cstdio>
#include <cstdlib>
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s (line %d)\\n", #c, __LINE__); exit(1); } } while (0)
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def tests():
    b = sh(f"bash {VP}/build.sh")
    if b.returncode: return "build failed: " + (b.stdout + b.stderr)[-600:]
    sh(f"bash {VP}/test.sh /tmp/plant{os.getpid()}.json")
    d = json.load(open(f"/tmp/plant{os.getpid()}.json")); miss = STABLE - set(d["passed"])
    return "tests fail: " + str(sorted(miss)[:4]) if miss else ""
def clean(): sh(f"git -C {R} checkout -q -- .")
assert not sh(f"git -C {R} status --porcelain --untracked-files=no").stdout, "dirty /repo"
for s in ns["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
    d = f"{V}/seeded/{s['id']}"
    try:
        os.makedirs(d, exist_ok=True)
        for f, o, n in s["edits"]:
            t = open(f"{R}/{f}").read()
            assert t.count(o) == 1, (s["id"], "occurrences", t.count(o), o)
            open(f"{R}/{f}", "w").write(t.replace(o, n))
        open(d + "/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
        open(d + "/demo.cc", "w").write(PRE + s["demo"])
        open(d + "/demo.sh", "w").write(DEMO % (s.get("flags", ""), s.get("libs", "")))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        e = tests()
        x = sh(f"bash {d}/demo.sh", cwd=R)
        clean()
        y = sh(f"bash {d}/demo.sh", cwd=R)
        bad = e or (x.returncode == 0 and "demo passes with the change: " + (x.stdout + x.stderr)[-1500:]) or (y.returncode and "demo fails without: " + (y.stdout + y.stderr)[-1500:]) or ("error:" in y.stderr and "demo does not compile: " + y.stderr[-1500:])
        if bad:
            print(s["id"], "DROPPED", bad); sh(f"rm -r {d}"); continue
        print(s["id"], "ok:", x.stdout.strip()[-100:])
    except AssertionError as a: print("BAD SPEC", a)
    finally: clean()
sh(f"bash {VP}/build.sh")
