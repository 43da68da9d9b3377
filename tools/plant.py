#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo and keeps the good ones under seeded/.

  plant.py SPEC.py [id ...]        SPEC.py defines BUGS: list of dict(id, property, edits=[(file, old, new)], needs, breaks, demo)
  plant.py --catch [id ...]        runs the property's check (and any named with --with) against each kept bug

The demo is the body of main() of a small program over the public headers; it returns 0 iff all is well.
"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/plant"       # kept between calls: the build there is incremental
CAT = "/tmp/catch"
PRE = """#include "wave/geometry/geometry.hpp"
#include "wave/geometry/dynamic.hpp"
#include "wave/geometry/estimation.hpp"
#include "wave/geometry/debug.hpp"
#include <iostream>
#include <random>
using namespace wave;
using Eigen::Vector3d; using Eigen::Matrix3d; using Eigen::Matrix4d; using Eigen::Quaterniond; using Eigen::AngleAxisd;
using Vec6 = Eigen::Matrix<double, 6, 1>;
#define CHECK(c) do { if (!(c)) { std::cerr << "failed: " #c << std::endl; return 1; } } while (0)
template <typename A, typename B> bool near(const A &a, const B &b, double tol = 1e-9) { return ((a - b).array().abs() <= tol).all(); }
"""
SH = """#!/bin/bash
# exit 0 iff the demonstration passes; run with cwd = repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -w -O1 %s -I include -I 3rd-party/Tick -isystem /usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" || exit 1
"$t/demo"
"""


def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def main_plant(spec, only):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = os.path.join(ROOT, "seeded", b["id"])
        if not os.path.isdir(SCR):
            sh("git clone -q /repo %s" % SCR)
        sh("git checkout -q -- . && git clean -fdq -e _build && git pull -q", cwd=SCR)
        bad = None
        for f, old, new in b["edits"]:
            p = os.path.join(SCR, "include/wave/geometry/src", f)
            t = open(p).read()
            if t.count(old) != 1:
                bad = "edit matches %d times in %s" % (t.count(old), f)
                break
            open(p, "w").write(t.replace(old, new))
        if bad:
            print(b["id"], "BAD", bad, flush=True)
            continue
        os.makedirs(d, exist_ok=True)
        rc, patch = sh("git diff", cwd=SCR)
        open(d + "/patch.diff", "w").write(patch)
        body = b["demo"]
        open(d + "/demo.cpp", "w").write(PRE + b.get("pre", "") + "int main() {\n" + body + "\n    return 0;\n}\n")
        open(d + "/demo.sh", "w").write(b.get("sh") or SH % b.get("flags", ""))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rc0, o0 = sh("bash %s/demo.sh" % d, cwd="/repo")
        rc1, o1 = sh("bash %s/demo.sh" % d, cwd=SCR)
        if rc0 != 0 or rc1 == 0:
            print(b["id"], "BAD demo: clean", rc0, o0[-600:], "patched", rc1, o1[-300:], flush=True)
            shutil.rmtree(d)
            continue
        # stable tests with the patch, as /opt/vp/test.sh does
        rc, o = sh("export CC=gcc CXX=g++ LC_ALL=C.UTF-8; cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Release -DBUILD_TESTING=ON -DBUILD_BENCHMARKS=ON "
                   "-DCMAKE_FIND_USE_PACKAGE_REGISTRY=OFF >/dev/null && ninja -C _build -k 0 -j8 all && rm -rf _build/reports && mkdir -p _build/reports && cd _build && "
                   "python3 /opt/vp/run_gtests.py %s/_build %s/_build/reports; python3 /opt/vp/results.py /tmp/plant_tests.json 'junit:%s/_build/reports/*.xml' 'lines:%s/_build/reports/*.lines'"
                   % (SCR, SCR, SCR, SCR), cwd=SCR, timeout=3000)
        passed = set()
        if os.path.exists("/tmp/plant_tests.json"):
            passed = set(json.load(open("/tmp/plant_tests.json"))["passed"])
            os.remove("/tmp/plant_tests.json")
        errs = [l for l in o.splitlines() if " error: " in l]
        lost = stable() - passed
        if errs or "FAILED:" in o or lost:
            print(b["id"], "BAD tests:", rc, len(lost), sorted(lost)[:4], errs[:2], flush=True)
            shutil.rmtree(d)
            continue
        print(b["id"], "ok (demo: %s)" % o1.strip()[-150:], flush=True)


def main_catch(ids):
    ids = ids or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    for i in ids:
        d = os.path.join(ROOT, "seeded", i)
        shutil.rmtree(CAT, ignore_errors=True)
        sh("git clone -q /repo %s && cp -a /repo/3rd-party %s/ && cd %s && git apply %s/patch.diff" % (CAT, CAT, CAT, d))
        pid = json.load(open(d + "/meta.json"))["property"]
        rc, o = sh("WAVE_REPO=%s python3 %s/run.py %s" % (CAT, ROOT, pid), timeout=1000)
        ls = o.strip().splitlines()
        why = [l for l in ls if l.startswith("facet") or "error" in l or "not compile" in l]
        print(i, pid, "CAUGHT" if rc == 1 and "VIOLATION property=%s " % pid in o else "MISSED rc=%d" % rc, (why or ls)[0][:200], flush=True)
    shutil.rmtree(CAT, ignore_errors=True)


a = sys.argv[1:]
if a[0] == "--catch":
    main_catch(a[1:])
else:
    main_plant(a[0], a[1:])
