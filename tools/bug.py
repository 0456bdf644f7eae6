#!/usr/bin/env python3
"""Development helper for planted bugs (no check uses it).
  bug.py make DEF.py     for every bug in BUGS of DEF.py: edit a scratch copy of /repo, build, run the stable tests and the demo,
                         and write /verif/seeded/<id>/ when tests pass and the demo tells the two trees apart
  bug.py run ID...       run the property's check against a scratch copy with the patch applied
"""
import importlib.util, json, os, subprocess, sys
SB = os.environ.get("SB", "/tmp/sb")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = HERE + "/seeded"
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d)
g++ -std=c++17 -O0 -w -Iinclude -Isrc -I/usr/include/eigen3 -DBOOST_LOG_DYN_LINK "$d/demo.cc" %s -o "$t/demo" -lboost_log -lboost_thread -lboost_system -lpthread || exit 3
timeout 120 "$t/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def scratch():
    if not os.path.exists(SB):
        sh("cp -a /repo %s" % SB)
    h = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh("git -C %s checkout -q -- .; git -C %s fetch -q /repo; git -C %s checkout -q --detach %s" % (SB, SB, SB, h))


def build():
    r = sh("cmake -S {0} -B {0}/_b -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_BUILD_TYPE=RelWithDebInfo '-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1 -g1' -DBUILD_DOCUMENTATION=OFF -Wno-dev && ninja -C {0}/_b -j8 unit_test".format(SB))
    return r.returncode == 0, r.stdout


def tests():
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    out = "/tmp/sb-tests.json"
    t = open("/opt/vp/test.sh").read().replace("/repo", SB).replace("_build", "_b")
    r = sh("bash -s %s" % out, input=t)
    j = json.load(open(out))
    if base is None:
        return not j["failed"] or j["failed"], j
    bad = sorted(base - set(j["passed"]))
    return bad or True, j


def demo(d):
    r = sh("bash %s/demo.sh" % d, cwd=SB, timeout=400)
    return r.returncode, r.stdout[-600:]


def make(f):
    spec = importlib.util.spec_from_file_location("defs", f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    scratch()
    only = sys.argv[3:]
    for b in m.BUGS:
        if only and b["id"] not in only:
            continue
        d = SEED + "/" + b["id"]
        sh("git -C %s checkout -q -- ." % SB)
        os.makedirs("/tmp/sb-demo/" + b["id"], exist_ok=True)
        dd = "/tmp/sb-demo/" + b["id"]
        open(dd + "/demo.sh", "w").write(DEMO % " ".join("src/" + s for s in b.get("src", [])))
        open(dd + "/demo.cc", "w").write(b["demo"])
        rc, out = demo(dd)
        if rc:
            print(b["id"], "DEMO FAILS ON CLEAN TREE", rc, out)
            continue
        ok = True
        for (file, old, new) in b["edits"]:
            s = open(SB + "/" + file).read()
            if s.count(old) != 1:
                print(b["id"], "old text occurs", s.count(old), "times:", old)
                ok = False
                break
            open(SB + "/" + file, "w").write(s.replace(old, new))
        if not ok:
            continue
        patch = sh("git -C %s diff" % SB).stdout
        rc, out = demo(dd)
        if rc == 0:
            print(b["id"], "DEMO PASSES WITH THE BUG", out)
            continue
        if rc == 3:
            print(b["id"], "DEMO DOES NOT COMPILE WITH THE BUG", out)
            continue
        okb, o = build()
        if not okb:
            print(b["id"], "BUILD FAILS", o[-1500:])
            continue
        t, j = tests()
        if t is not True:
            print(b["id"], "TESTS FAIL", t)
            continue
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/demo.sh", "w").write(open(dd + "/demo.sh").read())
        open(d + "/demo.cc", "w").write(b["demo"])
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(b["id"], "kept")
    sh("git -C %s checkout -q -- ." % SB)


def run(ids):
    scratch()
    for i in ids:
        sh("git -C %s checkout -q -- ." % SB)
        r = sh("git -C %s apply %s/%s/patch.diff" % (SB, SEED, i))
        if r.returncode:
            print(i, "patch does not apply", r.stdout)
            continue
        p = json.load(open("%s/%s/meta.json" % (SEED, i)))["property"]
        r = sh("SV_REPO=%s python3 %s/run.py check %s" % (SB, HERE, os.environ.get("PROP", p)))
        v = [l for l in r.stdout.split("\n") if "VIOLATION" in l or l.startswith("  harness") or "done" in l or "ERROR" in l]
        print(i, "CAUGHT" if r.returncode == 1 and ("VIOLATION property=" + p) in r.stdout else "MISSED rc=%d" % r.returncode, *v[:3], v[-1:] , sep="\n   ", flush=True)
    sh("git -C %s checkout -q -- ." % SB)


if __name__ == "__main__":
    make(sys.argv[2]) if sys.argv[1] == "make" else run(sys.argv[2:])
