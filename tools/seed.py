#!/usr/bin/env python3
"""development tool (no check uses it): seed.py new <id> : diff of /tmp/seed/repo against /repo's HEAD becomes seeded/<id>/patch.diff
seed.py confirm <id>... : the patch applies, builds, passes the stable tests, the demo tells the trees apart
seed.py catch <id>... : run the property's quick check against the patched copy. KMC_REPO selects the tree."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = V + "/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh(d, patch=None):
    sh("rm -rf %s && mkdir -p %s && git -C /repo archive HEAD | tar x -C %s" % (d, d, d))
    if patch:
        p = sh("cd %s && git init -q . && git apply -v %s" % (d, patch))
        if p.returncode: print(p.stdout); return False
    return True
def build(d):
    p = sh("CC=gcc CXX=g++ cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DGTEST_ROOT=/usr/src/googletest/googletest -DUSE_CXX=ON -DCMAKE_C_FLAGS=-I%s/fcontext/src -DCMAKE_CXX_FLAGS=-I%s/fcontext/src && ninja -C %s/_build" % (d, d, d, d, d))
    if p.returncode: print(p.stdout[-3000:])
    return p.returncode == 0
def tests(d):
    sh("rm -rf %s/_build/testrun; mkdir -p %s/_build/testrun; python3 /opt/vp/run_tests.py %s/_build/kasync_fiber_test %s/_build/testrun" % (d, d, d, d))
    ok = [l.split()[1] for l in open(d + "/_build/testrun/results.txt") if l.startswith("PASS")]
    return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]
def demo(i, d):
    t = "/tmp/seed_demo_%s" % i; sh("rm -rf %s; cp -r %s/%s %s; rm -f %s/*.diff %s/meta.json" % (t, S, i, t, t, t))
    p = sh("timeout 300 bash %s/demo.sh" % t, cwd=d); sh("rm -rf %s" % t); return p
cmd, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(S))
if cmd == "fresh": fresh("/tmp/seed/repo"); sh("cd /tmp/seed/repo && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm base")
elif cmd == "new":
    os.makedirs(S + "/" + ids[0], exist_ok=True); p = None; open(S + "/" + ids[0] + "/patch.diff", "w", newline="").write(subprocess.run("cd /tmp/seed/repo && git diff", shell=True, stdout=subprocess.PIPE).stdout.decode("latin-1")) if False else open(S + "/" + ids[0] + "/patch.diff", "wb").write(subprocess.run("cd /tmp/seed/repo && git diff -U1", shell=True, stdout=subprocess.PIPE).stdout); sh("cd /tmp/seed/repo && git checkout -q .")
elif cmd == "confirm":
    b = "/tmp/seed/base"; fresh(b); build(b)
    for i in ids:
        d = "/tmp/seed/" + i; ok = fresh(d, "%s/%s/patch.diff" % (S, i)) and build(d); bad = tests(d) if ok else None
        p0, p1 = demo(i, b), demo(i, d) if ok else None
        good = ok and not bad and p0.returncode == 0 and p1.returncode != 0
        print(i, "CONFIRMED" if good else "NOT CONFIRMED", "build", ok, "failing tests", bad, "demo base", p0.returncode, "demo patched", p1 and p1.returncode, flush=True)
        print("   ", (p1 and p1.stdout or "").strip()[-300:].replace("\n", " | "))
        if not good: print(p0.stdout[-1500:])
        shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(b, ignore_errors=True)
elif cmd == "catch":
    for i in ids:
        m = json.load(open("%s/%s/meta.json" % (S, i))); d = "/tmp/seed/c_" + i
        if not fresh(d, "%s/%s/patch.diff" % (S, i)): continue
        p = sh("KMC_REPO=%s python3 %s/run.py %s --tier quick" % (d, V, m["property"])); l = p.stdout.strip().splitlines()
        print(i, m["property"], "CAUGHT" if p.returncode == 1 else "MISSED rc=%d" % p.returncode, [x for x in l if "VIOLATION" in x or "kmc:" not in x][-2:], flush=True); shutil.rmtree(d, ignore_errors=True)
