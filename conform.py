#!/usr/bin/env python3
"""compare the virtual kernel with the real one on every call sequence up to a depth; writes conform/RESULT.json (with --record) """
import sys, os, subprocess, tempfile, shutil, json
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import kmcbuild
depth = sys.argv[1] if len(sys.argv) > 1 and sys.argv[1].isdigit() else "3"
w = tempfile.mkdtemp(prefix="kconf_", dir="/tmp")
try:
    subprocess.check_call(["g++", "-O1", "-w", "-o", w + "/native", V + "/conform/native.cpp"])
    runs = [subprocess.run([w + "/native", depth, w], stdout=subprocess.PIPE, check=True).stdout.decode(errors="replace").splitlines() for _ in range(3)]
    ds = [dict(l.split("\t") for l in r) for r in runs]
    stable = {k: v for k, v in ds[0].items() if all(d.get(k) == v for d in ds)}
    open(w + "/tab", "w").write("".join("%s\t%s\n" % i for i in stable.items()))
    exe = kmcbuild.Build(w + "/b").run("KCONF.cpp", [])
    env = dict(os.environ, KCONF_TABLE=w + "/tab", KCONF_DEPTH=depth, **({"KCONF_FAIL": "1"} if "--fail" in sys.argv else {}))
    subprocess.run([exe, "--out", w + "/r.json", "--vdir", w, "-j", "8"], env=env, stdout=None if "--fail" in sys.argv else subprocess.DEVNULL)
    rs = json.load(open(w + "/r.json")); out = {"depth": int(depth), "sequences": len(ds[0]), "deterministic_on_real_kernel": len(stable), "families": [{"family": r["scenario"], "executions": r["executions"], "outcomes": r["outcome_samples"]} for r in rs]}
    if "--setup" in sys.argv:
        os.makedirs(V + "/evidence", exist_ok=True); json.dump(out, open(V + "/evidence/conformance.json", "w"), indent=1)
        for f in out["families"]: print("virtual kernel / real kernel, %-8s %6d call sequences: %s" % (f["family"], f["executions"], ", ".join(f["outcomes"])))
    else: print(json.dumps(out, indent=1))
except Exception as e:
    if "--setup" not in sys.argv: raise
    print("conformance run not possible here:", e)
finally:
    shutil.rmtree(w, ignore_errors=True)
