#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]: decide one property by exhaustive bounded exploration."""
import sys, os, json, time, glob, shutil, subprocess, tempfile, re
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import kmcbuild
BUDGET = {"quick": 420, "thorough": 820}
def directives(path):
    d = {"LINK": [], "DEFS": [], "CFG": [], "ENGINE": []}
    for l in open(path):
        m = re.match(r"//\s*(LINK|DEFS|CFG|ENGINE):\s*(.*)", l)
        if m: d[m.group(1)] += m.group(2).split() if m.group(1) != "CFG" else [m.group(2)]
    return d
def symbolize(exe, text):
    """replace +0xOFFSET program points by function and line"""
    offs = sorted(set(re.findall(r"\+0x([0-9a-f]+)", text)))[:400]
    if not offs: return text
    p = subprocess.run(["addr2line", "-f", "-C", "-e", exe] + [hex(0x400000 + int(o, 16) - 1) for o in offs], stdout=subprocess.PIPE, text=True)
    ls = p.stdout.splitlines(); m = {o: "%s (%s)" % (ls[2 * i], "/".join(ls[2 * i + 1].split("/")[-2:])) for i, o in enumerate(offs) if 2 * i + 1 < len(ls)}
    return re.sub(r"\+0x([0-9a-f]+)", lambda k: m.get(k.group(1), k.group(0)), text)
def known(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) scenario=(\S+) message=(.*?)(?: ## (.*))?$", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4) or ""))
    return out
def main():
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick"); only = None; args = sys.argv[2:]; j = str(os.cpu_count() or 4)
    while args:
        a = args.pop(0)
        if a == "--tier": tier = args.pop(0)
        elif a == "--scenario": only = args.pop(0)
        elif a == "--replay":
            rp = args.pop(0); hf = re.search(r"^# harness (\S+)", open(rp).read(), re.M).group(1); d = directives(os.path.join(V, "h", hf))
            work = tempfile.mkdtemp(prefix="kmc_replay_", dir="/tmp")
            try: return subprocess.run([kmcbuild.Build(work + "/b", d["DEFS"], "\n".join(d["CFG"]), d["ENGINE"]).run(hf, d["LINK"]), "--replay", rp]).returncode
            finally: shutil.rmtree(work, ignore_errors=True)
    t0 = time.time()
    files = sorted(glob.glob(os.path.join(V, "h", prop + "*.cpp")))
    if not files: print("no harness for", prop); return 2
    work = tempfile.mkdtemp(prefix="kmc_%s_" % prop, dir="/tmp")
    vdir = os.path.join(V, "evidence", "violations"); os.makedirs(vdir, exist_ok=True)
    res = []; viol = None; bad = False; kf = known(prop)
    try:
        kfile = os.path.join(work, "known"); open(kfile, "w").write("".join("%s\t%s\n" % (s, m) for s, m, _ in kf))
        budget = float(os.environ.get("KMC_BUDGET", BUDGET[tier]))
        for n, f in enumerate(files):
            d = directives(f); out = os.path.join(work, "b%d" % n)
            exe = kmcbuild.Build(out, d["DEFS"], "\n".join(d["CFG"]), d["ENGINE"]).run(os.path.basename(f), d["LINK"])
            left = (budget - (time.time() - t0)) / (len(files) - n)
            cmd = [exe, "--tier", tier, "--out", out + "/r.json", "--vdir", out, "--budget", str(max(10, left)), "-j", j, "--known", kfile]
            if only: cmd += ["--scenario", only]
            p = subprocess.run(cmd)
            if only and p.returncode == 2 and len(files) > 1: continue
            if p.returncode not in (0, 1) or not os.path.exists(out + "/r.json"): print("engine error %d" % p.returncode); bad = True; continue
            rs = json.load(open(out + "/r.json"))
            for r in rs:
                res.append(r)
                if r["result"] == "violation":
                    ok = [subprocess.run([exe, "--replay", r["replay"]], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, KMC_QUIET="1")).returncode for _ in range(2)]
                    if ok != [1, 1]: print("violation of %s did not replay: %s %s" % (prop, ok, r["message"])); bad = True; continue
                    dst = os.path.join(vdir, "%s.%s.replay" % (prop, r["scenario"])); shutil.copy(r["replay"], dst)
                    open(dst, "a").write("# harness %s\n" % os.path.basename(f))
                    tr = subprocess.run([exe, "--replay", r["replay"]], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode(errors="replace")
                    open(dst[:-7] + ".trace", "w").write(symbolize(exe, tr))
                    if not viol: viol = (dst, r)
    except kmcbuild.BuildError as e:
        print("build failed:\n" + str(e)); return 2
    finally:
        if not os.environ.get("KMC_KEEP"): shutil.rmtree(work, ignore_errors=True)
    if bad and not viol: return 2
    if only and not res: print("no such scenario"); return 2
    tot = lambda k: sum(r[k] for r in res)
    cov = {"states": tot("states"), "transitions": tot("transitions"),
           "traces_validated_against_impl": tot("executions") - tot("pruned"),
           "traces_note": "every execution runs the real code of /repo under the engine; this counts the executions run to their end",
           "executions_deviating_from_default": tot("deviating"), "distinct_outcomes": tot("outcomes"),
           "exhaustive_within_bounds": not any(r["capped"] for r in res),
           "scenarios": [{"name": r["scenario"], "bounds_completed": r["bounds_completed"], "capped": r["capped"], "rounds": r["rounds"], "outcomes": r["outcomes"], "outcome_samples": r["outcome_samples"], "racy_points": r["racy_points"], "longest_choice_sequence": r["longest"], "wall_s": r["wall_s"]} for r in res],
           "samples": [{"scenario": r["scenario"], "execution": s} for r in res for s in r["samples"][:2]][:24] or [{"scenario": r["scenario"], "execution": "default"} for r in res]}
    hits = []
    for r in res:
        for k in r.get("known", []):
            note = [n for s, m, n in kf if s == r["scenario"] and m == k["message"]]
            hits.append((r["scenario"], k["message"], note[0] if note else ""))
    for s, m, n in hits: print("KNOWN-FINDING: property=%s scenario=%s %s%s" % (prop, s, m, " (%s)" % n if n else ""))
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
          "assumptions": ["see DESIGN.md: engine assumptions (sequential consistency, virtual kernel, x86-64, debug build)"],
          "wall_s": round(time.time() - t0, 2), "violations": sum(1 for r in res if r["result"] == "violation")}
    if viol: ev["violation"] = {"replay": viol[0], "message": viol[1]["message"], "scenario": viol[1]["scenario"]}
    if not only: json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    if viol:
        print("%s: %s" % (viol[1]["scenario"], viol[1]["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, viol[0])); return 1
    print("property %s held: %d executions, %d states, %d transitions in %.1fs" % (prop, tot("executions"), tot("states"), tot("transitions"), time.time() - t0)); return 0
if __name__ == "__main__": sys.exit(main())
