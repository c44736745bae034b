"""plant.py SPEC.py [ID..] [--notest] [--nocheck]
Creates /verif/seeded/<id>/ from the specification SPEC.py (BUGS = list of dict(id, property, needs, breaks, edits=[(file, old, new)], demo)) after confirming in a
scratch copy of /repo that the stable tests pass and that the demonstration tells both trees apart, then says whether the check of the property finds the change."""
import sys, os, subprocess, json, shutil, runpy
args = [a for a in sys.argv[1:] if not a.startswith("--")]
spec = runpy.run_path(args[0])["BUGS"]
only = args[1:]
for bug in spec:
    if only and bug["id"] not in only: continue
    ID = bug["id"]; T = "/tmp/plant_" + ID
    shutil.rmtree(T, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", T], check=True)
    ok = True
    for f, old, new in bug["edits"]:
        s = open(os.path.join(T, f), encoding="utf-8").read()
        if s.count(old) != 1:
            print(ID, "EDIT does not match uniquely:", s.count(old), f); ok = False; break
        open(os.path.join(T, f), "w", encoding="utf-8").write(s.replace(old, new))
    if ok:
        D = "/tmp/plantdir_" + ID; shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
        patch = subprocess.run(["git", "diff"], cwd=T, capture_output=True, text=True).stdout
        open(D + "/patch.diff", "w").write(patch)
        open(D + "/demo.py", "w").write(bug["demo"])
        open(D + "/demo.sh", "w").write('#!/bin/sh\nd=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec python3 "$d/demo.py"\n')
        for name, data in bug.get("files", {}).items(): open(os.path.join(D, name), "wb" if isinstance(data, bytes) else "w").write(data)
        os.chmod(D + "/demo.sh", 0o755)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(D + "/meta.json", "w"), indent=1)
        r0 = subprocess.run(["sh", D + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        r1 = subprocess.run(["sh", D + "/demo.sh"], cwd=T, capture_output=True, text=True)
        if r0.returncode: print(ID, "DEMO fails on the unchanged tree:", (r0.stdout + r0.stderr)[-600:]); ok = False
        if not r1.returncode: print(ID, "DEMO passes with the patch"); ok = False
        else: print(ID, "demo:", (r1.stdout + r1.stderr).strip().splitlines()[-1][:150])
    if ok and "--notest" not in sys.argv:
        # the tests of the scratch copy
        V = "/tmp/plant_vp_" + ID
        shutil.rmtree(V, ignore_errors=True); shutil.copytree("/opt/vp", V)
        for f in os.listdir(V):
            if f.endswith((".py", ".sh")) or f == "pyxrc":
                s = open(os.path.join(V, f)).read().replace("/repo", T).replace("/opt/vp", V)
                open(os.path.join(V, f), "w").write(s)
        r = subprocess.run(["bash", V + "/test.sh", "/tmp/plant_%s.json" % ID], capture_output=True, text=True)
        shutil.rmtree(V, ignore_errors=True)
        try:
            o = json.load(open("/tmp/plant_%s.json" % ID)); b = json.load(open("/opt/vp/BASELINE.json"))
            miss = set(b["stable"]) - set(o["passed"])
            if miss: print(ID, "TESTS fail:", list(miss)[:3]); ok = False
        except Exception as e:
            print(ID, "TESTS gave no result", e, r.stdout[-300:], r.stderr[-300:]); ok = False
    if ok:
        dest = "/verif/seeded/" + ID
        shutil.rmtree(dest, ignore_errors=True); shutil.copytree(D, dest)
        if "--nocheck" not in sys.argv:
            a = subprocess.run(["git", "-C", "/repo", "apply", dest + "/patch.diff"], capture_output=True, text=True)
            if a.returncode: print(ID, "APPLY", a.stderr)
            else:
                try:
                    r = subprocess.run(["timeout", "900", "python3-vt", "pysym/runner.py", bug["property"], "-j", "8"], cwd="/verif", capture_output=True, text=True)
                finally:
                    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                print(ID, "CAUGHT" if r.returncode == 1 and v else "MISSED (rc %d)" % r.returncode, v[0][:160] if v else r.stdout[-200:])
    shutil.rmtree(T, ignore_errors=True)
    shutil.rmtree("/tmp/plantdir_" + ID, ignore_errors=True)
    sys.stdout.flush()
