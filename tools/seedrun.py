"""seedrun.py [ID..]: run the check of its property against every seeded change, in copies of /repo's tree applied one after another (never while anything else uses /repo)"""
import sys, os, json, subprocess, glob, time
ids = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob("/verif/seeded/*"))
for i in ids:
    d = "/verif/seeded/" + i
    pid = json.load(open(d + "/meta.json"))["property"]
    a = subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], capture_output=True, text=True)
    if a.returncode: print(i, "APPLY", a.stderr); continue
    t = time.time()
    try: r = subprocess.run(["timeout", "900", "python3-vt", "pysym/runner.py", pid, "-j", "8"], cwd="/verif", capture_output=True, text=True)
    finally: subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(i, "CAUGHT" if r.returncode == 1 and v else "MISSED (rc %d)" % r.returncode, len(v), "%.0fs" % (time.time()-t), v[0][:140] if v else r.stdout[-300:], flush=True)
