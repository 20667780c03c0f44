#!/usr/bin/env python3
"""sweep.py [ids...]: applies every planted change in seeded/ to a scratch copy of /repo, one after another,
runs the check of its property and prints which are caught. Not used by any check."""
import sys, os, subprocess, json, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = "/tmp/sweepwork"; R = W + "/repo"
shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
subprocess.run(["cp", "-a", "/repo", R], check=True)
miss = []
seed = os.environ.get("VERIF_SEED", "1")
for sid in sorted(os.listdir(VERIF + "/seeded")):
    if len(sys.argv) > 1 and sid not in sys.argv[1:]: continue
    sd = VERIF + "/seeded/" + sid
    m = json.load(open(sd + "/meta.json"))
    if subprocess.run(["git", "-C", R, "apply", sd + "/patch.diff"]).returncode: print(sid, "DOES NOT APPLY", flush=True); miss.append(sid); continue
    r = subprocess.run(["python3", VERIF + "/check.py", m["property"]], env={**os.environ, "VERIF_REPO": R, "VERIF_SEED": seed}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    v = r.returncode == 1 and "VIOLATION property=" + m["property"] in r.stdout
    print(sid, m["property"], "CAUGHT" if v else "MISSED rc=%d" % r.returncode, (r.stdout.strip().splitlines() or [""])[0][:140], flush=True)
    if not v: miss.append(sid)
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
shutil.rmtree(W, ignore_errors=True)
print("missed:", miss)
