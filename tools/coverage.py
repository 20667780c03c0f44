#!/usr/bin/env python3
"""coverage.py [scale] [ids...]: runs the harnesses built with gcov in a scratch copy and lists library lines no workload executed (development tool)"""
import sys, os, subprocess, shutil, glob, json, re, collections
W = "/tmp/cov"; shutil.rmtree(W, ignore_errors=True); os.makedirs(W + "/verif")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for x in ("check.py", "props_cfg.py", "offline.py", "harness", "known_findings.txt"): subprocess.run(["cp", "-a", V + "/" + x, W + "/verif/"])
with open(W + "/verif/props_cfg.py", "a") as f:
    f.write('''
for _p in CFG:
    _r = []
    for _x in CFG[_p]["runs"]:
        if _x["variant"] in ("msub", "msan", "tsan", "O3", "cover") or _x.get("of") or _x.get("tag") in ("huge",): continue
        _r.append(dict(_x, variant="gcov", instr_harness=True))
    if _r: CFG[_p]["runs"] = _r
''')
t = open(W + "/verif/harness/vh.c").read()
open(W + "/verif/harness/vh.c", "w").write("extern void __gcov_dump(void);\n" + t.replace("\t_exit(0);", "\t__gcov_dump(); _exit(0);"))
scale = sys.argv[1] if len(sys.argv) > 1 else "0.3"
ids = sys.argv[2:] or [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
for i in ids:
    r = subprocess.run(["python3", W + "/verif/check.py", i, "--scale", scale], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=dict(os.environ, VERIF_NJ="3"))
    print(i, r.returncode, r.stdout.strip().splitlines()[-1][:150] if r.stdout.strip() else "", flush=True)
hit = collections.defaultdict(lambda: collections.defaultdict(int))
B = W + "/verif/build"
for g in glob.glob(B + "/**/*.gcda", recursive=True):
    r = subprocess.run(["gcov", "-t", "-m", g], cwd=B, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
    src = None
    for l in r.stdout.splitlines():
        m = re.match(r"\s*(-|#####|=====|[\d]+\*?):\s*(\d+):(.*)", l)
        if not m: continue
        if m.group(2) == "0":
            if m.group(3).startswith("Source:"): src = m.group(3)[7:]
            continue
        if not src or "/repo/" not in src: continue
        k = (os.path.realpath(src), int(m.group(2)), m.group(3))
        if m.group(1) == "-": continue
        hit[k[0]][(k[1], k[2])] += 0 if m.group(1) in ("#####", "=====") else int(m.group(1).rstrip("*"))
tot = cov = 0
for f in sorted(hit):
    for (n, t), c in sorted(hit[f].items()):
        tot += 1; cov += c > 0
        if not c: print("%s:%d:%s" % (f, n, t))
print("lines %d covered %d" % (tot, cov))
