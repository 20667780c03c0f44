#!/usr/bin/env python3
"""seed.py SPECFILE [ids...]: turns bug specs into /verif/seeded/<id>/ after confirming them in a scratch copy:
applies, changes original lines, builds, stable tests pass, demo fails with it and passes without it.
Then runs the property's check against the patched copy and records whether it is caught."""
import sys, os, subprocess, json, shutil, re
VERIF = "/verif"; W = "/tmp/seedwork"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def build_test(d):
    """the same build and tests, for a copy: paths in the scripts rewritten"""
    for f in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + f).read().replace("/repo", d).replace("/opt/vp/build.sh", W + "/build.sh")
        open(W + "/" + f, "w").write(t)
    r = sh("bash %s/build.sh" % W)
    if r.returncode: return False, "BUILD " + r.stdout[-1500:]
    r = sh("bash %s/test.sh %s/out.json" % (W, W))
    try: o = json.load(open(W + "/out.json"))
    except Exception as e: return False, "TEST " + r.stdout[-500:]
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    bad = base - set(o["passed"])
    return not bad, "failing: %s" % sorted(bad)
def demo(d, sd):
    t = W + "/demo"; shutil.rmtree(t, ignore_errors=True); shutil.copytree(sd, t, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = subprocess.run(["timeout", "290", "bash", t + "/demo.sh"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return r.returncode, r.stdout[-300:]
DEMO = '''#!/bin/bash
# demonstration: exit 0 when the property holds, nonzero when it is broken (run in the repository after the build)
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
gcc -std=gnu99 -w -O1 -D_GNU_SOURCE -DPAGE_SIZE=4096 -Iinclude %s "$here/demo.c" lib/libulz.a -o "$scratch/demo" -lpthread || exit 2
cd "$scratch" && timeout 120 ./demo
'''
def one(s):
    sid = s["id"]; sd = "%s/seeded/%s" % (VERIF, sid)
    R = W + "/repo"
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    sh("cp -a /repo %s" % R)
    blame = {}
    for f, old, new in s["edits"]:
        p = R + "/" + f; t = open(p).read()
        if t.count(old) != 1: print(sid, "EDIT: %d matches in %s" % (t.count(old), f)); return
        open(p, "w").write(t.replace(old, new))
    diff = sh("git -C %s diff" % R).stdout
    # at least one removed line must be original
    orig = False
    for f in {e[0] for e in s["edits"]}:
        rem = [int(m) for m in []]
        bl = sh("git -C /repo blame -s -l HEAD -- %s" % f).stdout.splitlines()
        cur = None
        for l in sh("git -C %s diff -U0 -- %s" % (R, f)).stdout.splitlines():
            m = re.match(r"@@ -(\d+)(?:,(\d+))?", l)
            if m:
                a = int(m.group(1)); n = int(m.group(2) or 1)
                for i in range(a, a + n):
                    if i >= 1 and i <= len(bl):
                        h = bl[i - 1].split()[0]
                        if sh("git -C /repo merge-base --is-ancestor %s 3b421bd" % h.lstrip("^")).returncode == 0: orig = True
                        else: print(sid, "NOTE line %d of %s is from a fix commit" % (i, f))
    if not orig: print(sid, "changes no original line"); return
    os.makedirs(sd, exist_ok=True)
    open(sd + "/patch.diff", "w").write(diff)
    open(sd + "/demo.c", "w").write(s["demo"])
    open(sd + "/demo.sh", "w").write(DEMO % s.get("cflags", ""))
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(sd + "/meta.json", "w"), indent=1)
    ok, msg = build_test(R)
    if not ok: print(sid, "TESTS", msg); shutil.rmtree(sd); return
    rc, out = demo(R, sd)
    if rc == 0: print(sid, "DEMO passes with the bug", out); shutil.rmtree(sd); return
    rc0, out0 = demo("/repo", sd)
    if rc0 != 0: print(sid, "DEMO fails on the unchanged tree", rc0, out0); shutil.rmtree(sd); return
    r = sh("python3 %s/check.py %s" % (VERIF, s["prop"]), env={**os.environ, "VERIF_REPO": R, "VERIF_SEED": "1"})
    v = "VIOLATION property=" + s["prop"] in r.stdout and r.returncode == 1
    print(sid, s["prop"], "demo rc", rc, out.strip()[:80], "|", "CAUGHT" if v else "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:]), flush=True)
    if v: print("    " + r.stdout.strip().splitlines()[0][:160], flush=True)
specs = {}
exec(open(sys.argv[1]).read())
for s in SPECS:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
    one(s)
shutil.rmtree(W, ignore_errors=True)
