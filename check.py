#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]

Builds libulz from /repo's working tree with instrumentation, runs the monitor
harness of one property over sharded workloads, judges, writes evidence.
exit 0 = held on everything explored, 1 = violation, 2 = no answer."""
import sys, os, subprocess, json, hashlib, glob, re, time, struct, shutil, mmap, tempfile, signal, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NJ = int(os.environ.get("VERIF_NJ", 0)) or min(8, os.cpu_count() or 8)

UB = ("signed-integer-overflow,integer-divide-by-zero,bounds,shift-exponent,null,"
      "vla-bound,return,unreachable,bool,enum,float-cast-overflow")
VARIANTS = {
 # name: (compiler, lib flags, link flags)
 "asan":  ("gcc", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address", "-fsanitize=" + UB, "-fno-sanitize-recover=all"],
           ["-fsanitize=address,undefined"]),
 "plain": ("gcc", ["-Os", "-g"], []),
 "plainO2": ("clang", ["-O2", "-g"], []),
 "tsan":  ("gcc", ["-O1", "-g", "-fsanitize=thread"], ["-fsanitize=thread"]),
 "cover": ("gcc", ["-O1", "-g", "-fsanitize-coverage=trace-pc"], []),
 "msan":  ("clang", ["-O1", "-g", "-fsanitize=memory", "-fno-omit-frame-pointer"], ["-fsanitize=memory"]),
 "O3":    ("gcc", ["-O3", "-g"], []),
 "msub":  ("clang", ["-O2", "-g", "-fsanitize=memory,undefined", "-fno-sanitize=nonnull-attribute,pointer-overflow,function,shift-base", "-fno-omit-frame-pointer", "-fno-sanitize-recover=all"], ["-fsanitize=memory,undefined"]),
 "gcov":  ("gcc", ["-O0", "-g", "--coverage"], ["--coverage"]),
}
ENV = {
 "ASAN_OPTIONS": "exitcode=99:detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=170:handle_abort=0:detect_stack_use_after_return=0:max_allocation_size_mb=2048:quarantine_size_mb=16:symbolize=1",
 "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
 "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:history_size=4",
 "MSAN_OPTIONS": "exitcode=99",
 "LC_ALL": "C", "TZ": "UTC0",
}
MALLOC_WRAPS = ["malloc", "calloc", "realloc", "reallocarray", "free", "strdup", "strndup"]

from props_cfg import CFG  # noqa

class Inconclusive(Exception): pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def sources():
    s = sorted(glob.glob(REPO + "/src/*/*.c"))
    # crc32_impl.c is a fragment included by the two others; the Makefile compiles every src/*/*.c, mirror that
    return s

def mk_srcs():
    """what the Makefile compiles (so that an added or removed file is seen the same way)"""
    return sources()

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

def repo_files():
    return [p for d in ("src", "include") for p in glob.glob(REPO + "/" + d + "/**/*", recursive=True)
            if os.path.isfile(p) and not p.endswith((".o", ".lo", ".a"))]

def harvest_literals():
    """integer and character literals of the source: the values at which code can make a special case"""
    skip = ("/md5/", "/sha512/", "strswitch")
    vals = {}
    for p in repo_files():
        if any(s in p for s in skip): continue
        t = open(p, errors="replace").read()
        t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S); t = re.sub(r"//[^\n]*", " ", t)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*\b", t):
            try: v = int(m.group(1), 0)
            except ValueError:
                try: v = int(m.group(1))
                except ValueError: continue
            if 4 <= v <= 1 << 20: vals[v] = 1
        for m in re.finditer(r"(\d+)\s*\*\s*(\d+)", t):
            v = int(m.group(1)) * int(m.group(2))
            if 4 <= v <= 1 << 20: vals[v] = 1
    return sorted(vals)[:400]

def compile_cached(cmd, o):
    """compile to o unless it is there already; its name carries a hash of everything that goes in"""
    if os.path.exists(o):
        try: os.utime(o)
        except OSError: pass
        return (0, "")
    t = o + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
    r = sh(cmd + ["-o", t])
    if r.returncode == 0: os.rename(t, o)
    elif os.path.exists(t): os.unlink(t)
    return (r.returncode, r.stdout)

# what the repository's own build (gcc) accepts with a warning is not refused here either
PERMISSIVE = {"clang": ["-Wno-error=" + w for w in ("implicit-function-declaration", "implicit-int", "int-conversion", "incompatible-function-pointer-types", "return-type")]}

def compile_lib(variant, defs=()):
    cc, fl, _ = VARIANTS[variant]
    base = [cc, "-std=c99", "-w"] + PERMISSIVE.get(cc, []) + ["-I" + REPO + "/include"] + fl + list(defs)
    srcs = [s for s in mk_srcs()]
    key = digest(repo_files(), " ".join(base))
    d = os.path.join(BUILD, "lib-%s-%s" % (variant, key))
    arc = d + "/libulz.a"
    if os.path.exists(arc):
        try: os.utime(d)
        except OSError: pass
        return arc
    prune()
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    hdrs = [p for p in repo_files() if not (p.endswith(".c") and "/src/" in p)]
    hkey = digest(hdrs, " ".join(base))
    def one(s):
        txt = open(s, errors="replace").read()
        k = digest(repo_files(), " ".join(base) + s) if re.search(r'#\s*include\s*"[^"]*\.c"', txt) else digest([s], hkey)
        o = os.path.join(BUILD, "o-%s-%s.o" % (re.sub(r"\W+", "_", os.path.relpath(s, REPO)), k))
        return (s, o) + compile_cached(base + ["-c", s], o)
    with ThreadPoolExecutor(NJ) as ex: res = list(ex.map(one, srcs))
    objs = []
    for s, o, rc, out in res:
        if rc: raise Inconclusive("cannot compile %s:\n%s" % (s, out))
        objs.append(o)
    r = sh(["ar", "rcs", tmp + "/libulz.a"] + objs)
    if r.returncode: raise Inconclusive("ar: " + r.stdout)
    try: os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return arc

def prune():
    os.makedirs(BUILD, exist_ok=True)
    for e in os.listdir(BUILD):
        p = os.path.join(BUILD, e)
        try:
            if time.time() - os.path.getmtime(p) > 3600:
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
        except OSError: pass # another check was faster

def compile_harness(pid, cfg, run):
    if run.get("of"): cfg = CFG[run["of"]]  # another property's workload and oracles, built differently
    variant = run["variant"]
    cc, fl, lfl = VARIANTS[variant]
    if run.get("nolib_instr"): fl = [f for f in fl if "coverage" not in f]
    hfl = [f for f in fl if not f.startswith("-fsanitize-coverage")] if variant == "cover" else fl
    if variant == "cover":
        lib = compile_lib(variant)
    else:
        lib = compile_lib(variant)
    src = [os.path.join(VERIF, "harness", s) for s in cfg["src"]] 
    vh = os.path.join(VERIF, "harness", "vh.c")
    defs = list(run.get("defs", []))
    wraps = list(cfg.get("wraps", [])) + list(run.get("wraps", []))
    if run.get("malloc", cfg.get("malloc", True)):
        wraps += MALLOC_WRAPS; defs.append("-DVH_WRAP_MALLOC")
    common = [cc, "-std=gnu11", "-w"] + PERMISSIVE.get(cc, []) + ["-D_GNU_SOURCE", "-D__leaf__=__nothrow__", "-I" + REPO + "/include", "-I" + os.path.join(VERIF, "harness"), "-DVH_VARIANT_" + variant.upper()] + defs
    # the harness itself is instrumented too: header-only library code lives in it
    incl = fl if run.get("instr_harness") else hfl
    allf = src + [vh] + glob.glob(os.path.join(VERIF, "harness", "*.h")) + repo_files()
    key = digest(allf, " ".join(common + incl + wraps + cfg.get("link", []) + lfl + cfg["src"] + [lib]))
    exe = os.path.join(BUILD, "%s-%s-%s" % (pid, run.get("tag", variant), key))
    if os.path.exists(exe):
        try: os.utime(exe)
        except OSError: pass
        return exe
    tmp = exe + ".tmp%d" % os.getpid()
    objs = []
    jobs = []
    incs = [p for p in repo_files() if not (p.endswith(".c") and "/src/" in p)]
    hfiles = glob.glob(os.path.join(VERIF, "harness", "*.h")) + incs
    for s in src + [vh]:
        f = hfl if s == vh else incl
        if s == vh and variant == "tsan": f = fl
        cmd = common + f + ["-c", s]
        o = os.path.join(BUILD, "o-%s-%s.o" % (os.path.basename(s), digest([s] + hfiles, " ".join(cmd))))
        objs.append(o)
        jobs.append((cmd, s, o))
    try:
        with ThreadPoolExecutor(NJ) as ex: res = list(ex.map(lambda j: (compile_cached(j[0], j[2]), j[1]), jobs))
        for (rc, out), s in res:
            if rc: raise Inconclusive("cannot compile %s:\n%s" % (s, out[-4000:]))
        link = [cc] + lfl + ["-g", "-o", tmp] + objs + [lib] + ["-Wl,--wrap=" + w for w in wraps] + cfg.get("link", []) + ["-lpthread", "-lm"]
        r = sh(link)
        if r.returncode: raise Inconclusive("cannot link %s:\n%s" % (pid, r.stdout[-4000:]))
        os.rename(tmp, exe)
    finally:
        if os.path.exists(tmp): os.unlink(tmp)
    return exe

SIGNAMES = {signal.SIGSEGV: "SIGSEGV", signal.SIGBUS: "SIGBUS", signal.SIGABRT: "SIGABRT", signal.SIGFPE: "SIGFPE", signal.SIGILL: "SIGILL", signal.SIGTRAP: "SIGTRAP"}

def classify(rc, text):
    if rc == 0: return None
    if rc == "hang": return ("hang", "hang", "no progress in one case")
    if rc == "runaway": return ("hang", "runaway-memory", "memory use grows without bound in one case")
    if rc == "timeout": return ("internal", "internal", "workload not finished in time")
    if rc == 77:
        m = re.search(r"VH-FAIL key=(\S+) mode=\S+ case=\d+: (.*)", text)
        return ("fail", m.group(1) if m else "?", (m.group(2) if m else text[-500:]))
    if rc == 99:
        m = re.search(r"(ERROR: \w+Sanitizer: [^\n]*|WARNING: \w+Sanitizer: [^\n]*|runtime error: [^\n]*)", text)
        return ("sanitizer", "sanitizer", m.group(1) if m else text[-500:])
    if rc < 0 and -rc in SIGNAMES: return ("crash", "crash", "died with " + SIGNAMES[-rc])
    return ("internal", "internal", "rc=%s %s" % (rc, text[-1500:]))

def read_state(path):
    try:
        with open(path, "rb") as f: return struct.unpack("<QQQQ", f.read(32))
    except Exception: return (0, 0, 0, 0)

def run_proc(cmd, env, state, out, hang_s, total_s, mem_gb=3):
    """run one shard; 'hang' when its heartbeat stands still for hang_s"""
    with open(out, "wb") as fo:
        p = subprocess.Popen(cmd, stdout=fo, stderr=subprocess.STDOUT, env=env, stdin=subprocess.DEVNULL, start_new_session=True)
        last = None; t_last = time.time(); t0 = t_last; delay = 0.01
        try:
            while True:
                try:
                    rc = p.wait(delay); break
                except subprocess.TimeoutExpired: pass
                delay = min(0.25, delay * 1.5)
                st = read_state(state)
                now = time.time()
                if st != last: last = st; t_last = now
                if now - t_last > hang_s: rc = "hang"; break
                if now - t0 > total_s: rc = "timeout"; break
                # private memory only: pages of a file mapped many times over are no growth
                try: rss = int(re.search(r"RssAnon:\s*(\d+)", open("/proc/%d/status" % p.pid).read()).group(1)) * 1024
                except Exception: rss = 0
                if rss > mem_gb << 30: rc = "runaway"; break
        finally:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.wait()
    text = open(out, "rb").read().decode("latin-1")
    return rc, text

def known_findings(pid):
    ks = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid: ks[m.group(2)] = m.group(3)
    return ks

def main():
    args = sys.argv[1:]
    if not args: print(__doc__); return 2
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scale = 1.0; only = None; onlyvar = None; keep = False
    while args:
        a = args.pop(0)
        if a == "--tier": tier = args.pop(0)
        elif a == "--seed": seed = int(args.pop(0))
        elif a == "--scale": scale = float(args.pop(0))
        elif a == "--only": only = args.pop(0)
        elif a == "--variant": onlyvar = args.pop(0)
        elif a == "--replay":
            m = re.search(r"^command: (.*)$", open(args.pop(0)).read(), re.M)
            a2 = m.group(1).split(); a2 = a2[a2.index(pid) + 1:] if pid in a2 else a2
            args = a2 + args
    if tier not in ("quick", "thorough"): tier = "quick"
    cfg = CFG[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True); os.makedirs(VERIF + "/evidence", exist_ok=True); os.makedirs(VERIF + "/replay", exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=BUILD)
    scratch_root = tempfile.mkdtemp(prefix="vh-%s-" % pid, dir="/tmp")
    try:
        return run_check(pid, cfg, tier, seed, scale, only, onlyvar, work, scratch_root, t0)
    except Inconclusive as e:
        print("INCONCLUSIVE property=%s %s" % (pid, e)); return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
        subprocess.run(["chmod", "-R", "u+rwx", scratch_root], stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch_root, ignore_errors=True)

def run_check(pid, cfg, tier, seed, scale, only, onlyvar, work, scratch_root, t0):
    known = known_findings(pid)
    lits = os.path.join(work, "lits.txt")
    open(lits, "w").write("\n".join(map(str, harvest_literals())) + "\n")
    runs = [r for r in cfg["runs"] if (tier == "thorough" or not r.get("thorough_only")) and (not onlyvar or r.get("tag", r["variant"]) == onlyvar)]
    def build(r):
        try: return compile_harness(pid, cfg, r)
        except Inconclusive as e:
            # the repository is built with gcc: what only clang refuses is not judged by the clang runs
            if VARIANTS[r["variant"]][0] == "gcc": raise
            return e
    if len(runs) > 4:
        for v in sorted(set(r["variant"] for r in runs)):
            try: compile_lib(v)
            except Inconclusive: pass
        with ThreadPoolExecutor(min(3, NJ)) as ex: exes = list(ex.map(build, runs))
    else: exes = [build(r) for r in runs]
    skipped = [(r.get("tag", r["variant"]), str(e)) for r, e in zip(runs, exes) if isinstance(e, Inconclusive)]
    if len(skipped) == len(runs): raise exes[0]
    for t, e in skipped: print("NOTE property=%s run %s not built: %s" % (pid, t, e.splitlines()[0]))
    runs, exes = [r for r, e in zip(runs, exes) if not isinstance(e, Inconclusive)], [e for e in exes if not isinstance(e, Inconclusive)]
    agg = {"evaluations": 0, "counters": {}, "modes": {}, "samples": [], "variants": {}}
    sigs = set(); violations = []; knownhits = {}; required = set(); rule = ""; internals = []; logs = []
    jobs = []
    for r, exe in zip(runs, exes):
        n = 1 if only else r.get("shards", NJ)
        for s in range(n): jobs.append((r, exe, s, n))
    def job(j):
        r, exe, s, n = j
        tag = r.get("tag", r["variant"])
        b = os.path.join(work, "%s-%d" % (tag, s))
        scr = os.path.join(scratch_root, "%s-%d" % (tag, s)); os.makedirs(scr, exist_ok=True)
        if r.get("scratch_mode"): os.chmod(scr, r["scratch_mode"]); os.chmod(scratch_root, 0o755)
        env = dict(os.environ); env.update(ENV); env.update(r.get("env", {}))
        for k in ("VERIF_TIER", "VERIF_SEED"): env.pop(k, None)
        env["VH_REPO"] = REPO
        if s % 4 == 3 and "asan" in r["variant"]: env["ASAN_OPTIONS"] += ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0" # freed blocks come back at once: results remembered by address
        vseed = seed + r.get("seed_off", 0)
        base = [exe, "--seed", str(vseed), "--tier", tier, "--lits", lits, "--scratch", scr]
        sc = scale * r.get("scale", 1.0) * (r.get("thorough_scale", 1.0) if tier == "thorough" else 1.0)
        if sc != 1.0: base += ["--scale", repr(sc)]
        if r.get("modes"): base += ["--modes", r["modes"]]
        for k in known: base += ["--known", k]
        cmd = base + ["--shard", str(s), "--nshards", str(n), "--state", b + ".st", "--out", b + ".json", "--sigs", b + ".sig"]
        if cfg.get("log"): cmd += ["--log", b + ".log"]
        if only: cmd += ["--only", only, "--trace"]
        hang = float(os.environ.get("VERIF_HANG", 0)) or r.get("hang_s", cfg.get("hang_s", 60))
        rc, text = run_proc(cmd, env, b + ".st", b + ".out", hang, 850 if tier == "quick" else 6 * 3600, r.get("mem_gb", 3))
        cl = classify(rc, text)
        if cl and cl[0] != "internal":
            st = read_state(b + ".st")
            where = "%s:%d" % (mode_name(exe, st[2]), st[1])
            cmd2 = base + ["--only", where, "--trace", "--state", b + ".st2"]
            rc2, text2 = run_proc(cmd2, env, b + ".st2", b + ".out2", hang if os.environ.get("VERIF_HANG") else max(hang, 90), 600, r.get("mem_gb", 3))
            cl2 = classify(rc2, text2)
            if cl[1] == "hang" and not (cl2 and cl2[0] == "hang"):
                if not cl2: 
                    # transient stall of the machine: repeat the shard once
                    rc, text = run_proc(cmd, env, b + ".st", b + ".out", 2 * hang, 850 if tier == "quick" else 6 * 3600, r.get("mem_gb", 3))
                    cl = classify(rc, text)
                    if cl and cl[0] == "hang": cl = ("internal", "internal", "stalls that do not reproduce at %s" % where)
                    return (j, cl, where, text, text2, " ".join(cmd2), b)
                cl = cl2
            text2 = ("" if cl2 else "(the case alone does not fail: it depends on the cases before it; whole shard: %s)\n" % " ".join(cmd)) + text2
            return (j, cl, where, text, text2, " ".join(cmd2), b)
        return (j, cl, None, text, "", "", b)
    with ThreadPoolExecutor(NJ) as ex:
        results = list(ex.map(job, jobs))
    for (r, exe, s, n), cl, where, text, text2, cmd2, b in results:
        tag = r.get("tag", r["variant"])
        if cl is None:
            try: d = json.load(open(b + ".json"))
            except Exception as e: internals.append("shard output unreadable: %s" % e); continue
            agg["evaluations"] += d["evaluations"]
            v = agg["variants"].setdefault(tag, 0); agg["variants"][tag] = v + d["evaluations"]
            for k, x in d["counters"].items(): agg["counters"][k] = agg["counters"].get(k, 0) + x
            for k, x in d["modes"].items(): agg["modes"][k] = agg["modes"].get(k, 0) + x
            if s == 0: agg["samples"] += d["samples"][:12]
            if not r.get("of"): required |= set(d["required"]); rule = d["rule"]
            for k, x in d["known"].items(): knownhits[k] = knownhits.get(k, 0) + x
            if os.path.exists(b + ".sig"):
                raw = open(b + ".sig", "rb").read(); sigs.update(struct.unpack("<%dQ" % (len(raw) // 8), raw))
            if cfg.get("log"): logs.append(b + ".log")
            if only: print(text)
        elif cl[0] == "internal":
            internals.append("%s shard %d: %s" % (tag, s, cl[2]))
        else:
            violations.append((tag, where, cl, text, text2, cmd2))
    extra_ev = {}
    rule = rule or cfg.get("rule", "")
    if not violations and not internals and not only and scale >= 1:
        idle = [r.get("tag", r["variant"]) for r in runs if not agg["variants"].get(r.get("tag", r["variant"]))]
        if idle: internals.append("nothing ran in " + ", ".join(idle))
    if cfg.get("post") and not only and not internals:
        vio, extra_ev = cfg["post"](logs, tier, seed)
        for key, msg in vio:
            if key in known: knownhits[key] = knownhits.get(key, 0) + 1
            else: violations.append(("offline", "log", ("fail", key, msg), msg, "", ""))
    rc = 0
    if violations:
        rc = 1
        violations.sort(key=lambda v: (v[0], str(v[1])))
        tag, where, cl, text, text2, cmd2 = violations[0]
        name = "%s-%s-%s.txt" % (pid, tag, re.sub(r"\W", "_", str(where)))
        rp = os.path.join(VERIF, "replay", name)
        with open(rp, "w") as f:
            f.write("property: %s\nvariant: %s\nwhere: %s\nkind: %s\nkey: %s\nwhat: %s\n" % (pid, tag, where, cl[0], cl[1], cl[2]))
            f.write("command: python3 check.py %s --tier %s --seed %d --variant %s --only %s\n" % (pid, tier, seed, tag, where))
            f.write("binary: %s\n\n=== shard output ===\n%s\n\n=== traced re-run of the case ===\n%s\n" % (cmd2, text[-20000:], text2[-60000:]))
        for tag, where, cl, text, text2, cmd2 in violations[:10]:
            print("  %s %s: %s [%s] %s" % (tag, where, cl[0], cl[1], cl[2][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    elif internals:
        raise Inconclusive("; ".join(internals[:3]))
    elif not only and not onlyvar:
        missing = [k for k in required if not agg["counters"].get(k)]
        if missing and scale == 1.0: raise Inconclusive("monitors observed nothing for: " + ", ".join(missing))
    for k, w in known.items(): print("KNOWN-FINDING: property=%s %s" % (pid, w))
    if not only:
        ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
              "coverage": {"evaluations": agg["evaluations"], "distinct_nontrivial": len(sigs), "rule": rule,
                           "samples": agg["samples"][:24] or [v[2][2] for v in violations[:3]],
                           "observed": dict(sorted(agg["counters"].items())), "cases_per_mode": agg["modes"],
                           "cases_per_build": agg["variants"], **extra_ev},
              "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        if rc == 0: print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (pid, tier, seed, agg["evaluations"], len(sigs), time.time() - t0))
    return rc

_mn = {}
def mode_name(exe, idx):
    """mode names in table order, from the harness source (order of vh_modes)"""
    if exe not in _mn:
        r = subprocess.run([exe, "--only", "none:0"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env={**os.environ, **ENV})
        _mn[exe] = r.stdout.split()
    l = _mn[exe]
    return l[idx] if idx < len(l) else "?"

if __name__ == "__main__":
    sys.exit(main())
