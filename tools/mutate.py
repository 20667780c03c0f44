#!/usr/bin/env python3
"""mutate.py OUT.jsonl [--per-line N] [--files regex] [--workers W] [--seed S] [--scale X]
systematic small changes to the library; which does no check notice? (development tool, not a check)"""
import sys, os, re, json, glob, random, subprocess, shutil, fnmatch, threading, queue, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = "/repo"
def opt(n, d):
    return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
OUT = sys.argv[1]; PER = int(opt("--per-line", "2")); FRE = re.compile(opt("--files", ".")); WN = int(opt("--workers", "7")); random.seed(int(opt("--seed", "1"))); SCALE = opt("--scale", "1")
props = [json.loads(l) for l in open(VERIF + "/properties.jsonl")]
HT = {}
BROAD = ["C08", "C30", "C09"]
def props_for(f):
    r = []
    for p in props:
        if any(fnmatch.fnmatch(f, a) for a in p["anchors"]["files"]) and p["id"] not in ("C29",): r.append(p["id"])
    if f.startswith("src/strlib/hexval") : r += ["C13", "C15"]
    if f == "include/tglist.h" or f == "include/tgilist.h": r += ["C03", "C04"]
    if f.startswith("src/sblist"): r += ["C05"]
    own = list(r)
    # checks whose harness names the function the file is named after, or includes the header
    b = os.path.basename(f)
    for h in sorted(glob.glob(VERIF + "/harness/c[0-9][0-9].c")):
        t = HT.setdefault(h, open(h).read())
        if (f.startswith("src") and re.search(r"\b%s\b" % b[:-2], t)) or (f.startswith("include") and '"%s"' % b in t): r.append("C" + os.path.basename(h)[1:3])
    return sorted(set(r) - {"C29"}, key=lambda x: (x not in own, x in BROAD, x == "C07", x))
OPS = [(r"(?<![<\-=])<(?![<=])", ["<="]), (r"<=", ["<"]), (r"(?<![>\-=])>(?![>=])", [">="]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
 (r"(?<![+\w\"'e])\+(?![+=])|(?<=\w)\s\+(?![+=])|(?<=[\w\])])\+(?=[\w(])", [" -"]), (r"(?<=[\w\])])\s?-\s?(?=[\w(])(?!>)", [" + "]), (r"\+\+", ["--"]), (r"--", ["++"]), (r"\+=", ["-="]), (r"-=", ["+="]),
 (r"(?<![\w.\"'%])(\d+)(?![\w.\"'])", ["N+1", "N-1"]), (r"<<", [">>"]), (r">>", ["<<"]), (r"(?<![&(,=]\s)(?<=[\w)])\s?&\s?(?=[\w(~])(?!&)", [" | "]), (r"(?<!\|)\|(?![|=])", ["&"]), (r"!(?=[\w(*])", [""]), (r"(?<=[\w\])])\s?\*\s?(?=[\w(])", [" / "]), (r"%(?=\s?\w)(?<!\")", ["/"]),
 (r"\bbreak;", ["continue;"]), (r"\bcontinue;", ["break;"]), (r"\bNULL\b", ["(void*)1"]), (r"\bsize_t\b", ["unsigned short", "int"]), (r"\bunsigned char\b", ["signed char"]), (r"\bunsigned\b(?! char)", ["int"]), (r"\bint64_t\b", ["int"]), (r"\buint64_t\b", ["unsigned"]), (r"\buint32_t\b", ["unsigned short"]), (r"\boff_t\b", ["int"])]
def strip_comments(t):
    def bl(m): return re.sub(r"[^\n]", " ", m.group(0))
    return re.sub(r'/\*.*?\*/|//[^\n]*', bl, t, flags=re.S)
def mutants(f):
    src = open(os.path.join(REPO, f), errors="replace").read(); code = strip_comments(src).split("\n"); lines = src.split("\n"); res = []
    for i, l in enumerate(code):
        if len(l) != len(lines[i]): continue
        s = l.strip()
        if not s or s.startswith(("#include", "#ifndef", "#ifdef", "#endif", "#pragma", "#if", "#else", "extern")): continue
        c = []
        for rx, reps in OPS:
            for m in re.finditer(rx, l):
                # not within a string
                if l[:m.start()].count('"') % 2: continue
                for r in reps:
                    n = r
                    if r == "N+1": n = str(int(m.group(1), 0) + 1) if not m.group(1).startswith("0") or m.group(1) == "0" else None
                    if r == "N-1": n = str(int(m.group(1)) - 1) if m.group(1).isdigit() and int(m.group(1)) > 0 else None
                    if n is None: continue
                    c.append(l[:m.start()] + n + l[m.end():])
        if re.match(r"^\s*[\w*>.\-\[\]()+ ]+(=|\+=|-=|\+\+|--|\().*;\s*$", l) and not re.match(r"^\s*(static |const |unsigned |int |char |size_t |return|if|for|while|typedef|struct |void |u?int\d+_t )", l): c.append("\t;")
        m = re.match(r"^(\s*(?:else\s+)?if\s*)\((.*)\)(\s*\{?[^()]*;?)$", l)
        if m: c.append("%s(!(%s))%s" % m.groups()); c.append("%s(0)%s" % (m.group(1), m.group(3)))
        m = re.match(r"^(\s*)return\s+(.+);(.*)$", l)
        if m and m.group(2).strip() not in ("0", "NULL"): c.append("%sreturn 0;%s" % (m.group(1), m.group(3)))
        if l.endswith("\\"): c = [x if x.endswith("\\") else x + " \\" for x in c]
        c = sorted(set(x for x in c if x.rstrip() != l.rstrip()))
        random.shuffle(c)
        for x in c[:PER]: res.append((f, i, lines[i], x))
    return res
retest = opt("--retest", "")
files = sorted(os.path.relpath(p, REPO) for p in glob.glob(REPO + "/src/*/*.c") + glob.glob(REPO + "/include/*"))
files = [f for f in files if FRE.search(f) and f not in ("include/restrict.h", "include/macros.h", "include/stdio-repl.h")]
allm = []
if retest:
    for l in open(retest):
        r = json.loads(l)
        if r["res"] != "SURVIVED": continue
        src = open(os.path.join(REPO, r["file"]), errors="replace").read().split("\n"); i = r["line"] - 1
        if i < len(src) and src[i].strip() == r["old"]: allm.append((r["file"], i, src[i], r["new"] if not src[i].endswith("\\") or r["new"].endswith("\\") else r["new"] + " \\"))
else:
    for f in files: allm += mutants(f)
skip = set()
for s in opt("--skip", "").split(","):
    if s: skip |= {(r["file"], r["old"], r["new"]) for r in map(json.loads, open(s))}
allm = [m for m in allm if (m[0], m[2].strip(), m[3].strip()) not in skip]
random.shuffle(allm)
print(len(allm), "mutants of", len(files), "files"); sys.stdout.flush()
q = queue.Queue()
for m in allm: q.put(m)
lock = threading.Lock(); stat = {}
BASE = "/tmp/mut"
def worker(w):
    D = "%s/w%d" % (BASE, w); shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    subprocess.run(["cp", "-a", REPO, D + "/repo"]); os.makedirs(D + "/verif")
    for x in ("check.py", "props_cfg.py", "offline.py", "harness", "known_findings.txt"): subprocess.run(["cp", "-a", VERIF + "/" + x, D + "/verif/"])
    while True:
        try: f, i, old, new = q.get_nowait()
        except queue.Empty: break
        p = D + "/repo/" + f; orig = open(p, "rb").read(); ls = orig.decode("utf-8", "surrogateescape").split("\n"); ls[i] = new
        open(p, "wb").write("\n".join(ls).encode("utf-8", "surrogateescape"))
        res = "SURVIVED"; by = None; notes = []
        for pid in props_for(f):
            env = dict(os.environ, VERIF_REPO=D + "/repo", VERIF_NJ="1", VERIF_HANG="20")
            try:
                r = subprocess.run(["nice", "python3", D + "/verif/check.py", pid, "--scale", SCALE], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
                rc, out = r.returncode, r.stdout
            except subprocess.TimeoutExpired: rc, out = 2, "TIMEOUT"
            if rc == 1: res = "KILLED"; by = pid; break
            if "cannot compile" in out or "cannot link" in out: res = "COMPILE"; break
            if rc: notes.append(pid + ": " + out[-300:])
        with lock:
            stat[res] = stat.get(res, 0) + 1
            open(OUT, "a").write(json.dumps(dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), res=res, by=by, props=props_for(f), notes=notes)) + "\n")
            if sum(stat.values()) % 100 == 0: print(time.strftime("%H:%M"), stat); sys.stdout.flush()
        open(p, "wb").write(orig)
    shutil.rmtree(D, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(WN)]
[t.start() for t in ts]; [t.join() for t in ts]; print(stat)
