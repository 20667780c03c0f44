"""per-property configuration of check.py"""
ASAN = {"variant": "asan"}
HUGE = dict(variant="plainO2", tag="huge", defs=["-DHUGE"], shards=2, hang_s=100, mem_gb=12)
HUGEW = dict(variant="plainO2", tag="huge", defs=["-DHUGE"], shards=4, hang_s=200, mem_gb=24)
HUGES = dict(variant="plainO2", tag="huge", defs=["-DHUGE"], shards=4, hang_s=200, mem_gb=7)
BOTH = [dict(variant="asan", tag="asan-list"), dict(variant="asan", tag="asan-indexed", defs=["-DTGI"], seed_off=1000)]
CFG = {
 "C01": dict(src=["c01.c"], runs=[ASAN, HUGE]),
 "C02": dict(src=["c02.c"], runs=[ASAN, HUGE]),
 "C03": dict(src=["c03.c"], runs=BOTH + [HUGE]),
 "C04": dict(src=["c04.c"], runs=BOTH + [HUGE]),
 "C05": dict(src=["c05.c"], runs=[ASAN]),
}
CFG.update({
 "C06": dict(src=["c06.c"], runs=[ASAN]),
 "C07": dict(src=["c07.c"], runs=[dict(variant="cover")], malloc=False),
})

CFG["C08"] = dict(src=["c08.c"], runs=BOTH, wraps=["glob"], level="fault_enumeration")
CFG["C09"] = dict(src=["c09.c"], runs=BOTH, wraps=["read", "write", "writev", "pwrite", "pwrite64", "readv", "pread", "pread64"])
CFG["C10"] = dict(src=["c10.c"], runs=[ASAN, HUGES])
CFG["C11"] = dict(src=["c11.c"], runs=[ASAN, HUGES])
CFG["C12"] = dict(src=["c12.c"], runs=[ASAN, HUGES])
CFG["C13"] = dict(src=["c13.c"], runs=[ASAN, dict(variant="plainO2", tag="sweep", defs=["-DSWEEP"])])
CFG["C15"] = dict(src=["c15.c"], runs=[ASAN, HUGEW])
CFG["C17"] = dict(src=["c17.c"], runs=[ASAN, HUGEW])
import offline
CFG["C14"] = dict(src=["c14.c"], runs=[ASAN, HUGEW])
CFG["C16"] = dict(src=["c16.c"], runs=[ASAN, dict(variant="plainO2", tag="huge", defs=["-DHUGE"], shards=6, hang_s=400)], log=True, post=offline.digests, malloc=False)
CFG["C18"] = dict(src=["c18.c"], runs=[ASAN, HUGEW])
CFG["C19"] = dict(src=["c19.c"], runs=[ASAN, dict(variant="plainO2", tag="huge", defs=["-DHUGE"], shards=1)], wraps=["read", "readv", "pread", "pread64"])
CFG["C20"] = dict(src=["c20.c"], runs=[ASAN, HUGEW], wraps=["read", "write", "open", "lseek", "writev", "pwrite", "pwrite64", "readv", "pread", "pread64", "open64", "openat", "openat64", "creat"])
CFG["C21"] = dict(src=["c21.c"], runs=[ASAN])
CFG["C22"] = dict(src=["c22.c"], runs=[ASAN])
CFG["C23"] = dict(src=["c23.c"], runs=[ASAN])
CFG["C24"] = dict(src=["c24.c"], runs=[dict(variant="plain")], wraps=["pipe2", "pipe", "posix_spawnp", "posix_spawn", "posix_spawn_file_actions_adddup2", "posix_spawn_file_actions_addclose", "fork", "waitpid"], level="fault_enumeration")
CFG["C25"] = dict(src=["c25.c"], runs=[dict(variant="plain")], wraps=["fork"], malloc=False)
CFG["C26"] = dict(src=["c26.c"], runs=[ASAN], wraps=["mkdir", "mkdirat", "rand", "random", "rand_r", "lrand48", "access", "stat", "lstat", "rmdir"])
CFG["C27"] = dict(src=["c27.c", "c27_0.c", "c27_1.c", "c27_2.c", "c27_3.c", "c27_4.c", "c27_5.c", "c27_6.c", "c27_7.c", "c27_8.c", "c27_9.c", "c27_10.c", "c27_11.c", "c27_12.c", "c27_13.c", "c27_14.c", "c27_15.c", "c27_16.c", "c27_17.c", "c27_18.c", "c27_19.c", "c27_20.c"], runs=[ASAN], malloc=False)
CFG["C28"] = dict(src=["c28.c"], runs=[dict(variant="plain"), HUGEW], wraps=["mmap", "mmap64", "munmap", "mprotect"], malloc=False)
CFG["C33"] = dict(src=["c33.c"], runs=[ASAN, HUGEW], malloc=False)
CFG["C31"] = dict(src=["c31.c"], runs=[ASAN], wraps=["nanosleep", "clock_nanosleep", "gettimeofday", "clock_gettime", "time"], malloc=False)
CFG["C32"] = dict(src=["c32.c"], runs=[ASAN, HUGEW], wraps=["write", "time", "gettimeofday", "clock_gettime", "writev", "pwrite", "pwrite64"])
CFG["C30"] = dict(src=["c30.c"], runs=[ASAN, dict(variant="plain", tag="guard-pages", seed_off=500)])
CFG["C29"] = dict(src=["c29.c"], runs=[dict(variant="tsan"), dict(variant="plainO2", tag="results", seed_off=300)], wraps=["gettimeofday", "time", "clock_gettime", "nanosleep", "write", "mkdir"], malloc=False)
CFG["C34"] = dict(src=["c34.c", "c34_r.c"], wraps=["write", "writev", "pwrite", "pwrite64"], runs=[ASAN, dict(variant="plainO2", tag="optimised", seed_off=400)])
CFG["C36"] = dict(src=["c36.c"], runs=[ASAN], malloc=False)
# C35: the workloads and oracles of the other properties on builds that tell undefined or indeterminate behaviour apart
_skip = ("C07", "C25", "C29", "C35", "C36")  # C07 needs its own instrumentation, C25 and C29 are about processes and threads
_sc = {"C01": .05, "C02": .04, "C03": .03, "C04": .01, "C05": .05, "C08": .2, "C13": .2, "C27": .1, "C14": .06, "C22": .08, "C15": .06, "C26": .1, "C24": .2, "C28": .1, "C31": .1}
def _c35():
    runs = []
    for p in sorted(CFG):
        if p in _skip: continue
        for v, so in (("msub", 700), ("O3", 800)):
            for i, d in enumerate([[], ["-DTGI"]] if "-DTGI" in str(CFG[p]["runs"]) else [[]]):
                runs.append(dict(of=p, variant=v, tag="%s%s-%s" % (p, "ab"[i] if "-DTGI" in str(CFG[p]["runs"]) else "", v), defs=d, seed_off=so, scale=_sc.get(p, .1), thorough_scale=1, shards=2, malloc=CFG[p].get("malloc", True)))
    return runs
CFG["C35"] = dict(src=[], runs=_c35(), rule="the generators and oracles of the other properties' checks, run on two further builds of the same sources: clang with the uninitialised-memory and undefined-behaviour sanitizers, and gcc -O3; distinct = distinct cases as those checks count them")
# ... and a smaller share of each workload under the uninitialised-memory sanitizer in each property's own check
for _p in sorted(CFG):
    if _p in _skip: continue
    _t = "-DTGI" in str(CFG[_p]["runs"])
    for _i, _d in enumerate([[], ["-DTGI"]] if _t else [[]]):
        CFG[_p]["runs"] = CFG[_p]["runs"] + [dict(variant="msub", tag="msan" + ("-indexed" if _d else ""), defs=_d, seed_off=900, scale=_sc.get(_p, .1), thorough_scale=2, shards=4)]
# quick workloads are sized for a few seconds each on this machine
for _p, _f in {"C01": 2, "C05": 2, "C09": 2, "C13": 3, "C14": 8, "C15": 4, "C17": 8, "C18": 4, "C20": 4, "C21": 3, "C22": 8, "C23": 8, "C24": 2, "C25": 6, "C26": 2, "C28": 4, "C30": 6, "C31": 6, "C32": 8, "C33": 5, "C34": 4}.items():
    CFG[_p]["runs"] = [r if r.get("tag") in ("huge", "sweep") else dict(r, scale=r.get("scale", 1.0) * _f, thorough_scale=r.get("thorough_scale", 1.0) / _f) for r in CFG[_p]["runs"]]
