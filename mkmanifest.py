#!/usr/bin/env python3
"""writes MANIFEST.json from the table below (run by hand when a check is added)"""
import json
T = {
"C01": ("model-based runtime monitor (reference array, compared after every call) under ASan+UBSan, exact-size buffers", "list, pointer-, string- and key/value-list histories over many item and block sizes"),
"C02": ("model-based runtime monitor (reference array) under ASan+UBSan", "typed lists over many element/index types"),
"C03": ("model-based runtime monitor (reference map) under ASan+UBSan, both value backends", "map histories"),
"C04": ("model-based runtime monitor (reference map) under ASan+UBSan, both value backends", "hashed map histories with hostile hash functions"),
"C05": ("model-based runtime monitor (reference multimap) under ASan+UBSan", "hashlist histories including removals and emptied buckets"),
"C06": ("model-based runtime monitor (reference array, allocation ledger) under ASan+UBSan", "treap list histories"),
"C07": ("work monitor: compiler-inserted trace-pc counters and comparison counters against a logarithmic envelope", "work per call over list lengths and adversarial orders; the envelope is generous, so it decides complexity class, not constants"),
"C08": ("exhaustive allocation-fault injection per history, state-snapshot monitor and leak ledger under ASan+UBSan", "each allocation of each generated history fails in turn"),
"C09": ("allocation and descriptor ledger monitor under ASan+UBSan", "every block and descriptor accounted for after each history"),
"C10": ("reference-oracle runtime monitor under ASan+UBSan, exact-size buffers", "slice operations vs. byte-string model"),
"C11": ("reference-oracle runtime monitor (split/replace/join model, conservation) under ASan+UBSan", "texts and delimiters from small alphabets"),
"C12": ("reference-oracle runtime monitor (naive search) under ASan+UBSan", "texts/needles over tiny alphabets, all bytes for classifiers"),
"C13": ("reference-oracle runtime monitor (arbitrary-precision style digit oracle, libc) under ASan+UBSan plus a fast sweep build", "integer conversions incl. boundary and strided sweeps"),
"C14": ("differential runtime monitor against the C library's printf under ASan+UBSan, exact-size buffers", "formats over the supported directives"),
"C15": ("round-trip and reference-oracle runtime monitor under ASan+UBSan, exact-size buffers", "codecs on valid, mutated and truncated input"),
"C16": ("offline log checker: recorded (message, cuts, digest) events recomputed by independent Python implementations", "digests for all short lengths, boundary and very long messages, interleaved contexts"),
"C17": ("reference-oracle runtime monitor (independent RC4) under ASan+UBSan, exact-size buffers", "all key lengths, message lengths, in-place and separate"),
"C18": ("reference-oracle runtime monitor (independent normaliser) under ASan+UBSan", "component-level path generator up to and past PATH_MAX"),
"C19": ("trace monitor over reader calls against the file's line list under ASan+UBSan, short-read injection", "files with lines around buffer boundaries; files beyond 2 and 4 GiB (sparse)"),
"C20": ("fault injection on read/write/open/lseek with a transfer-conservation monitor under ASan+UBSan", "short transfers, errors, early end of file at every call"),
"C21": ("differential runtime monitor against readdir+fnmatch on generated directories under ASan+UBSan", "directory contents, names, masks and flags"),
"C22": ("reference-oracle runtime monitor (independent INI reader) under ASan+UBSan, exact-size buffers", "INI texts"),
"C23": ("reference-oracle runtime monitor (independent option matcher) under ASan+UBSan, exact-size buffers", "argument vectors"),
"C24": ("conversation and descriptor-census monitor over real child processes, system-call fault injection, signals", "sessions of up to 6 simultaneous children"),
"C25": ("process-state monitor of real daemonized processes (shared-memory report), fork-failure injection", "descriptor sets and limits"),
"C26": ("intercepted-mkdir monitor with injected pre-existing names, failures and racing callers under ASan+UBSan", "names, prefixes, buffer sizes, threads and processes with equal random sequences; redirected into a scratch directory"),
"C27": ("model-based runtime monitor (slot ledger, content patterns) over many pool configurations under ASan+UBSan", "alloc/free histories incl. foreign and repeated releases"),
"C28": ("page-ledger monitor over intercepted mmap/munmap/mprotect plus real access probing with a fault handler", "sizes incl. page multiples, mapping failures"),
"C29": ("ThreadSanitizer plus comparison of each thread's results with its stand-alone run", "34 kinds of operations covering every module, same-operation and mixed schedules"),
"C30": ("AddressSanitizer and guard-page monitors with exact-size buffers", "every buffer-taking conversion with extreme inputs"),
"C31": ("intercepted clock/sleep monitor with a simulated clock, injected interruptions and real signals under ASan+UBSan", "durations, interruption points, time pairs, wall-clock values"),
"C32": ("write-event monitor on intercepted descriptors against the expected byte stream under ASan+UBSan", "argument lists and number extremes"),
"C33": ("model-based runtime monitor under ASan+UBSan, exact-size buffers", "bit array histories, all 16-bit values and sampled 32/64-bit ones"),
"C34": ("differential runtime monitor of the output streams against the C library under ASan+UBSan and MSan", "call histories over three descriptors"),
"C35": ("MemorySanitizer + UndefinedBehaviorSanitizer (clang) and a gcc -O3 build, under the workloads and oracles of all other properties", "a share of every other property's workload (not C07, C25, C29, C36); shifts of negative values, null arguments with zero length and wrapping pointer offsets are not looked at"),
"C36": ("exhaustive runtime monitor over all bytes plus round trips through a real shell", "all 384 values of signed and unsigned char, random texts of safe characters"),
}
checks = []
from props_cfg import CFG
for k, (t, n) in sorted(T.items()):
    checks.append(dict(property=k, quick_cmd="python3 check.py %s" % k, thorough_cmd="python3 check.py %s --tier thorough" % k,
      technique=t, level=CFG[k].get("level", "exploration"),
      level_note="No violation on the executions observed (seeded, sharded workload; counts in the evidence file): %s. Trusts the harness oracle, the sanitizer runtimes, the compiler and the C library; says nothing about inputs outside the generated distribution." % n))
json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=[],
  notes="No hooks in /repo: calls are intercepted at link time (--wrap), state is observed through the public API. Repairs of genuine defects are the fix: commits listed in known_findings.txt."), open("MANIFEST.json", "w"), indent=1)
