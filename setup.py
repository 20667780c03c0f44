#!/usr/bin/env python3
"""builds the instrumented library variants and all harnesses once (every check rebuilds what changed)"""
import check, os, sys
os.makedirs(check.BUILD, exist_ok=True)
for pid, cfg in sorted(check.CFG.items()):
    for r in cfg["runs"]:
        check.compile_harness(pid, cfg, r)
print("harnesses built")
