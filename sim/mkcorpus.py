#!/usr/bin/env python3
"""Extracts the example inputs of testdata/*.ivy into a corpus of session fragments.

Run by hand (python3 mkcorpus.py /repo/testdata > cmd/driver/corpus.txt); the
checks use the committed corpus, never testdata itself.
"""
import sys, os, re
d = sys.argv[1]
seen = set()
for name in sorted(os.listdir(d)):
    if not name.endswith(".ivy"):
        continue
    lines = open(os.path.join(d, name)).read().split("\n")
    block = []
    def flush():
        global block
        b = [l for l in block if not l.startswith("#")]
        while b and not b[0]: b.pop(0)
        while b and not b[-1]: b.pop()
        block = []
        if not b: return
        t = "\n".join(b)
        # Not for sessions: files, clocks, chance, interpreter settings that outlive the fragment.
        if re.search(r"^\s*\)", t, re.M): return
        if re.search(r"\bsys\b|\brand\b|\?|\btime\b|print", t): return
        if len(t) > 1500 or t in seen: return
        seen.add(t)
        # A multi-line definition must end in a blank line.
        if re.search(r"^op\b.*=\s*$", t, re.M): t += "\n"
        print("%% " + name)
        print(t)
    for l in lines:
        l = l.rstrip(" \t")
        if l.startswith("\t"):
            flush(); continue
        if name == "exec_fail.ivy" and l == "": flush(); continue
        block.append(l)
    flush()
