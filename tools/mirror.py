#!/usr/bin/env python3
"""mirror.py FROM TO: makes TO a copy of FROM; files that are the same already are left alone, the
others are new to cargo."""
import os, sys
src, dst = sys.argv[1:3]
have = set()
for d, _, files in os.walk(src):
    for f in files:
        a = os.path.join(d, f)
        b = os.path.join(dst, os.path.relpath(a, src))
        have.add(b)
        new = open(a, "rb").read()
        if os.path.isfile(b) and open(b, "rb").read() == new:
            continue
        os.makedirs(os.path.dirname(b), exist_ok=True)
        open(b, "wb").write(new)
for d, _, files in os.walk(dst):
    for f in files:
        if os.path.join(d, f) not in have:
            os.remove(os.path.join(d, f))
