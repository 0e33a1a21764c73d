#!/usr/bin/env python3
"""bin/replay.py <file> : runs one counterexample natively against a plain (uninstrumented) build of /repo's current sources"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxbuild
p = sys.argv[1]
w = [l.split() for l in open(p) if l.startswith("harness ")][0]
exe = sxbuild.build(w[1], [x for x in (w[3].split(",") if len(w) > 3 else []) if x], plain=True)
sys.exit(subprocess.run([exe, "--harness", w[2], "--replay", p]).returncode)
