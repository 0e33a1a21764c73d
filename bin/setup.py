#!/usr/bin/env python3
"""builds the engine and the instrumented library for every check (results are cached by content)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxbuild
cfg = json.load(open(os.path.join(sxbuild.VERIF, "checks.json")))
for f, e in sorted(set((c["file"], tuple(c.get("exts", []))) for c in cfg["checks"].values())):
    sxbuild.build(f, list(e), True)
