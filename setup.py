#!/usr/bin/env python3
"""builds the tools once, to show that they build (every check builds what it needs itself)"""
import sys
sys.path.insert(0, "/verif")
import check
bad = [e for e in (check.build(w) for w in ("extract", "replay", "replay-array")) if e]
for e in bad:
    print(e)
sys.exit(1 if bad else 0)
