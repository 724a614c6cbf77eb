#!/usr/bin/env python3
"""Build the analysis driver and the third-party and macro crates for every feature set the checks use."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
build.driver()
ALL = ("sync", "async", "serde")
for fs in [ALL] + [c for k in range(3) for c in itertools.combinations(ALL, k)]:
    try:
        build.deps(fs)
    except build.TreeError as e:
        print(e)
