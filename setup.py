"""Builds every harness once, so that the checks find it in the cache (they build it themselves otherwise)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import check
for h in check.HARNESSES: check.build(h); print('built', h)
