"""Warms the caches the checks use; every check also works without it."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness
b, log, lost = harness.build()
print(log[-500:])
if b:
    os.unlink(b)
