#!/usr/bin/python3
"""Compares a test.sh result with the stable baseline."""
import json, sys
b = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t = set(json.load(open(sys.argv[1]))['passed'])
print("stable tests not passing:", sorted(b - t))
sys.exit(1 if b - t else 0)
