#!/usr/bin/env python3
"""Compares the output of /opt/vp/test.sh with the baseline: basecmp.py OUT.json"""
import json, sys
b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
t = json.load(open(sys.argv[1]))
miss = sorted(b - set(t['passed']))
print(len(b), 'stable,', len(miss), 'missing')
print('\n'.join(miss[:20]))
sys.exit(1 if miss else 0)
