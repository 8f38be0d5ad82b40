#!/usr/bin/env python3
"""Runs one check: python3 run.py C01 [--tier quick|thorough], or replays a violation: python3 run.py --replay FILE.

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it is broken. Anything else: no verdict.
"""
import argparse, importlib, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import common

ap = argparse.ArgumentParser()
ap.add_argument('id', nargs='?')
ap.add_argument('--tier', default=None)
ap.add_argument('--replay')
a = ap.parse_args()
if a.replay:
    sys.exit(common.replay(a.replay))
tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
if tier not in ('quick', 'thorough'):
    print('unknown tier', tier)
    sys.exit(2)
sys.exit(common.run(a.id, tier))
