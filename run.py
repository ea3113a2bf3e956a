#!/usr/bin/env python3-vt
import sys, os, argparse, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'specs'))
sys.setrecursionlimit(20000)
import harness
ap = argparse.ArgumentParser()
ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--job')
a = ap.parse_args()
mod = importlib.import_module(a.prop)
if a.job:
    jobs0 = mod.jobs
    mod.jobs = lambda tier: [j for j in jobs0(tier) if a.job in j.name]
try:
    rc = harness.run_check(a.prop, mod, a.tier)
except RuntimeError as e:
    print('ERROR', e); rc = 3
sys.exit(rc)
