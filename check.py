#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE]  -- decides one property for the tree in /repo"""
import sys, os, json, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib.common import *

def known(prop):
    out = []
    try:
        for l in open(VERIF + '/known_findings.txt'):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop): out.append(l[len('finding: property=%s ' % prop):])
    except OSError: pass
    return out

def runner(prop):
    from vlib import chart_checks
    if prop in chart_checks.P: return chart_checks.run_chart_check
    import importlib
    return importlib.import_module('vlib.' + prop.lower()).run

def main():
    a = sys.argv[1:]; prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    if '--seed' in a: seed = int(a[a.index('--seed') + 1])
    rep = json.load(open(a[a.index('--replay') + 1])) if '--replay' in a else None
    ctx = Ctx(prop, tier, seed, rep)
    for k in known(prop): print('KNOWN-FINDING: property=%s %s' % (prop, k))
    try:
        runner(prop)(ctx)
    except Violation as v:
        p = a[a.index('--replay') + 1] if rep else save_replay(ctx, v.replay)
        print(str(v.what)[:3000])
        if not rep: ctx.evidence(1)
        print('VIOLATION property=%s replay=%s' % (prop, p)); sys.stdout.flush()
        ctx.cleanup(); os._exit(1)
    except Exception:
        traceback.print_exc(); sys.stdout.flush(); ctx.cleanup(); os._exit(3)
    if rep: print('the replayed case holds now'); ctx.cleanup(); os._exit(0)
    ctx.evidence(0)
    print('%s held: %d evaluations, %d distinct non-trivial, %.1f s' % (prop, ctx.ev, ctx.distinct, time.time() - ctx.t0)); sys.stdout.flush()
    ctx.cleanup(); os._exit(0)
main()
