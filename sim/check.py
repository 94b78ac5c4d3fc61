#!/usr/bin/env python3
"""check.py PROPERTY  -- decide one property (VERIF_SEED, VERIF_TIER)."""
import json, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/nntile-venv/bin/python'
if os.path.realpath(sys.executable) != os.path.realpath(PY) or sys.prefix != '/opt/nntile-venv':
    os.execv(PY, [PY] + sys.argv)
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'; sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
import build as B, runner as R
from checks import CHECKS

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.monotonic()
    c = CHECKS[prop]
    scale = 1 if tier == 'quick' else c.get('thorough', 25)
    try:
        b = B.build(target='shim' if c.get('shim') else 'gpu' if c.get('gpu') else None)
    except B.BuildError as e:
        print('BUILD FAILED', e); return 2
    tb = time.monotonic() - t0
    mult = float(os.environ.get('VERIF_RUNS', 1))
    s = R.Search(prop, c['module'], c['title'], tier, seed, int(c['runs']*scale*mult), c['limit']*(1 if tier == 'quick' else 20), c.get('batch', 20),
        hang=c.get('hang', 60), components=c.get('components'), rule=c.get('rule', ''), assumptions=c.get('assumptions', ()))
    try:
        viol = s.run(b)
    except R.HarnessError as e:
        print('HARNESS ERROR', e); return 3
    s.evidence(time.monotonic() - t0, viol, tb)
    for l in R.known_lines(prop):
        print(l.split(' match=')[0] + ' ' + (l.split(' :: ', 1)[1] if ' :: ' in l else ''))
    print('%s %s seed=%d: %d runs, %d distinct, %d schedules, %.1f s search, %.1f s build' % (prop, tier, seed, s.nruns, len(s.hashes), len(s.sched), s.search_s, tb))
    if viol:
        p, v = viol
        print('%s: %s' % (v[0][0], v[0][1][:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if s.nruns < min(20, s.runs):
        print('too few runs'); return 4
    return 0
sys.exit(main())
