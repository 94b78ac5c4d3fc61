#!/usr/bin/env python3
"""replay.py FILE [TRACE]  -- run one replay file again, exactly; exit 1 if the violation shows."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/nntile-venv/bin/python'
if sys.prefix != '/opt/nntile-venv':
    os.execv(PY, [PY] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
import build as B, runner as R
from checks import CHECKS

def main():
    rep = json.load(open(sys.argv[1]))
    b = B.build(target=next((x for x in ('shim', 'gpu') if CHECKS[rep['property']].get(x)), None))
    w = R.Worker(b, [rep['module']])
    if rep['kind'] == 'batch':
        out = w.ask(dict(mode='batch', module=rep['module'], prop=rep['property'], tier=rep['tier'], seeds=rep['seeds'], hang=60, limit=600))
        v = [x for r in out['results'] for x in r['viols']] + ([['fatal:' + out['fatal']['kind'], out['fatal']['msg']]] if out.get('fatal') else [])
        h = None
    else:
        c = dict(mode='one', module=rep['module'], prop=rep['property'], spec=rep['spec'], knobs=rep['knobs'], hang=60)
        if rep.get('decisions') is not None: c['decisions'] = rep['decisions']
        if len(sys.argv) > 2: c['trace'] = os.path.abspath(sys.argv[2])
        v, h, _ = R.normalise(w.ask(c))
    w.close()
    for x in v: print('%s: %s' % tuple(x))
    if h is not None and rep.get('hash'):
        print('execution %s the recorded one' % ('is identical to' if h == rep['hash'] else 'differs from'))
    if v:
        print('VIOLATION property=%s replay=%s' % (rep['property'], sys.argv[1])); return 1
    print('no violation'); return 0
sys.exit(main())
