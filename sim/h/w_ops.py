"""C02, C04: one operation at a time against its whole-array definition."""
import numpy as np
import ops, core
from ops import OPS

GROUPS = {'C02': [o for o in OPS.values() if o.group == 'map'], 'C04': [o for o in OPS.values() if o.group == 'reduce']}

def one(rng, prop):
    o = rng.choice(GROUPS[prop])
    c = o.gen(rng)
    c['blocking'] = int(rng.random() < 0.2)
    return c

def gen(prop, rng, tier):
    ops.WIDE = True
    try: return dict(steps=[one(rng, prop) for _ in range(6)])
    finally: ops.WIDE = False

def label(prop, spec):
    return ','.join(c['op'] for c in spec['steps'])

def step(env, c, check=True):
    o = OPS[c['op']]
    A = ops.operands(c, core.adata)
    t = {}
    for d in c['T']:
        x = env.new(d['shape'], d['bt'], d.get('dt', c['dt'])); t[d['n']] = x
        if d['mode'] != 'w':
            env.put(x, A[d['n']])
    o.prepare(c, t)
    if c.get('blocking'):
        o.call_blocking(env, c, t)
        if env.stat('pending') != 0:
            env.fail('blocking-returns-early:' + c['op'], 'blocking %s left %d unfinished tasks' % (c['op'], env.stat('pending')))
    else:
        o.call(env, c, t)
    out = {}
    for d in c['T']:
        if d.get('tmp'): continue
        out[d['n']] = env.get(t[d['n']])
    if check: judge(env, c, o, A, out)
    for x in t.values():
        x.unregister()
    return out
def judge(env, c, o, A, out):
    R = o.ref(A, c['p'])
    sc = o.scale(A, c['p'])
    sig = 'op:' + c['op']
    if hasattr(o, 'compare'):
        o.compare(env, sig, out, R, c['dt'], sc)
    else:
        for n, r in R.items():
            env.close(sig, out[n], r, o.tol*ops.TOL[c['dt']], scale=sc, what='%s.%s' % (c['op'], n))
    for d in c['T']:
        if d['mode'] == 'r' and d['n'] not in R:
            a = np.asarray(A[d['n']]).astype(env.NP[d.get('dt', c['dt'])])
            if not np.array_equal(a, out[d['n']].reshape(a.shape, order='F')):
                env.fail('input-changed:' + c['op'], '%s changed its input %s' % (c['op'], d['n']))

def run(prop, spec, env):
    with env.sess() as s:
        s.start_runtime()
        for c in spec['steps']:
            step(env, c)
        env.wait()
        if env.alive():
            env.viol('leak', '%d data handles alive after everything was unregistered' % env.alive())
        s.stop_runtime()
