"""C05: the same program under two different runtimes (schedule, workers, undefined content, buffer addresses)
gives the same bits; and the runtime watches what every task touches."""
import numpy as np, random
import core, ops, nets, nets2, nets3, w_prog, w_ops, w_layers, w_optim, w_train
from core import gen_knobs
def warm(): w_layers.warm()
KINDS = w_layers.KINDS
def gen(prop, rng, tier):
    k = rng.choices(['prog', 'ops', 'C11', 'C12', 'C13', 'C17', 'optim', 'train'], [10, 8, 5, 4, 3, 2, 3, 1])[0]
    c = dict(k=k, redux=int(rng.random() < 0.15))
    if k == 'prog': c.update(w_prog.gen('C01', rng, tier))
    elif k == 'ops': c['steps'] = [w_ops.one(rng, rng.choice(['C02', 'C04'])) for _ in range(6)]
    elif k in KINDS: c['steps'] = [w_layers.one(rng, KINDS[k]) for _ in range(2 if k != 'C17' else 1)]
    elif k == 'optim': c['steps'] = [w_optim.gen_case('C14', rng) for _ in range(2)]
    else: c['steps'] = [w_train.gen_case(rng)]
    if not c['redux']: # otherwise results are compared with their definition only: rounding differs
        for s in c['steps']:
            for d in (s, s.get('p'), s.get('m', {}).get('p') if 'm' in s else None):
                if d and d.get('redux'): d['redux'] = 0
    k2 = gen_knobs(rng); c['k2'] = k2
    return c
def label(prop, spec): return spec['k']
def shrink(spec):
    import runner
    k = spec['k']
    if k in KINDS: yield from w_layers.shrink(spec)
    elif k == 'optim': yield from w_optim.shrink(spec)
    elif k == 'train': yield from w_train.shrink(spec)
    else: yield from runner.default_shrink(spec)

def loose(c):
    """results that depend on the order of a commutative sum"""
    return c.get('op') == 'total_sum_accum'
def once(env, spec, judge):
    k = spec['k']; o = []
    if k == 'prog':
        P = w_prog.Prog(env, spec)
        if not judge: P.compare = lambda t, got, what: None
        for st in spec['steps']: P.step(st)
        P.finish()
        return [('%s (read %d)' % (t, i), a) for i, (t, a) in enumerate(P.outs)]
    for i, c in enumerate(spec['steps']):
        if k == 'ops':
            r = w_ops.step(env, c, judge)
            if not loose(c): o += [('%s of step %d %s' % (n, i, c['op']), a) for n, a in sorted(r.items())]
        elif k in KINDS:
            s = w_layers.scenario(env, c); s.create(); s.fill(); s.go(); r = s.outs()
            if judge: s.check(r)
            s.drop()
            o += [('%s of %s' % (n, c['L']), a) for n, a in sorted(r.items()) if not (c['L'] == 'xentropy' and n in ('y', 'val', 'val/y', 'loss'))]
        elif k == 'optim':
            p = w_optim.Opt(env, c, w_optim.start(c))
            for n in range(c['n']): p.step(w_optim.grads(c, n))
            o += [('parameter %d of %s' % (j, c['opt']['k']), a) for j, a in enumerate(p.values())]
            p.drop()
        else:
            t = w_train.Train(env, c); t.go()
            for n in t.names: o.append(('parameter %s of %s' % (n, c['L']), env.get(t.m.params[n].value)))
            if c['loss'] == 'frob': o.append(('losses', np.array(t.pipe.loss_hist)))
            t.drop(); del t
    return o
def run(prop, spec, env):
    R = []
    for i, kn in enumerate((env.knobs, spec['k2'])):
        with env.sess(kn) as s:
            s.start_runtime()
            # the same tags, hence the same objects
            R.append(once(env, spec, bool(spec['redux'])))
            env.wait()
            if env.alive(): env.viol('leak', '%d data handles alive after everything was unregistered' % env.alive())
            s.stop_runtime()
    if spec['redux']: env.note('with_reductions'); return
    a, b = R
    if [n for n, v in a] != [n for n, v in b]: env.fail('depends-on-run', 'different results: %s against %s' % ([n for n, v in a], [n for n, v in b]))
    for (n, x), (m, y) in zip(a, b):
        if x.tobytes() != y.tobytes():
            d = np.argwhere(~((x == y) | ((x != x) & (y != y))))
            if not len(d): continue     # the sign of zero and the payload of NaN
            i = tuple(int(v) for v in d[0])
            env.fail('depends-on-run:' + spec['k'], '%s at %s is %r in one run and %r in another of the same program (%d of %d elements differ)' % (n, i, float(x[i]), float(y[i]), len(d), x.size))
