"""C20: the workloads of the other properties on a machine with GPUs: every
task that has a GPU implementation may run on a CPU or on a GPU worker."""
import core, ops, w_ops, w_prog, w_move, w_layers, w_optim, w_train
MODS = dict(w_ops=w_ops, w_prog=w_prog, w_move=w_move, w_layers=w_layers, w_optim=w_optim, w_train=w_train)
warm = w_layers.warm
def gen(prop, rng, tier):
    p, m = rng.choice([('C02', 'w_ops'), ('C02', 'w_ops'), ('C02', 'w_ops'), ('C04', 'w_ops'), ('C04', 'w_ops'), ('C01', 'w_prog'), ('C03', 'w_move'), ('C11', 'w_layers'),
        ('C12', 'w_layers'), ('C12', 'w_layers'), ('C13', 'w_layers'), ('C17', 'w_layers'), ('C14', 'w_optim'), ('C16', 'w_train')])
    ops.HUGE = rng.random() < 0.15
    try: sp = MODS[m].gen(p, rng, tier)
    finally: huge, ops.HUGE = ops.HUGE, False
    if huge and m == 'w_ops': sp['steps'] = sp['steps'][:2]
    # flash attention computes scores anew in every task: on different devices they agree up to rounding of the scores
    where = rng.choice(['', 'restrict_cuda', 'restrict_cuda']); deep = where != ''
    for c in sp.get('steps', ()):
        if c.get('L') == 'flash' and not deep: c['p'].update(deep=0, far=0, xs=min(c['p']['xs'], 1.0))
    pre = []
    if m != 'w_ops' and rng.random() < 0.5: # what ran before on the same workers leaves its traces in them (modes of cuBLAS handles)
        for _ in range(rng.choice([1, 2, 3])):
            pre.append(ops.OPS[rng.choice(['nrm2', 'axpy', 'axpy', 'nrm2', 'scal_inplace', 'gemm'])].gen(rng))
    return dict(pre=pre, gpus=rng.choice([1, 1, 2, 3]), where=where, of=p, m=m, spec=sp)
def label(prop, spec):
    m = MODS[spec['m']]
    return spec['of'] + ':' + (m.label(spec['of'], spec['spec']) if hasattr(m, 'label') else '')
def shrink(spec):
    if spec['pre']: yield dict(spec, pre=spec['pre'][1:]); yield dict(spec, pre=spec['pre'][:-1])
    if spec['gpus'] > 1: yield dict(spec, gpus=1)
    m = MODS[spec['m']]
    if hasattr(m, 'shrink'):
        for s in m.shrink(spec['spec']): yield dict(spec, spec=s)
    elif 'steps' in spec['spec']:
        st = spec['spec']['steps']
        for i in range(len(st)):
            if len(st) > 1: yield dict(spec, spec=dict(spec['spec'], steps=st[:i] + st[i+1:]))
def run(prop, spec, env):
    env.vgpu = False; env.gpus = spec['gpus']; env.where = spec['where']
    env.on_start = lambda: [w_ops.step(env, c) for c in spec['pre']]
    MODS[spec['m']].run(spec['of'], spec['spec'], env)
