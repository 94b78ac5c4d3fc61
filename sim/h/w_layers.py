"""C11, C12, C13: layers, attention and losses against their definitions."""
import numpy as np
import core, nets, nets2, nets3
KINDS = dict(C11=nets.LAYERS)
KINDS.update(nets2.KINDS); KINDS.update(nets3.KINDS)
def warm():
    import torch
    x = torch.ones(2, requires_grad=True)
    from transformers.models.gpt2 import modeling_gpt2
def one(rng, kinds):
    return nets.S[rng.choice(kinds)].gen(rng)
def gen(prop, rng, tier):
    return dict(steps=[one(rng, KINDS[prop]) for _ in range(2)])
def label(prop, spec):
    return ','.join(c['L'] for c in spec['steps'])
def shrink(spec):
    st = spec['steps']
    if len(st) > 1:
        for i in range(len(st)): yield dict(spec, steps=st[:i] + st[i+1:])
    for i, c in enumerate(st):
        R = c['rounds']
        if len(R) > 1:
            for j in range(len(R)):
                n = [dict(r) for r in R[:j] + R[j+1:]]; n[0].update(x=1, g=1)
                yield dict(spec, steps=st[:i] + [dict(c, rounds=n)] + st[i+1:])
        for j, r in enumerate(R):
            for k in ('nf', 'nb'):
                if r[k] > (1 if k == 'nf' else 0):
                    n = [dict(q) for q in R]; n[j][k] -= 1
                    yield dict(spec, steps=st[:i] + [dict(c, rounds=n)] + st[i+1:])
def scenario(env, c): return nets.S[c['L']](env, c)
def run(prop, spec, env):
    with env.sess() as s:
        s.start_runtime()
        for c in spec['steps']:
            sc = scenario(env, c)
            sc.create(); sc.fill(); sc.go()
            sc.check(sc.outs())
            sc.drop()
            del sc
        env.wait()
        if env.alive():
            env.viol('leak', '%d data handles alive after everything was unregistered' % env.alive())
        s.stop_runtime()
