"""C21: half-precision and tensor-core modes on a virtual GPU, against the
same float64 references as the ordinary modes."""
import numpy as np
import core, nets, nets2, nets3, ops, w_ops, w_layers
from nets import Scn, reg, case, ext, small
warm = w_layers.warm

@reg
class HalfChain(Scn):
    """a model that converts its input to half precision and back"""
    kind = 'half_chain'; consumes = False; tolx = 4
    @staticmethod
    def gen(rng):
        while True:
            x = [ext(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
            if small([x]): break
        return case(rng, 'half_chain', dict(x=x, half=1, n=rng.choice([1, 1, 2]), xg=rng.choice([1, 1, 1, 0, 2]), xs=rng.choice([1.0, 1.0, 1e-3, 30.0])), dt='fp32')
    def build(self):
        p, L, env = self.p, self.nt.layer, self.env
        x = self.tm(p['x'], p['xg'] == 1, p['xg'] > 0); acts = [x]; ls = []
        for i in range(p['n']):
            for C in (L.FP32_to_FP16, L.FP16_to_FP32):
                l, env.tag = C.generate_simple(acts[-1], env.tag); ls.append(l); acts.append(l.y)
        self.layer = self.nt.model.base_model.BaseModel(acts, ls)
        self.params = {}; self.ins = dict(x=(x.value, 'normal')); self.gin = dict(x=x); self.y = acts[-1]
    def accumulate(self, n, acc, total, last): return last # conversion layers overwrite
    def f(self, torch, I, P):
        class H(torch.autograd.Function):
            @staticmethod
            def forward(ctx, x): return x.half().to(x.dtype)
            @staticmethod
            def backward(ctx, g): return g.half().to(g.dtype)
        return H.apply(I['x'])

KINDS = ['linear', 'linear', 'linear', 'attention', 'flash', 'deep_relu', 'gpt2mlp', 'gpt2', 'half_chain']
def gen(prop, rng, tier):
    st = []
    for _ in range(2):
        if rng.random() < 0.4: c = ops.OPS[rng.choice(['gemm_ex', 'gemm_ex', 'gemm_half', 'half'])].gen(rng); c['blocking'] = int(rng.random() < 0.2)
        else:
            while True:
                c = nets.S[rng.choice(KINDS)].gen(rng); p = c['p']
                if c['L'] == 'half_chain': break
                if p.get('tor') or c['dt'] != 'fp32' and c['L'] in ('attention', 'flash'): continue
                if c['L'] == 'linear' and rng.random() < 0.5: p.update(tf32=0, half=1)
                else: p.update(tf32=1)
                break
        st.append(c)
    return dict(gpus=rng.choice([1, 1, 2, 3]), where=rng.choice(['', '', 'restrict_cuda']), steps=st)
def label(prop, spec): return ','.join(c.get('L') or c['op'] for c in spec['steps'])
def shrink(spec):
    st = spec['steps']
    if len(st) > 1:
        for i in range(len(st)): yield dict(spec, steps=st[:i] + st[i+1:])
    for i, c in enumerate(st):
        if 'op' in c: continue
        for s in w_layers.shrink(dict(steps=[c])): yield dict(spec, steps=st[:i] + s['steps'] + st[i+1:])
def run(prop, spec, env):
    env.vgpu = False; env.gpus = spec['gpus']; env.where = spec['where']
    with env.sess() as s:
        s.start_runtime()
        for c in spec['steps']:
            if 'op' in c: w_ops.step(env, c); continue
            sc = nets.S[c['L']](env, c); sc.create(); sc.fill(); sc.go(); sc.check(sc.outs()); sc.drop(); del sc
        env.wait()
        if env.alive(): env.viol('leak', '%d data handles alive after everything was unregistered' % env.alive())
        s.stop_runtime()
