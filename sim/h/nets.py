"""Scenarios over layers and losses: objects that can be built, filled, run
asynchronously, checked against a whole-array reference (torch, float64) and
dropped, any number of times.

A case is JSON: {'L': kind, 'dt', 'p': geometry and options, 'rounds': [..], 'seed'}.
Round: {'x': new input?, 'g': new output gradient?, 'nf': forwards, 'nb': backwards}.
"""
import numpy as np, math, random
import core
from core import Skip
TOL = dict(fp32=2e-5, fp64=2e-12)
UNIT = dict(fp32=6e-8, fp64=1.2e-16)
import os
FACT = float(os.environ.get('FACT', 100))
S = {}
def reg(c):
    S[c.kind] = c
    return c
def th():
    import torch
    return torch

def cdiv(a, b): return -(-a//b)
def ext(rng, hi=7, maxtiles=4):
    if hi >= 5 and rng.random() < 0.03: # now and then much longer than usual
        n = rng.choice([11, 13, 16, 17, 20, 24, 33, 40]); return [n, rng.choice([n, cdiv(n, 2), cdiv(n, rng.randint(2, maxtiles+2))])]
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9][:hi+4]); n = min(n, hi)
    r = rng.random()
    t = n if r < 0.3 else rng.randint(max(1, cdiv(n, maxtiles)), n)
    return [n, t]
def divext(rng, hi=6):
    """extent that its tile divides"""
    t = rng.choice([1, 1, 2, 2, 3]); k = rng.choice([1, 1, 2, 2, 3])
    while t*k > hi: k = max(1, k-1); t = max(1, t-(k == 1))
    return [t*k, t]

class Scn:
    consumes = True      # a backward pass needs a fresh forward pass
    nin = 1              # number of round inputs
    redux = False
    def __init__(self, env, c):
        self.env, self.c, self.p = env, c, c['p']
        self.dt = c['dt']
        self.nt = env.nntile
    # ---- helpers
    def new(self, g, dt=None):
        return self.env.new([a for a, b in g], [b for a, b in g], dt or self.dt)
    def tm(self, g, req=True, grad=None):
        v = self.new(g)
        gr = self.new(g) if (grad if grad is not None else req) else None
        return self.nt.tensor.TensorMoments(v, gr, req)
    def data(self, tag, shape, kind='normal', scale=1.0):
        d = core.adata([self.c['seed'] & 0x7fffffff, hash_tag(tag)], kind, shape)
        np_dt = dict(fp32=np.float32, fp64=np.float64)[self.dt]
        if kind in ('label', 'bool'): return d
        return (np.asarray(d)*scale).astype(np_dt).astype(np.float64)
    # ---- to be given by subclasses
    # build(): creates self.layer, self.params {name: TensorMoments}, self.ins {name: (tensor, kind)}, self.gin {name: TensorMoments}, self.y TensorMoments
    # f(torch, ins, params): output
    def passes(self): return self.c['rounds']
    def input_value(self, name, r):
        t, kind = self.ins[name]
        return self.data('in/%s/%d' % (name, r), list(t.shape), kind, self.p.get('xs', 1.0))
    def create(self):
        env = self.env
        self.build()
        self.can_clear = hasattr(self.layer, 'clear_gradients')
        for i, m in enumerate(self.params.values()):
            # frozen parameters
            if self.c.get('fz', 0) >> i % 12 & 1: m.grad_required = False
        self.stage = {}
        self.gstage = {}
        for r, rd in enumerate(self.c['rounds']):
            if rd.get('x') or r == 0:
                for n, (t, kind) in self.ins.items():
                    self.stage[n, r] = env.new(t.shape, t.basetile_shape, env.dt(t))
            if rd.get('g') or r == 0:
                if self.y.grad is not None:
                    self.gstage[r] = env.new(self.y.grad.shape, self.y.grad.basetile_shape, self.dt)
    def pscale(self, name): return 1.0
    def fill(self):
        env = self.env
        self.pv, self.g0 = {}, {}
        for n, m in self.params.items():
            v = self.param_value(n)
            if v is None:
                v = self.data('par/'+n, list(m.value.shape), 'normal', 0.7*self.pscale(n))
                env.put(m.value, v)
            self.pv[n] = v
            if m.grad is not None:
                self.g0[n] = self.data('pg/'+n, list(m.value.shape), 'eighth')
                env.put(m.grad, self.g0[n])
        for n, m in self.gin.items():
            if m.grad is not None:
                self.g0[n] = self.data('xg/'+n, list(m.value.shape), 'eighth')
                env.put(m.grad, self.g0[n])
        self.iv = {}
        for (n, r), t in self.stage.items():
            self.iv[n, r] = self.input_value(n, r)
            env.put(t, self.iv[n, r])
        self.gv = {}
        for r, t in self.gstage.items():
            self.gv[r] = self.data('dy/%d' % r, list(t.shape), self.p.get('gk', 'normal'))
            env.put(t, self.gv[r])
        self.fill_more()
    def fill_more(self): pass
    def param_value(self, n): return None   # the value the object gave this parameter itself
    def before_forward(self): pass
    def before_backward(self): pass
    def go(self):
        nt = self.nt.tensor
        for r, rd in enumerate(self.c['rounds']):
            for n, (t, kind) in self.ins.items():
                if (n, r) in self.stage: nt.copy_async(self.stage[n, r], t)
            for i in range(rd['nf']):
                self.before_forward()
                self.pass_(self.layer.forward_async, getattr(self.layer, 'forward', None), rd)
            if self.clears(rd): self.layer.clear_gradients()
            if r in self.gstage or self.clears(rd) and self.gstage: nt.copy_async(self.gstage[max(q for q in self.gstage if q <= r)], self.y.grad)
            for i in range(rd['nb']):
                if i and self.consumes:
                    self.before_forward()
                    self.layer.forward_async()
                    # the output gradient may have been cleared with the activations
                self.before_backward()
                self.pass_(self.layer.backward_async, getattr(self.layer, 'backward', None), rd)
    # the gradients are cleared at the start of this round (layers and models that offer it)
    can_clear = False
    def clears(self, rd): return rd.get('cg') and self.can_clear
    def pass_(self, a, b, rd):
        env = self.env
        if rd.get('blk') and hasattr(self.layer, 'forward'):
            b()
            if env.stat('pending'): env.fail('blocking-returns-early', 'blocking pass of %s left %d unfinished tasks' % (self.kind, env.stat('pending')))
            return
        n = env.stat('blocking_waits')
        a()
        if env.stat('blocking_waits') != n: env.fail('async-blocks', 'pass of %s waited for unfinished work' % self.kind)
    def outs(self):
        env = self.env; o = {}
        o['y'] = env.get(self.y.value)
        for n, m in self.params.items():
            o['val/'+n] = env.get(m.value)
            if m.grad is not None: o['grad/'+n] = env.get(m.grad)
        for n, m in self.gin.items():
            if m.grad is not None and self.gin_written(): o['grad/'+n] = env.get(m.grad)
        for n, (t, kind) in self.ins.items(): o['val/'+n] = env.get(t)
        if self.y.grad is not None and self.gv and self.dy_written: o['dy'] = env.get(self.y.grad)
        return o
    jitamp = 6e-8
    def jit(self, v, jitter):
        """the operand with relative errors of one rounding: how well conditioned is the result?"""
        if not jitter: return v
        return v*(1 + self.jitamp*np.random.default_rng([jitter, v.size]).uniform(-1, 1, v.shape))
    def reference(self, lowp=False, jitter=0):
        torch = th(); dt = torch.float32 if lowp else torch.float64
        cur, curg, R = {}, None, {}
        acc = {n: v.copy() for n, v in self.g0.items()}
        for r, rd in enumerate(self.c['rounds']):
            for n in self.ins:
                if (n, r) in self.iv: cur[n] = self.iv[n, r]
            if r in self.gv: curg = self.gv[r]
            if self.clears(rd):
                for n in acc:
                    if (self.params.get(n) or self.gin.get(n)).grad_required: acc[n] = acc[n]*0
            leaves = {}
            I = {}
            for n, v in cur.items():
                t = torch.tensor(np.ascontiguousarray(v)) if self.ins[n][1] in ('label', 'bool') else torch.tensor(np.ascontiguousarray(self.jit(v, jitter)), dtype=dt)
                if n in self.gin: t.requires_grad_(True); leaves[n] = t
                I[n] = t
            P = {}
            for n in self.params:
                P[n] = torch.tensor(np.ascontiguousarray(self.jit(self.pv[n], jitter)), dtype=dt, requires_grad=True); leaves[n] = P[n]
            y = self.f(torch, I, P)
            R['y'] = y.detach().double().numpy()
            if rd['nb']:
                gs = torch.autograd.grad(y, list(leaves.values()), torch.tensor(np.ascontiguousarray(curg), dtype=dt).reshape(y.shape), allow_unused=True)
                for n, g in zip(leaves, gs):
                    m = self.params.get(n) or self.gin.get(n)
                    if m.grad is not None and m.grad_required:
                        if g is not None: acc[n] = self.accumulate(n, acc[n], rd['nb']*g.double().numpy().reshape(acc[n].shape), g.double().numpy().reshape(acc[n].shape))
        for n, v in acc.items(): R['grad/'+n] = v
        for n, v in self.pv.items(): R['val/'+n] = v
        for n in self.ins: R['val/'+n] = cur[n]
        if curg is not None: R['dy'] = curg
        return R
    def accumulate(self, n, acc, total, last): return acc + total
    def check(self, o):
        env = self.env
        with np.errstate(all='ignore'):
            R = self.reference(); L = [self.reference(True)]
            if self.mixed: L += [self.reference(jitter=1), self.reference(jitter=2)]
        gm = max([np.abs(v).max(initial=0) for k, v in R.items() if k.startswith('grad/')], default=0)
        for k, v in o.items():
            r = R[k]
            if k.startswith('val/') or k == 'dy':
                a = np.asarray(r).astype(v.dtype).reshape(v.shape)
                if not np.array_equal(a, v): env.fail('changed:%s' % self.kind, '%s of %s changed by the passes' % (k, self.kind))
                continue
            low = 0.0
            for q in L:
                d = np.abs(q[k] - r); low = max(low, d[np.isfinite(d)].max(initial=0))
            m = np.abs(r).max(initial=0)
            if k.startswith('grad/') and k[5:] in self.g0: m = max(m, np.abs(self.g0[k[5:]]).max(initial=0))
            if k.startswith('grad/') and self.mixed: m = max(m, gm)
            m = max(m, self.mags.get(k, 0), 1e-6)
            # rounding of a computation of this size, and what a plain computation in the tested precision loses
            tol = UNIT[self.dt]*FACT*m*self.tolx + self.lowx*(3 if self.mixed else 1)*low*(1.0 if self.dt == 'fp32' else 2.0**-24)
            core.margin('nets:%s:%s:%s' % (self.kind, self.dt, k.split('/')[0]), v.astype(np.float64), r.reshape(v.shape), tol)
            bad = ~(np.abs(v.astype(np.float64) - r.reshape(v.shape)) <= tol)
            if bad.any():
                i = tuple(int(x[0]) for x in np.nonzero(bad)) if v.ndim else ()
                env.fail('%s:%s' % (self.kind, k.split('/')[0]), '%s of %s wrong at %s: got %r, definition gives %r (tolerance %.1e, %d of %d elements)' % (k, self.label(), i, float(v[i]), float(r.reshape(v.shape)[i]), tol, int(bad.sum()), bad.size))
    mixed = False        # gradients that cancel exactly in theory: errors are relative to the largest gradient
    tolx = 1.0; lowx = 40; mags = {}; dy_written = True
    def gin_written(self): return True
    def label(self): return self.kind
    def drop(self):
        for t in list(self.stage.values()) + list(self.gstage.values()): t.unregister()
        self.layer.unregister()
        self.y.unregister()
        for m in self.gin.values(): m.unregister()
        for t, kind in self.ins.values(): t.unregister()
        self.drop_more()
    def drop_more(self): pass

_tags = {}
def hash_tag(s):
    import zlib
    return zlib.crc32(s.encode())

def rounds(rng, consumes=True):
    R = []
    for i in range(rng.choice([1, 1, 1, 2, 2, 3])):
        R.append(dict(x=int(i == 0 or rng.random() < 0.6), g=int(i == 0 or rng.random() < 0.5), nf=rng.choice([1, 1, 1, 2]), nb=rng.choice([1, 1, 1, 0, 2]), blk=int(rng.random() < 0.06), cg=int(rng.random() < 0.25)))
    return R
def case(rng, kind, p, **kw):
    c = dict(L=kind, dt=rng.choice(['fp32', 'fp32', 'fp64']), p=p, rounds=rounds(rng), seed=rng.getrandbits(31))
    if rng.random() < 0.25: c['fz'] = rng.getrandbits(12)
    c.update(kw)
    return c
def prod(l): return math.prod(l) if l else 1
def small(gs, cap=700): return all(prod([a for a, b in g]) <= cap and prod([cdiv(a, b) for a, b in g]) <= 40 for g in gs)

@reg
class LinearS(Scn):
    kind = 'linear'; consumes = False
    @staticmethod
    def gen(rng):
        while True:
            nd = rng.choice([1, 1, 1, 2]); k = rng.choice([1, 1, 2, 2, 3])
            C = [ext(rng) for _ in range(nd)]; F = [ext(rng) for _ in range(k)]
            side, tr = rng.choice('LR'), rng.random() < 0.5
            # where the contracted dimensions are in x
            first = (side == 'L' and tr) or (side == 'R' and not tr)
            x = C + F if first else F + C
            bias = rng.random() < 0.5
            add = [ext(rng)] if bias else [ext(rng) for _ in range(rng.choice([1, 1, 2]))]
            if not small([x, C+add, F+add]) or prod([cdiv(a, b) for a, b in C+F+add]) > 60: continue
            return case(rng, 'linear', dict(x=x, nd=nd, side=side, tr=int(tr), bias=int(bias), add=add, redux=int(rng.random() < 0.3), tf32=int(rng.random() < 0.15), half=int(rng.random() < 0.12), xg=rng.choice([1, 1, 1, 0, 2])))
    def build(self):
        p = self.p; nt = self.nt
        x = self.tm(p['x'], p['xg'] == 1, p['xg'] > 0)
        self.layer, self.env.tag = nt.layer.Linear.generate_simple(x, p['side'], nt.trans if p['tr'] else nt.notrans, p['nd'], [a for a, b in p['add']], [b for a, b in p['add']], self.env.tag, bias=bool(p['bias']), redux=bool(p['redux']), fp32_fast_tf32=bool(p['tf32']), fp32_convert_fp16=bool(p['half']))
        if p['half'] and not p['tf32'] and self.dt == 'fp32': self.tolx, self.lowx, self.jitamp, self.mixed = 2000, 4, 5e-4, True # products of halves
        self.params = dict(w=self.layer.w)
        if p['bias']: self.params['b'] = self.layer.b
        self.ins = dict(x=(x.value, 'normal')); self.gin = dict(x=x); self.y = self.layer.y
        if p['xg'] == 2: pass
    def f(self, torch, I, P):
        p = self.p; n = p['nd']; x, w = I['x'], P['w']; d = x.dim()
        if p['side'] == 'L':
            y = torch.tensordot(x, w, (list(range(n)) if p['tr'] else list(range(d-n, d)), list(range(n))))
            if p['bias']: y = y + P['b']
        else:
            y = torch.tensordot(w, x, (list(range(w.dim()-n, w.dim())), list(range(d-n, d)) if p['tr'] else list(range(n))))
            if p['bias']: y = y + P['b'].reshape([-1] + [1]*(y.dim()-1))
        return y

@reg
class ActS(Scn):
    kind = 'act'; consumes = False
    @staticmethod
    def gen(rng):
        return case(rng, 'act', dict(x=[ext(rng) for _ in range(rng.choice([1, 2, 2, 3]))], fn=rng.choice(['relu', 'gelu', 'gelutanh']), xg=rng.choice([1, 1, 1, 0, 2])))
    def build(self):
        p = self.p; x = self.tm(p['x'], p['xg'] == 1, p['xg'] > 0)
        self.layer, self.env.tag = self.nt.layer.Act.generate_simple(x, p['fn'], self.env.tag)
        self.params = {}; self.ins = dict(x=(x.value, 'normal')); self.gin = dict(x=x); self.y = self.layer.y
    def f(self, torch, I, P):
        F = torch.nn.functional
        return dict(relu=F.relu, gelu=F.gelu, gelutanh=lambda t: F.gelu(t, approximate='tanh'))[self.p['fn']](I['x'])

@reg
class AddS(Scn):
    kind = 'add'; consumes = False
    @staticmethod
    def gen(rng):
        return case(rng, 'add', dict(x=[ext(rng) for _ in range(rng.choice([1, 2, 2, 3]))], xg=rng.choice([1, 1, 1, 0, 2]), yg=rng.choice([1, 1, 1, 0, 2]), same=int(rng.random() < 0.15)))
    def build(self):
        p = self.p; x = self.tm(p['x'], p['xg'] == 1, p['xg'] > 0)
        u = x if p['same'] else self.tm(p['x'], p['yg'] == 1, p['yg'] > 0)
        self.layer, self.env.tag = self.nt.layer.add.Add.generate_simple(x, u, self.env.tag)
        self.params = {}; self.ins = dict(x=(x.value, 'normal')); self.gin = dict(x=x); self.y = self.layer.res
        if not p['same']: self.ins['u'] = (u.value, 'normal'); self.gin['u'] = u
    def f(self, torch, I, P): return I['x'] + I['x' if self.p['same'] else 'u']

@reg
class AddSliceS(Scn):
    kind = 'add_slice'; consumes = False
    @staticmethod
    def gen(rng):
        x = [ext(rng) for _ in range(rng.choice([2, 2, 3]))]
        return case(rng, 'add_slice', dict(x=x, axis=rng.randrange(len(x)), redux=int(rng.random() < 0.3), xg=rng.choice([1, 1, 1, 0, 2]), yg=rng.choice([1, 1, 1, 2])))
    def build(self):
        p = self.p; x = self.tm(p['x'], p['xg'] == 1, p['xg'] > 0); a = p['axis']
        u = self.tm(p['x'][:a] + p['x'][a+1:], p['yg'] == 1, p['yg'] > 0)
        self.layer, self.env.tag = self.nt.layer.AddSlice.generate_simple(x, u, a, self.env.tag, redux=bool(p['redux']))
        self.params = {}; self.ins = dict(x=(x.value, 'normal'), u=(u.value, 'normal')); self.gin = dict(x=x, u=u); self.y = self.layer.u
    def f(self, torch, I, P): return I['x'] + I['u'].unsqueeze(self.p['axis'])

@reg
class LayerNormS(Scn):
    kind = 'layer_norm'; tolx = 4
    @staticmethod
    def gen(rng):
        x = [ext(rng) for _ in range(rng.choice([1, 2, 2, 3, 3]))]
        return case(rng, 'layer_norm', dict(x=x, axis=rng.randrange(len(x)), eps=rng.choice([1e-5, 1e-5, 1e-2, 0.5]), xs=rng.choice([1.0, 1.0, 5.0, 0.1]), redux=int(rng.random() < 0.3), xg=rng.choice([1, 1, 1, 0, 2])))
    def build(self):
        p = self.p; x = self.tm(p['x'], p['xg'] == 1, p['xg'] > 0)
        self.layer, self.env.tag = self.nt.layer.LayerNorm.generate_simple(x, p['axis'], p['eps'], self.env.tag, redux=bool(p['redux']))
        self.params = dict(gamma=self.layer.gamma, beta=self.layer.beta); self.ins = dict(x=(x.value, 'normal')); self.gin = dict(x=x); self.y = self.layer.y
    def f(self, torch, I, P):
        x, a = I['x'], self.p['axis']
        m = x.mean(a, keepdim=True); v = ((x-m)**2).mean(a, keepdim=True)
        sh = [1]*x.dim(); sh[a] = -1
        return (x-m)/torch.sqrt(v+self.p['eps'])*P['gamma'].reshape(sh) + P['beta'].reshape(sh)

@reg
class EmbeddingS(Scn):
    kind = 'embedding'; consumes = False
    @staticmethod
    def gen(rng):
        x = [ext(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
        wt = rng.choice([1, 1, 2, 3]); yt = wt*rng.choice([1, 1, 2]); e = rng.randint(1, 3*yt)
        return case(rng, 'embedding', dict(x=x, axis=rng.randint(0, len(x)), vocab=rng.choice([1, 2, 5, 9]), emb=e, wt=wt, yt=min(yt, e) if 0 else yt))
    def build(self):
        p = self.p
        if p['yt'] > p['emb']:
            # tiles larger than the tensor
            p = dict(p, yt=p['wt'] if p['wt'] <= p['emb'] else 1, wt=p['wt'] if p['wt'] <= p['emb'] else 1)
        self.vocab = p['vocab']
        x = self.new(p['x'], 'int64')
        self.layer, self.env.tag = self.nt.layer.Embedding.generate_simple(x, self.env.cls(self.dt), p['axis'], p['vocab'], p['emb'], p['yt'], p['wt'], self.env.tag)
        self.params = dict(w=self.layer.w); self.ins = dict(x=(x, 'label')); self.gin = {}; self.y = self.layer.y
    def input_value(self, name, r):
        t, kind = self.ins[name]
        return core.adata([self.c['seed'], hash_tag('in%d' % r)], 'label', list(t.shape), hi=self.vocab)
    def f(self, torch, I, P):
        y = P['w'][:, I['x'].reshape(-1)].reshape([-1] + list(I['x'].shape))
        return y.movedim(0, self.p['axis'])

@reg
class GapS(Scn):
    kind = 'gap'; consumes = False
    @staticmethod
    def gen(rng):
        return case(rng, 'gap', dict(x=[ext(rng) for _ in range(3)], xg=rng.choice([1, 1, 2])))
    def build(self):
        p = self.p; x = self.tm(p['x'], p['xg'] == 1, p['xg'] > 0)
        self.layer, self.env.tag = self.nt.layer.GAP.generate_simple(x, self.env.tag)
        self.params = {}; self.ins = dict(x=(x.value, 'normal')); self.gin = dict(x=x); self.y = self.layer.y
    def f(self, torch, I, P): return I['x'].mean(0).T

class Tmp(Scn):
    """layers made of layers: gradients of inner activations are cleared before the backward pass, as the models do"""
    def inner(self): return self.layer.temporaries
    def before_backward(self):
        for t in self.inner():
            if t is not None and getattr(t, 'grad', None) is not None and t is not self.y and t.grad_required: self.nt.tensor.clear_async(t.grad)
    def drop_more(self):
        for t in self.inner():
            if t is not None: t.unregister()

@reg
class MixerMlpS(Tmp):
    kind = 'mixer_mlp'; tolx = 2
    @staticmethod
    def gen(rng):
        side = rng.choice('LR'); x = [ext(rng, 4) for _ in range(3)]
        x[0 if side == 'R' else 2] = rng.choice([ext(rng, 4), ext(rng, 3)])
        return case(rng, 'mixer_mlp', dict(x=x, side=side, xg=rng.choice([1, 1, 0])))
    def build(self):
        p = self.p; x = self.tm(p['x'], p['xg'] == 1, p['xg'] > 0)
        self.layer, self.env.tag = self.nt.layer.MixerMlp.generate_simple(x, p['side'], self.env.tag)
        self.params = dict(w1=self.layer.linear_1.w, w2=self.layer.linear_2.w); self.ins = dict(x=(x.value, 'normal')); self.gin = dict(x=x); self.y = self.layer.y
    def f(self, torch, I, P): return mixer_mlp(torch, self.p['side'], I['x'], P['w1'], P['w2'])
def mixer_mlp(torch, side, x, w1, w2):
    g = torch.nn.functional.gelu
    if side == 'L': return torch.tensordot(g(torch.tensordot(x, w1, ([2], [0]))), w2, ([2], [0]))
    return torch.tensordot(w2, g(torch.tensordot(w1, x, ([1], [0]))), ([1], [0]))

@reg
class MixerS(Tmp):
    kind = 'mixer'; tolx = 6; lowx = 150; mixed = True
    @staticmethod
    def gen(rng):
        # one tile along the mixed dimensions, as the generator of the layer makes for its output
        x = [ext(rng, 4) for _ in range(3)]
        x[0][1] = x[0][0]; x[2][1] = x[2][0]
        return case(rng, 'mixer', dict(x=x, xg=1))
    def build(self):
        p = self.p; x = self.tm(p['x'], p['xg'] == 1, p['xg'] > 0)
        self.layer, self.env.tag = self.nt.layer.Mixer.generate_simple(x, self.env.tag)
        l = self.layer
        self.params = dict(g1=l.norm_1.gamma, b1=l.norm_1.beta, w11=l.mlp_1.linear_1.w, w12=l.mlp_1.linear_2.w, g2=l.norm_2.gamma, b2=l.norm_2.beta, w21=l.mlp_2.linear_1.w, w22=l.mlp_2.linear_2.w)
        self.ins = dict(x=(x.value, 'normal')); self.gin = dict(x=x); self.y = self.layer.y
    def f(self, torch, I, P): return mixer_ref(torch, I['x'], P)
def mixer_ref(torch, x, P, eps=1e-5):
    def ln(t, g, b):
        m = t.mean(2, keepdim=True); v = ((t-m)**2).mean(2, keepdim=True)
        return (t-m)/torch.sqrt(v+eps)*g + b
    u = x + mixer_mlp(torch, 'R', ln(x, P['g1'], P['b1']), P['w11'], P['w12'])
    return u + mixer_mlp(torch, 'L', ln(u, P['g2'], P['b2']), P['w21'], P['w22'])

LAYERS = ['linear', 'linear', 'linear', 'act', 'add', 'add_slice', 'layer_norm', 'layer_norm', 'embedding', 'gap', 'mixer_mlp', 'mixer']
