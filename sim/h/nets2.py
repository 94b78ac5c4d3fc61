"""Attention and losses (C12, C13)."""
import numpy as np, math
import core, nets
from nets import Scn, reg, case, ext, divext, small, prod, cdiv, hash_tag, TOL, rounds

def attn_gen(rng, kind):
    flash = kind == 'flash'
    while True:
        e = (lambda hi: divext(rng, hi)) if flash else (lambda hi: ext(rng, hi, 3))
        h, s, b = e(4), e(6), e(3); d = rng.choice([1, 2, 2, 3, 4, 6])
        big = rng.random()
        if big < 0.04: t = rng.choice([1, 2, 3, 4, 5, 8]); k = rng.randint(2, 6); s = [t*k, t]
        elif big < 0.06: t = rng.choice([1, 2, 3]); k = rng.choice([1, 2, 3]); h = [t*k, t]; d = rng.choice([d, 8, 16, 17])
        elif big < 0.07: t = rng.choice([1, 2, 5]); b = [t*rng.choice([2, 3]), t]
        n = h[0]*d; emb = [n, rng.randint(max(1, cdiv(n, 3)), n)]
        same = rng.choice(['all', 'all', 'kv', 'none'])
        ek = ext(rng, 5, 3) if same != 'all' else emb
        ev = ext(rng, 5, 3) if same == 'none' else ek
        T = [cdiv(x[0], x[1]) for x in (h, s, b)]
        if T[0]*T[1]**2*T[2] > (40 if big > 0.07 else 80) or n > (12 if big > 0.07 else 40): continue
        p = dict(h=h, s=s, b=b, d=d, emb=emb, ek=ek, ev=ev, same=same, bias=int(rng.random() < 0.5), redux=int(rng.random() < 0.3), tf32=int(rng.random() < 0.15), mask=rng.choice(['causal', 'causal', 'random', 'random', 'one', 'full'] + ([] if flash else ['none'])),
            xs=rng.choice([1.0, 1.0, 0.2, 3.0, 8.0]), xg=[rng.choice([1, 1, 1, 0, 2]) for _ in range(3)], mseed=rng.getrandbits(30), far=int(rng.random() < 0.2), deep=rng.choice([0, 0, 0, 0, 0, 3, 4, 5, 6]))
        c = case(rng, kind, p)
        if p['deep'] and rng.random() < 0.8: c['dt'] = 'fp64'
        if c['dt'] != 'fp32': p['tf32'] = 0
        return c

class AttnBase(Scn):
    mixed = True
    @property
    def tolx(self): return (2 if self.dt == 'fp32' else 8)*10.0**self.p['deep']
    def pscale(self, n):
        # scores of a wide range: what is masked may have been by far the largest, or the others be very negative
        return 10.0**self.p['deep'] if n == 'wk' and self.p['deep'] else 1.0
    def build(self):
        p = self.p; nt = self.nt
        names = dict(all=['q', 'q', 'q'], kv=['q', 'k', 'k'], none=['q', 'k', 'v'])[p['same']]
        X = {}
        for n, e, g in zip(names, (p['emb'], p['ek'], p['ev']), p['xg']):
            if n not in X: X[n] = self.tm([e, p['s'], p['b']], g == 1, g > 0)
        self.names = names
        self.mask = None; n = p['s'][0]
        if p['mask'] != 'none':
            self.mask = self.new([p['s'], p['s']], 'bool')
            r = np.random.default_rng(p['mseed'])
            m = dict(causal=lambda: np.triu(np.ones((n, n), dtype=bool)), random=lambda: r.random((n, n)) < r.choice([0.2, 0.5, 0.8]), one=lambda: np.zeros((n, n), dtype=bool), full=lambda: np.ones((n, n), dtype=bool))[p['mask']]()
            for q in range(n):
                if not m[:, q].any(): m[r.integers(n), q] = True
            self.mv = m
        cls = nt.layer.FlashAttention if self.kind == 'flash' else nt.layer.Attention
        self.layer, self.env.tag = cls.generate_simple(X[names[0]], X[names[1]], X[names[2]], p['h'][0], p['h'][1], self.env.tag, bias=bool(p['bias']), mask=self.mask, redux=bool(p['redux']), fp32_fast_tf32=bool(p['tf32']))
        l = self.layer
        self.params = dict(wq=l.w_q, wk=l.w_k, wv=l.w_v, w=l.w)
        if p['bias']: self.params.update(bq=l.in_proj_bias_q, bk=l.in_proj_bias_k, bv=l.in_proj_bias_v, bo=l.out_proj_bias)
        self.ins = {n: (t.value, 'normal') for n, t in X.items()}; self.gin = dict(X); self.y = l.y
        self.X = X
    def input_value(self, name, r):
        v = super().input_value(name, r)
        if self.p['far'] and self.mask is not None and name != 'q':
            dead = ~self.mv.any(1) # keys nobody may look at
            v = v.copy(); v[:, dead, :] *= 50
        return v
    def fill_more(self):
        if self.mask is not None: self.env.put(self.mask, self.mv)
    def f(self, torch, I, P):
        p = self.p; xq, xk, xv = (I[n] for n in self.names)
        q = torch.einsum('jkl,lmn->kmnj', P['wq'], xq); k = torch.einsum('jkl,lmn->kmnj', P['wk'], xk); v = torch.einsum('jkl,lmn->kmnj', P['wv'], xv)
        if p['bias']:
            q = q + P['bq'][:, None, None, :]; k = k + P['bk'][:, None, None, :]; v = v + P['bv'][:, None, None, :]
        a = torch.einsum('jklb,jmlb->kmlb', k, q)/math.sqrt(p['d'])
        if self.mask is not None: a = a.masked_fill(~torch.tensor(self.mv)[:, :, None, None], -math.inf)
        a = torch.softmax(a, 0)
        b = torch.einsum('jklb,kmlb->jmlb', v, a)
        y = torch.einsum('jkl,lmnk->jmn', P['w'], b)
        if p['bias']: y = y + P['bo'][:, None, None]
        return y
    def outs(self):
        o = super().outs()
        if self.mask is not None:
            m = self.env.get(self.mask)
            if not np.array_equal(m.astype(bool), self.mv): self.env.fail('changed:' + self.kind, 'the mask was changed')
        return o
    def drop_more(self):
        if self.mask is not None: self.mask.unregister()

@reg
class AttentionS(AttnBase):
    kind = 'attention'
    @staticmethod
    def gen(rng): return attn_gen(rng, 'attention')
@reg
class FlashS(AttnBase):
    kind = 'flash'
    @staticmethod
    def gen(rng): return attn_gen(rng, 'flash')

KINDS = dict(C12=['attention', 'flash', 'flash'])

class LossBase(Scn):
    """rounds: x new input?, g new targets?, nf evaluations, clr: value cleared first"""
    def create(self):
        env = self.env; self.build(); self.stage = {}
        for r, rd in enumerate(self.c['rounds']):
            for n in self.ins:
                if r == 0 or rd.get('x' if n == 'x' else 'g'):
                    t, kind = self.ins[n]; self.stage[n, r] = env.new(t.shape, t.basetile_shape, env.dt(t))
    def fill(self):
        env = self.env; self.iv = {}
        for (n, r), t in self.stage.items():
            self.iv[n, r] = self.input_value(n, r); env.put(t, self.iv[n, r])
        self.v0 = float(self.data('val', [1], 'eighth')[0]); env.put(self.loss.val, self.v0)
        self.g0 = {}
        if self.x.grad is not None and not self.x.grad_required:
            self.g0["x"] = self.data("xg", list(self.x.grad.shape), "eighth"); env.put(self.x.grad, self.g0["x"])
    def go(self):
        env, nt = self.env, self.nt.tensor
        for r, rd in enumerate(self.c['rounds']):
            for n, (t, kind) in self.ins.items():
                if (n, r) in self.stage: nt.copy_async(self.stage[n, r], t)
            if rd.get('clr'): nt.clear_async(self.loss.val)
            for i in range(rd['nf']):
                w = env.stat('blocking_waits'); self.loss.calc_async()
                if env.stat('blocking_waits') != w: env.fail('async-blocks', 'calc_async of %s waited for unfinished work' % self.kind)
    def outs(self):
        env = self.env
        if self.c['seed'] % 2: # through the loss itself
            o = dict(loss=self.own(self.loss.get_val, self.loss.val))
            if self.x.grad is not None: o['grad/x'] = self.own(self.loss.get_grad, self.x.grad)
        else:
            o = dict(loss=env.get(self.loss.val))
            if self.x.grad is not None: o['grad/x'] = env.get(self.x.grad)
        for n, (t, kind) in self.ins.items(): o['val/' + n] = env.get(t)
        return o
    def reference(self, lowp=False):
        torch = nets.th(); dt = torch.float32 if lowp else torch.float64
        v = torch.tensor(self.v0, dtype=dt); cur = {}; R = {}; g = None; self.vmag = abs(self.v0)
        for r, rd in enumerate(self.c['rounds']):
            for n in self.ins:
                if (n, r) in self.iv: cur[n] = self.iv[n, r]
            if rd.get('clr'): v = v*0
            for i in range(rd['nf']):
                add, g, mag = self.f(torch, {n: torch.tensor(np.ascontiguousarray(a), dtype=None if self.ins[n][1] == 'label' else dt) for n, a in cur.items()})
                v = add if self.over else v + add
                self.vmag = max(self.vmag, float(mag))
        R['loss'] = v.double().numpy(); R["grad/x"] = self.g0["x"] if self.g0 else g.double().numpy()
        for n in cur: R['val/' + n] = cur[n]
        return R
    def own(self, f, t):
        r = np.full(list(t.shape) or [1], -7, dtype=self.env.NP[self.env.dt(t)], order='F')
        f(r); self.env.obs(r)
        return r.reshape(t.shape)
    over = False
    def check(self, o):
        with np.errstate(all='ignore'): self.reference()
        self.mags = {'loss': self.vmag, 'grad/x': abs(self.p.get('scale', 0))}
        super().check(o)
    def drop(self):
        for t in self.stage.values(): t.unregister()
        self.loss.unregister(); self.x.unregister()
        for t, kind in self.ins.values(): t.unregister()

def loss_rounds(rng):
    return [dict(x=int(i == 0 or rng.random() < 0.6), g=int(i == 0 or rng.random() < 0.5), nf=rng.choice([1, 1, 1, 2, 3]), clr=int(rng.random() < 0.4), nb=0) for i in range(rng.choice([1, 1, 2, 2, 3]))]

@reg
class CrossEntropyS(LossBase):
    kind = 'xentropy'; tolx = 4
    @staticmethod
    def gen(rng):
        while True:
            v = ext(rng, 9); v[1] = v[0]
            x = [v] + [ext(rng) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
            if small([x]): break
        c = case(rng, 'xentropy', dict(x=x, redux=int(rng.random() < 0.3), scale=rng.choice([1.0, 1.0, 0.125, 0.37, -2.0, 100.0]), xs=rng.choice([1.0, 1.0, 0.01, 20.0, 500.0]), shift=rng.choice([0, 0, 0, 100.0, -100.0]), ninf=int(rng.random() < 0.25), xg=rng.choice([1, 1, 1, 1, 0, 2]), lab=rng.choice(['label', 'label', 'same'])))
        c['rounds'] = loss_rounds(rng); return c
    def build(self):
        p = self.p; self.x = self.tm(p['x'], p['xg'] == 1, p['xg'] > 0)
        self.loss, self.env.tag = self.nt.loss.CrossEntropy.generate_simple(self.x, self.env.tag, redux=bool(p['redux']), scale=p['scale'])
        self.ins = dict(x=(self.x.value, 'normal'), y=(self.loss.y, 'label'))
    def labels(self, r):
        t = self.loss.y; V = self.p['x'][0][0]
        l = core.adata([self.c['seed'], hash_tag('y%d' % r)], 'label', list(t.shape), hi=V)
        return np.full_like(l, (r*7) % V) if self.p['lab'] == 'same' else l
    def labels_at(self, r):
        while r and not self.c['rounds'][r].get('g'): r -= 1
        return self.labels(r)
    def input_value(self, n, r):
        if n == 'y': return self.labels(r)
        t, kind = self.ins[n]
        d = self.data('in/x/%d' % r, list(t.shape), 'normal', self.p['xs']) + self.p['shift']
        if self.p['ninf']:
            m = np.random.default_rng([self.c['seed'], r]).random(d.shape) < 0.3
            # scores of classes that are a label while these scores are in use stay finite
            rr = r
            while True:
                l = self.labels_at(rr)
                np.put_along_axis(m, l[None], False, 0)
                rr += 1
                if rr >= len(self.c['rounds']) or self.c['rounds'][rr].get('x'): break
            d = np.where(m, -np.inf, d)
        return d.astype(dict(fp32=np.float32, fp64=np.float64)[self.dt]).astype(np.float64)
    def f(self, torch, I):
        x, y, s = I['x'], I['y'], self.p['scale']
        l = torch.logsumexp(x, 0); t = torch.gather(x, 0, y[None])[0]
        oh = torch.zeros_like(x).scatter_(0, y[None], 1.0)
        fin = torch.where(torch.isfinite(x), x, torch.zeros_like(x))
        return s*(l - t).sum(), s*(torch.softmax(x, 0) - oh), abs(s)*(l.abs() + t.abs()).sum() 

@reg
class FrobS(LossBase):
    kind = 'frob'; over = True; tolx = 4
    @staticmethod
    def gen(rng):
        while True:
            x = [ext(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
            if small([x]): break
        c = case(rng, 'frob', dict(x=x, xs=rng.choice([1.0, 1.0, 1e-3, 1e3, 0.0]), eq=int(rng.random() < 0.1)))
        c['rounds'] = loss_rounds(rng); return c
    def build(self):
        self.x = self.tm(self.p['x'], True)
        self.loss, self.env.tag = self.nt.loss.Frob.generate_simple(self.x, self.env.tag)
        self.ins = dict(x=(self.x.value, 'normal'), y=(self.loss.y, 'normal'))
    def input_value(self, n, r): return self.data('in/%s/%d' % ('x' if self.p['eq'] else n, r), list(self.ins[n][0].shape), 'normal', self.p['xs'])
    def f(self, torch, I):
        d = I['x'] - I['y']
        return 0.5*(d*d).sum(), d, 0.0*d.sum()

KINDS['C13'] = ['xentropy', 'xentropy', 'frob']
