"""Models (C17) against reference networks."""
import numpy as np, math
import core, nets
from nets import Scn, reg, case, ext, divext, small, prod, cdiv, hash_tag, rounds, mixer_ref

def quiet(f, *a, **k):
    return f(*a, **k)
def torch_init(torch, m, seed, scale):
    r = np.random.default_rng([seed, 77])
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.tensor((r.standard_normal(tuple(p.shape))*scale).astype(np.float32)))
    return m

class ModelS(Scn):
    """self.layer is the model; parameters {name: TensorMoments} in self.params"""
    dy_written = False
    def gin_written(self): return any(rd['nb'] for rd in self.c['rounds'])
    def clear_acts(self): self.layer.clear_activations_grads()
    def accumulate(self, n, acc, total, last): return last if n in self.gin else acc + total
    def go(self):
        nt = self.nt.tensor; env = self.env; m = self.layer
        for r, rd in enumerate(self.c['rounds']):
            for n, (t, kind) in self.ins.items():
                if (n, r) in self.stage: nt.copy_async(self.stage[n, r], t)
            if rd.get('cp') and r == 0:
                m.clear_parameters_grads()
            if self.clears(rd): self.quietly(m.clear_gradients)
            for i in range(max(rd['nf'], 1)):
                self.quietly(m.forward_async)
            for i in range(rd['nb']):
                if i: self.quietly(m.forward_async)
                self.clear_acts()
                g = max(q for q in self.gstage if q <= r)
                nt.copy_async(self.gstage[g], self.y.grad)
                self.quietly(m.backward_async)
    def quietly(self, f):
        env = self.env; n = env.stat('blocking_waits'); f()
        if env.stat('blocking_waits') != n: env.fail('async-blocks', 'pass of %s waited for unfinished work' % self.kind)
    def fill(self):
        super().fill()
        if self.c['rounds'][0].get('cp'):
            for n, m in self.params.items():
                if m.grad is not None and m.grad_required: self.g0[n] = self.g0[n]*0
    def outs(self):
        o = super().outs()
        self.to_torch_check()
        return o
    def to_torch_check(self): pass
    def drop(self):
        for t in list(self.stage.values()) + list(self.gstage.values()): t.unregister()
        self.layer.unregister()
        for m in self.gin.values(): m.unregister()
        for t, kind in self.ins.values(): t.unregister()

def mrounds(rng):
    R = rounds(rng)
    for r in R: r['blk'] = 0
    R[0]['cp'] = int(rng.random() < 0.5)
    return R
def mcase(rng, kind, p, **kw):
    c = case(rng, kind, p, **kw); c['rounds'] = mrounds(rng); return c

@reg
class DeepLinearS(ModelS):
    kind = 'deep_linear'; tolx = 2
    @staticmethod
    def gen(rng):
        while True:
            nd = 1; side = rng.choice('LR')
            C = [ext(rng, 5) for _ in range(nd)]; F = [ext(rng, 5) for _ in range(rng.choice([1, 1, 2]))]
            x = F + C if side == 'L' else C + F
            h = ext(rng, 5)
            if small([x, [h] + F], 300) and prod([cdiv(a, b) for a, b in x + [h]]) <= 24: break
        return mcase(rng, 'deep_linear', dict(x=x, nd=nd, side=side, h=h, nl=rng.choice([2, 2, 3, 4]), xg=rng.choice([1, 1, 0]), app=int(rng.random() < 0.2)))
    def build(self):
        p = self.p; x = self.tm(p['x'], p['xg'] == 1)
        self.layer = m = self.nt.model.DeepLinear(x, p['side'], p['nd'], p['h'][0], p['h'][1], p['nl'], self.env.tag)
        self.env.tag = m.next_tag
        if p['app']: # one more layer
            l, self.env.tag = self.nt.layer.Act.generate_simple(m.activations[-1], 'relu', self.env.tag)
            m.append(l)
        q = m.get_parameters()
        if len(q) != 2*p['nl']: self.env.fail('parameters:' + self.kind, '%d parameters in a model of %d linear layers' % (len(q), p['nl']))
        self.params = {'wb'[i % 2] + str(i//2): t for i, t in enumerate(q)}
        self.ins = dict(x=(x.value, 'normal')); self.gin = dict(x=x); self.y = m.activations[-1]
    def f(self, torch, I, P):
        p = self.p; y = I['x']; n = p['nd']
        for i in range(p['nl']):
            w = P['w%d' % i]; k = n if i == 0 else 1; d = y.dim()
            if p['side'] == 'L': y = torch.tensordot(y, w, (list(range(d-k, d)), list(range(k))))
            else: y = torch.tensordot(w, y, (list(range(w.dim()-k, w.dim())), list(range(k))))
            y = y + (P['b%d' % i] if p['side'] == 'L' else P['b%d' % i].reshape([-1] + [1]*(y.dim()-1)))
        return torch.relu(y) if p['app'] else y

@reg
class DeepReluS(ModelS):
    kind = 'deep_relu'; tolx = 2; mixed = True
    @staticmethod
    def gen(rng):
        while True:
            tor = int(rng.random() < 0.4)
            nd = 1 if tor else rng.choice([1, 1, 2]); side = 'R' if tor else rng.choice('LR')
            C = [ext(rng, 5) for _ in range(nd)]; F = [ext(rng, 5) for _ in range(rng.choice([1, 1, 2]))]
            if tor: C[0][1] = C[0][0]; F = [ext(rng, 5)]; F[0][1] = F[0][0]
            h = ext(rng, 5)
            if tor: h[1] = h[0]
            x = F + C if side == 'L' else C + F
            if small([x, [h] + F], 300) and prod([cdiv(a, b) for a, b in x + [h]]) <= 24: break
        return mcase(rng, 'deep_relu', dict(x=x, nd=nd, side=side, h=h, nl=rng.choice([2, 2, 3, 4]), nc=rng.choice([1, 2, 3, 5]), bias=int(rng.random() < 0.5), tf32=int(not tor and rng.random() < 0.15), tor=tor, xg=0 if tor else rng.choice([1, 1, 0])), **(dict(dt='fp32') if tor else {}))
    def net(self, torch):
        p = self.p; L = []; dims = [p['x'][0][0]] + [p['h'][0]]*(p['nl']-1) + [p['nc']]
        for a, b in zip(dims, dims[1:]): L += [torch.nn.Linear(a, b, bias=bool(p['bias'])), torch.nn.ReLU()]
        return torch.nn.Sequential(*L[:-1])
    def build(self):
        p = self.p; torch = nets.th()
        if p['tor']:
            self.tn = torch_init(torch, self.net(torch), self.c['seed'], 0.7)
            self.layer, self.env.tag = self.nt.model.DeepReLU.from_torch(self.tn, p['x'][1][0], p['nc'], 'relu', self.env.tag)
            x = self.layer.activations[0]
        else:
            x = self.tm(p['x'], p['xg'] == 1)
            self.layer = self.nt.model.DeepReLU(x, p['side'], p['nd'], p['h'][0], p['h'][1], p['nl'], p['nc'], self.env.tag, bias=bool(p['bias']), fp32_fast_tf32=bool(p.get('tf32')))
            self.env.tag = self.layer.next_tag
        m = self.layer; q = m.get_parameters(); k = 2 if p['bias'] else 1
        if len(q) != p['nl']*k: self.env.fail('parameters:' + self.kind, '%d parameters in a model of %d layers' % (len(q), p['nl']))
        self.params = {}
        for i in range(p['nl']):
            self.params['w%d' % i] = q[k*i]
            if p['bias']: self.params['b%d' % i] = q[k*i+1]
        self.ins = dict(x=(x.value, 'normal')); self.gin = dict(x=x); self.y = m.activations[-1]
    def param_value(self, n):
        if not self.p['tor']: return None
        i = 2*int(n[1:]); l = self.tn[i]
        return (l.weight if n[0] == 'w' else l.bias).detach().double().numpy()
    def f(self, torch, I, P):
        p = self.p; y = I['x']; n = p['nd']
        for i in range(p['nl']):
            w = P['w%d' % i]; k = n if i == 0 else 1; d = y.dim()
            if p['side'] == 'L': y = torch.tensordot(y, w, (list(range(d-k, d)), list(range(k))))
            else: y = torch.tensordot(w, y, (list(range(w.dim()-k, w.dim())), list(range(k))))
            if p['bias']: y = y + (P['b%d' % i] if p['side'] == 'L' else P['b%d' % i].reshape([-1] + [1]*(y.dim()-1)))
            if i < p['nl']-1: y = torch.relu(y)
        return y

@reg
class MlpMixerS(ModelS):
    kind = 'mlp_mixer'; tolx = 6; lowx = 100; mixed = True
    @staticmethod
    def gen(rng):
        tor = int(rng.random() < 0.6); b = ext(rng, 4)
        if tor: b[1] = b[0]
        np_ = rng.choice([1, 2, 3, 4]); px = rng.choice([1, 2, 3, 4]); e = rng.choice([2, 3, 4, px])
        return mcase(rng, 'mlp_mixer', dict(b=b, np=np_, px=px, e=max(e, 2), nl=rng.choice([1, 1, 2]), nc=rng.choice([1, 2, 3]), tor=tor, xg=0 if tor else rng.choice([0, 1])), dt='fp32' if tor else rng.choice(['fp32', 'fp64']))
    def net(self, torch):
        p = self.p
        return self.nt.torch_models.mlp_mixer.MlpMixer(p['np'], p['px'], p['e'], p['nl'], p['nc'])
    def clear_acts(self): self.layer.clear_activations_grads()
    def build(self):
        p = self.p; torch = nets.th()
        import nntile.torch_models.mlp_mixer
        if p['tor']:
            self.tn = torch_init(torch, self.net(torch), self.c['seed'], 0.7)
            self.layer, self.env.tag = self.nt.model.MlpMixer.from_torch(self.tn, p['b'][0], p['nc'], self.env.tag)
            x = self.layer.activations[0]
        else:
            x = self.tm([[p['np']]*2, p['b'], [p['px']]*2], p['xg'] == 1)
            self.layer = self.nt.model.MlpMixer(x, p['e'], p['nl'], p['nc'], self.env.tag); self.env.tag = self.layer.next_tag
        q = self.layer.get_parameters()
        names = ['w0'] + ['%s.%d' % (n, i) for i in range(p['nl']) for n in ('g1', 'b1', 'w11', 'w12', 'g2', 'b2', 'w21', 'w22')] + ['wc']
        if len(q) != len(names): self.env.fail('parameters:' + self.kind, '%d parameters, %d expected' % (len(q), len(names)))
        self.params = dict(zip(names, q))
        self.ins = dict(x=(x.value, 'normal')); self.gin = dict(x=x); self.y = self.layer.activations[-1]
    TR = ('w0', 'w21', 'w22')
    def param_value(self, n):
        if not self.p['tor']: return None
        v = list(self.tn.parameters())[list(self.params).index(n)].detach().double().numpy()
        return v.T if n.split('.')[0] in self.TR else v
    def f(self, torch, I, P):
        p = self.p; y = torch.tensordot(I['x'], P['w0'], ([2], [0]))
        for i in range(p['nl']): y = mixer_ref(torch, y, {n: P['%s.%d' % (n, i)] for n in ('g1', 'b1', 'w11', 'w12', 'g2', 'b2', 'w21', 'w22')})
        if p['tor'] and y.dtype == torch.float64 and not hasattr(self, 'chk'):
            # the formula above is the network of the package
            self.chk = True; t = self.net(torch).double()
            sd = dict(zip([k for k, _ in t.named_parameters()], [(P[n].T if n.split('.')[0] in self.TR else P[n]).detach() for n in self.params]))
            a = torch.func.functional_call(t, sd, (I['x'].detach(),))
            b = (y.mean(0) @ P['wc'].T).detach()
            assert torch.allclose(a, b, atol=1e-9, rtol=1e-9)
        return torch.tensordot(P['wc'], y.mean(0), ([1], [1]))
    def to_torch_check(self):
        if not self.p['tor']: return
        torch = nets.th(); t = torch_init(torch, self.net(torch), 1 + self.c['seed'], 1.0)
        self.layer.to_torch(t)
        for (n, a), b in zip(self.tn.named_parameters(), t.parameters()):
            if not torch.equal(a, b): self.env.fail('to-torch:' + self.kind, 'parameter %s is not preserved by conversion to a model and back' % n)

def conv(name, p, e, nh):
    """values the model must hold for one parameter of the reference network"""
    parts = name.split('.'); hs = e//nh
    if 'c_attn' in parts:
        if parts[-1] == 'weight': return [p[:, i*e:(i+1)*e].T.reshape(nh, hs, e) for i in range(3)]
        return [p[i*e:(i+1)*e].reshape(nh, hs).T for i in range(3)]
    if 'attn' in parts and 'c_proj' in parts: return [p.T.reshape(e, nh, hs)] if parts[-1] == 'weight' else [p]
    if parts[-2] == 'lm_head': return [p]
    return [p.T]
def unconv(name, q, e, nh):
    parts = name.split('.'); import torch
    if 'c_attn' in parts:
        if parts[-1] == 'weight': return torch.cat([w.reshape(e, e).T for w in q], 1)
        return torch.cat([b.T.reshape(-1) for b in q])
    if 'attn' in parts and 'c_proj' in parts: return q[0].reshape(e, e).T if parts[-1] == 'weight' else q[0]
    if parts[-2] == 'lm_head': return q[0]
    return q[0].T if q[0].dim() == 2 else q[0]

class GptBase(ModelS):
    def cfg(self):
        p = self.p
        return self.nt.model.gpt2.GPT2Config(p['vocab'], p['wt'], p['e'], p['et'], p['maxpos'], p['inner'][0], p['inner'][1], p['eps'], p['nl'], p['nh'], p['nht'], p['act'], bool(p['flash']), bool(p['redux']))
    def hf(self):
        import transformers, torch
        p = self.p
        c = transformers.GPT2Config(vocab_size=p['vocab'], n_positions=p['maxpos'], n_embd=p['e'], n_layer=p['nl'], n_head=p['nh'], n_inner=p['inner'][0], activation_function=dict(gelutanh='gelu_new', gelu='gelu', relu='relu')[p['act']], attn_pdrop=0, embd_pdrop=0, resid_pdrop=0, layer_norm_epsilon=p['eps'], bos_token_id=0, eos_token_id=0)
        return c

def gpt_params(rng):
    hs = rng.choice([1, 2, 2, 3]); nh = rng.choice([1, 2, 2, 3, 4]); nht = rng.choice([t for t in range(1, nh+1) if nh % t == 0])
    e = hs*nh; et = rng.choice([t for t in range(1, e+1) if cdiv(e, t) <= 3]); wt = rng.choice([t for t in range(1, et+1) if et % t == 0])
    while cdiv(e, wt) > 6: wt = rng.choice([t for t in range(1, et+1) if et % t == 0])
    return dict(e=e, et=et, wt=wt, nh=nh, nht=nht, vocab=rng.choice([1, 3, 5, 7]), inner=ext(rng, 6, 3), act=rng.choice(['gelutanh', 'gelutanh', 'gelu', 'relu']), eps=rng.choice([1e-5, 1e-3]), nl=rng.choice([1, 1, 1, 2]), flash=int(rng.random() < 0.5), redux=int(rng.random() < 0.3), tf32=int(rng.random() < 0.12), s=divext(rng, 4), b=divext(rng, 3), maxpos=0)

@reg
class Gpt2S(GptBase):
    kind = 'gpt2'; tolx = 8; mixed = True
    @staticmethod
    def gen(rng):
        while True:
            p = gpt_params(rng); p['maxpos'] = p['s'][0] + rng.choice([0, 0, 1, 3])
            if p['flash'] or rng.random() < 0.5: pass
            else: p['s'] = ext(rng, 5, 3); p['b'] = ext(rng, 3); p['maxpos'] = max(p['maxpos'], p['s'][0])
            big = rng.random() # now and then longer, deeper or wider than usual
            if big < 0.04: t = rng.choice([1, 2, 3, 4, 8]); k = rng.randint(2, 5); p['s'] = [t*k, t]; p['maxpos'] = t*k + rng.choice([0, 0, 2])
            elif big < 0.06: p['nl'] = rng.choice([3, 4])
            elif big < 0.08: p['vocab'] = rng.choice([17, 33, 50])
            T = [cdiv(p['nh'], p['nht']), cdiv(*p['s']), cdiv(*p['b']), cdiv(p['e'], p['et'])]
            if T[0]*T[1]**2*T[2] <= (12 if big > 0.04 else 30) and prod(T) <= 20: break
        p['pseed'] = rng.getrandbits(20)
        return mcase(rng, 'gpt2', p, dt='fp32')
    def build(self):
        import torch, transformers
        p = self.p
        self.hfm = transformers.GPT2LMHeadModel(self.hf())
        self.hfm.lm_head.weight = torch.nn.Parameter(self.hfm.lm_head.weight.detach().clone())
        torch_init(torch, self.hfm, self.c['seed'], 0.4)
        self.layer, self.env.tag = self.nt.model.GPT2Model.from_torch(self.hfm, p['b'][0], p['b'][1], p['s'][0], p['s'][1], self.cfg(), self.env.tag, fp32_fast_tf32=bool(p.get('tf32'))) if hasattr(self.nt.model, 'GPT2Model') else self.nt.model.gpt2.GPT2Model.from_torch(self.hfm, p['b'][0], p['b'][1], p['s'][0], p['s'][1], self.cfg(), self.env.tag, fp32_fast_tf32=bool(p.get('tf32')))
        q = list(self.layer.parameters); self.params = {}; self.pt = {}; self.groups = {}; k = 0
        for name, t in self.hfm.named_parameters():
            vs = conv(name, t.detach().double().numpy(), p['e'], p['nh']); self.groups[name] = []
            for j, v in enumerate(vs):
                n = '%s#%d' % (name, j)
                if k >= len(q): self.env.fail('parameters:gpt2', 'too few parameters')
                self.params[n] = q[k]; self.pt[n] = v; self.groups[name].append(n); k += 1
        if k != len(q): self.env.fail('parameters:gpt2', '%d parameters, %d expected' % (len(q), k))
        self.ins = dict(x=(self.layer.activations[0].value, 'label')); self.gin = {}; self.y = self.layer.activations[-1]
        self.fm = transformers.GPT2LMHeadModel(self.hf()).eval()
    def param_value(self, n): return self.pt[n]
    def input_value(self, n, r): return core.adata([self.c['seed'], r], 'label', list(self.ins[n][0].shape), hi=self.p['vocab'])
    def f(self, torch, I, P):
        p = self.p; sd = {n: unconv(n, [P[x] for x in g], p['e'], p['nh']) for n, g in self.groups.items()}
        dt = next(iter(sd.values())).dtype
        m = self.fm.to(dt)
        return torch.func.functional_call(m, sd, (I['x'].T.contiguous(),), tie_weights=False).logits.permute(2, 1, 0)
    def to_torch_check(self):
        import torch, transformers
        t = transformers.GPT2LMHeadModel(self.hf()); t.lm_head.weight = torch.nn.Parameter(t.lm_head.weight.detach().clone())
        torch_init(torch, t, 1 + self.c['seed'], 1.0)
        self.layer.to_torch(t)
        for (n, a), (_, b) in zip(self.hfm.named_parameters(), t.named_parameters()):
            if a.shape != b.shape or not torch.equal(a, b): self.env.fail('to-torch:gpt2', 'parameter %s is not preserved by conversion to a model and back' % n)

@reg
class GptMlpS(GptBase):
    kind = 'gpt2mlp'; tolx = 3; mixed = True
    @staticmethod
    def gen(rng):
        p = gpt_params(rng); p['s'] = ext(rng, 5, 3); p['b'] = ext(rng, 3); p['xg'] = rng.choice([1, 1, 0])
        return mcase(rng, 'gpt2mlp', p, dt='fp32')
    def build(self):
        import torch, transformers
        from transformers.models.gpt2.modeling_gpt2 import GPT2MLP
        p = self.p; self.hfm = torch_init(torch, GPT2MLP(p['inner'][0], self.hf()), self.c['seed'], 0.5)
        x = self.tm([[p['e'], p['et']], p['s'], p['b']], p['xg'] == 1)
        self.layer, self.env.tag = self.nt.model.gpt2.GPT2MLP.from_torch(self.hfm, x, self.cfg(), self.env.tag, fp32_fast_tf32=bool(p.get('tf32')))
        q = list(self.layer.parameters); names = [n for n, _ in self.hfm.named_parameters()]
        if len(q) != len(names): self.env.fail('parameters:gpt2mlp', '%d parameters' % len(q))
        self.params = dict(zip(names, q)); self.ins = dict(x=(x.value, 'normal')); self.gin = dict(x=x); self.y = self.layer.activations[-1]
        self.fm = GPT2MLP(p['inner'][0], self.hf()).eval()
    def param_value(self, n): return dict(self.hfm.named_parameters())[n].detach().double().numpy().T
    def f(self, torch, I, P):
        sd = {n: (v.T if v.dim() == 2 else v) for n, v in P.items()}; m = self.fm.to(I['x'].dtype)
        return torch.func.functional_call(m, sd, (I['x'].permute(2, 1, 0).contiguous(),)).permute(2, 1, 0)

KINDS = dict(C17=['deep_linear', 'deep_relu', 'deep_relu', 'mlp_mixer', 'mlp_mixer', 'gpt2', 'gpt2', 'gpt2mlp'])
