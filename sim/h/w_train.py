"""C16: training through the pipeline against plain sequential training on whole arrays."""
import numpy as np, math
import core, nets, nets2, nets3, w_optim
from nets import S, hash_tag
def warm():
    import torch
    x = torch.ones(2, requires_grad=True)
    from transformers.models.gpt2 import modeling_gpt2
MODELS = ['deep_linear', 'deep_relu', 'deep_relu', 'deep_relu', 'mlp_mixer', 'gpt2']

def gen_case(rng):
    k = rng.choice(MODELS); m = S[k].gen(rng); p = m['p']
    m['rounds'] = [dict(x=1, g=1, nf=1, nb=1)]
    # where the class dimension comes first and is one tile
    ce = k in ('mlp_mixer', 'gpt2') or (k == 'deep_relu' and p['side'] == 'R')
    loss = rng.choice(['xentropy', 'xentropy', 'frob']) if ce else 'frob'
    o = w_optim.gen_opt(rng, ['sgd', 'sgd', 'adam', 'fadam', 'fadamw'])
    o['lr'] = rng.choice([1e-3, 1e-2, 0.05]) if o['k'] == 'sgd' else rng.choice([1e-3, 1e-2, 0.1])
    if rng.random() < 0.05: o = dict(o, k='empty')
    elif o['k'] != 'sgd': o['eps'] = rng.choice([1e-3, 1e-2, 0.1])
    b = [rng.choice([1, 1, 2, 3]) for _ in range(rng.choice([1, 2, 2, 3]))]
    if k in ('gpt2', 'mlp_mixer'): b = b[:2]
    return dict(L=k, m=m, loss=loss, scale=rng.choice([1.0, 1.0, 0.5, 0.37]), redux=int(rng.random() < 0.3), opt=o, batches=b, epochs=rng.choice([1, 1, 2, 3]) if k != 'gpt2' else rng.choice([1, 2]), again=int(rng.random() < 0.2), dt=m['dt'], seed=m['seed'], xs=rng.choice([1.0, 1.0, 0.2]))
def gen(prop, rng, tier): return dict(steps=[gen_case(rng)])
def label(prop, spec): return ','.join('%s+%s+%s' % (c['L'], c['loss'], c['opt']['k']) for c in spec['steps'])
def shrink(spec):
    c = spec['steps'][0]
    def w(**k): return dict(spec, steps=[dict(c, **k)])
    if c['again']: yield w(again=0)
    if c['epochs'] > 1: yield w(epochs=c['epochs']-1)
    if len(c['batches']) > 1:
        for i in range(len(c['batches'])): yield w(batches=c['batches'][:i] + c['batches'][i+1:])
    for i, n in enumerate(c['batches']):
        if n > 1: yield w(batches=c['batches'][:i] + [n-1] + c['batches'][i+1:])

class Train:
    def __init__(self, env, c):
        self.env, self.c = env, c
        m = self.m = S[c['L']](env, c['m']); nt = env.nntile
        m.build()
        self.model = m.layer
        if c['loss'] == 'frob': self.loss, env.tag = nt.loss.Frob.generate_simple(m.y, env.tag)
        else: self.loss, env.tag = nt.loss.CrossEntropy.generate_simple(m.y, env.tag, redux=bool(c['redux']), scale=c['scale'])
        # parameters
        self.pv = {}
        for n, q in m.params.items():
            v = m.param_value(n)
            if v is None:
                v = m.data('par/' + n, list(q.value.shape), 'normal', 0.5); env.put(q.value, v)
            self.pv[n] = np.asarray(v)
            if q.grad is not None: env.put(q.grad, m.data('pg/' + n, list(q.value.shape), 'eighth'))
        # batches
        (xn, (xt, kind)), = m.ins.items(); self.xn, self.kind = xn, kind
        self.X, self.Y, self.xv, self.yv = [], [], {}, {}
        for i, n in enumerate(c['batches']):
            self.X.append([]); self.Y.append([])
            for j in range(n):
                v = self.xv[i, j] = m.input_value(xn, 100*i + j)*(1 if kind == 'label' else c['xs'])
                if kind != 'label': v = self.xv[i, j] = v.astype(w_optim.NPT[c['dt']]).astype(np.float64)
                t = env.new(xt.shape, xt.basetile_shape, env.dt(xt)); env.put(t, v); self.X[-1].append(t)
                ly = self.loss.y; sh = list(ly.shape)
                v = core.adata([c['seed'], 5, i, j], 'label', sh, hi=m.y.value.shape[0]) if c['loss'] == 'xentropy' else m.data('t/%d/%d' % (i, j), sh)
                self.yv[i, j] = v
                t = env.new(ly.shape, ly.basetile_shape, env.dt(ly)); env.put(t, v); self.Y[-1].append(t)
        # optimizer
        o = c['opt']; O = nt.optimizer; kw = dict(dtype=w_optim.NPT[c['dt']], weight_decay=o['wd']); P = self.model.get_parameters()
        if o['k'] == 'empty': self.o = O.Empty(P, env.tag)
        elif o['k'] == 'sgd': self.o = O.SGD(P, o['lr'], env.tag, momentum=o['momentum'], nesterov=bool(o['nesterov']), damping=o['damping'], **kw)
        else:
            kw.update(beta1=o['b1'], beta2=o['b2'], eps=o['eps'])
            if o['k'] == 'adam': self.o = O.Adam(P, o['lr'], env.tag, amsgrad=bool(o['amsgrad']), **kw)
            else:
                if 'start_lr' in o: kw.update(start_lr=o['start_lr'], full_lr_iter=o['full'])
                self.o = (O.FusedAdam if o['k'] == 'fadam' else O.FusedAdamW)(P, o['lr'], env.tag, **kw)
        env.tag = self.o.get_next_tag()
        self.names = list(m.params)
        from nntile.pipeline import Pipeline
        self.pipe = Pipeline(self.X, self.Y, self.model, self.o, self.loss, c['epochs'])
    def go(self):
        for i in range(1 + self.c['again']): self.pipe.train_async()
    def reference(self, lowp=False, jitter=0):
        torch = nets.th(); c, m = self.c, self.m; dt = torch.float32 if lowp else torch.float64; nd = np.float32 if lowp else np.float64
        jit = (lambda v: m.jit(v, jitter))
        R = w_optim.Ref(c['opt'], [jit(self.pv[n]) for n in self.names], nd); losses = []
        xs = {k: v if self.kind == 'label' else jit(v) for k, v in self.xv.items()}
        ys = {k: v if c['loss'] == 'xentropy' else jit(v) for k, v in self.yv.items()}
        jr = np.random.default_rng(jitter)
        for e in range(c['epochs']*(1 + c['again'])):
            for i, nb in enumerate(c['batches']):
                G = None; tot = 0.0
                P = {n: torch.tensor(np.ascontiguousarray(v), dtype=dt, requires_grad=True) for n, v in zip(self.names, R.p)}
                for j in range(nb):
                    x = torch.tensor(np.ascontiguousarray(xs[i, j]), dtype=None if self.kind == 'label' else dt)
                    y = m.f(torch, {self.xn: x}, P); t = torch.tensor(np.ascontiguousarray(ys[i, j]), dtype=None if c['loss'] == 'xentropy' else dt)
                    if c['loss'] == 'frob': l = 0.5*((y - t)**2).sum()
                    else: l = c['scale']*(torch.logsumexp(y, 0) - torch.gather(y, 0, t[None])[0]).sum()
                    gs = torch.autograd.grad(l, list(P.values()), allow_unused=True)
                    gs = [np.zeros(p.shape, nd) if g is None else g.numpy().astype(nd) for g, p in zip(gs, P.values())]
                    if jitter: # errors of the gradients: relative to their largest, as rounding makes them
                        big = max(np.abs(g).max(initial=0) for g in gs); gs = [g + 1e-7*big*jr.uniform(-1, 1, g.shape) for g in gs]
                    G = gs if G is None else [a + b for a, b in zip(G, gs)]
                    tot = float(l) if c['loss'] == 'frob' else tot + float(l)
                if c['opt']['k'] != 'empty': R.step(G)
                losses.append(tot)
        return R.p, np.array(losses), R.mag
    def check(self):
        env, c, m = self.env, self.c, self.m
        with np.errstate(all='ignore'):
            p, l, mag = self.reference(); L = [self.reference(True), self.reference(jitter=1), self.reference(jitter=2)]
        if not all(np.isfinite(v).all() for v in p) or max(np.abs(v).max(initial=0) for v in p) > 1e4: env.note('diverged'); return
        u, f = nets.UNIT[c['dt']], 1.0 if c['dt'] == 'fp32' else 2.0**-27
        def tol(ref, alts, mg): return 200*u*mg + 150*f*max(np.abs(a - ref).max(initial=0) for a in alts)
        big = max(np.abs(v).max(initial=0) for v in p)
        got = np.array(self.pipe.loss_hist, dtype=np.float64)
        if got.shape != l.shape: env.fail('losses', 'training of %s reported %d losses for %d batches' % (c['L'], got.size, l.size))
        t = tol(l, [a[1] for a in L], np.abs(l).max() + 1e-6)
        if t > 1e-2*(np.abs(l).max() + 1e-3): env.note('loosely_compared')
        core.margin('train:losses:%s' % c['L'], got, l, t)
        bad = ~(np.abs(got - l) <= t)
        if bad.any():
            i = int(np.nonzero(bad)[0][0]); env.fail('losses', 'loss of batch %d of %s is %r, sequential training gives %r (tolerance %.1e)' % (i, c['L'], got[i], l[i], t))
        for i, n in enumerate(self.names):
            v = env.get(m.params[n].value).astype(np.float64); r = p[i].reshape(v.shape)
            t = tol(p[i], [a[0][i] for a in L], big)
            core.margin('train:par:%s' % c['L'], v, r, t)
            bad = ~(np.abs(v - r) <= t)
            if bad.any():
                j = tuple(int(x[0]) for x in np.nonzero(bad)) if v.ndim else ()
                env.fail('parameters', 'parameter %s of %s after training at %s: got %r, sequential training gives %r (tolerance %.1e)' % (n, c['L'], j, float(v[j]), float(r[j]), t))
        for A, V, what in ((self.X, self.xv, 'input'), (self.Y, self.yv, 'target')):
            for i, row in enumerate(A):
                for j, t in enumerate(row):
                    g = env.get(t)
                    if not np.array_equal(g, np.asarray(V[i, j]).astype(g.dtype)): env.fail('batch-changed', '%s of batch %d, micro-batch %d changed by training' % (what, i, j))
    def drop(self):
        self.model.unregister(); self.loss.unregister(); self.o.unregister()
        for row in self.X + self.Y:
            for t in row: t.unregister()
        for q in self.m.gin.values(): q.unregister()
        for t, k in self.m.ins.values(): t.unregister()
def run(prop, spec, env):
    with env.sess() as s:
        s.start_runtime()
        for c in spec['steps']:
            t = Train(env, c); t.go(); t.check(); t.drop(); del t
        env.wait()
        if env.alive(): env.viol('leak', '%d data handles alive after everything was unregistered' % env.alive())
        s.stop_runtime()
