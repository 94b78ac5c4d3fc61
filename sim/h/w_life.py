"""C08: tensors, layers, models, losses and optimizers dropped while their work is in flight; sessions one after another."""
import numpy as np, gc
import core, ops, nets, nets2, nets3, w_prog, w_ops, w_layers, w_optim
def warm(): w_layers.warm()
KINDS = [(5, w_layers.KINDS['C11']), (3, w_layers.KINDS['C12']), (3, w_layers.KINDS['C13']), (3, w_layers.KINDS['C17'])]
HOW = ['unregister', 'unregister', 'del', 'del', 'both', 'twice', 'cycle']
def gen_session(rng, tier):
    k = rng.choice(['prog', 'prog', 'obj', 'obj', 'obj', 'mix'])
    s = dict(k=k, steps=[], ncpus=rng.choice([-1, -1, 1, 2, 3]))
    if k == 'prog': s.update(w_prog.gen('C08', rng, tier)); return s
    for _ in range(rng.choice([1, 2, 3, 4])):
        h = dict(how=rng.choice(HOW), strict=int(rng.random() < 0.3), when=rng.choice(['atonce', 'atonce', 'later', 'end', 'end', 'outlive']), run=rng.choice([0, 0, 1, 3, 10]))
        r = rng.random()
        if r < 0.2: s['steps'].append(dict(h, k='optim', c=w_optim.gen_case('C14', rng)))
        elif r < 0.4: s['steps'].append(dict(h, k='op', c=w_ops.one(rng, rng.choice(['C02', 'C04']))))
        elif r < 0.5: s['steps'].append(dict(h, k='keep', n=rng.randint(1, 3)))
        else: s['steps'].append(dict(h, k='scn', c=w_layers.one(rng, rng.choices([x for w, x in KINDS], [w for w, x in KINDS])[0])))
    return s
def gen(prop, rng, tier): return dict(sessions=[gen_session(rng, tier) for _ in range(rng.choice([1, 1, 2, 2, 3]))])
def label(prop, spec): return ','.join(x for s in spec['sessions'] for x in ([s['k']] if s['k'] == 'prog' else [c['k'] + '/' + c['how'] for c in s['steps']]))
def shrink(spec):
    S = spec['sessions']
    if len(S) > 1:
        for i in range(len(S)): yield dict(sessions=S[:i] + S[i+1:])
    for i, s in enumerate(S):
        st = s['steps']; n = len(st)
        w = lambda l: dict(sessions=S[:i] + [dict(s, steps=l)] + S[i+1:])
        if n > 3: yield w(st[:n//2]); yield w(st[n//2:])
        for j in range(n):
            if n > 1: yield w(st[:j] + st[j+1:])
        for j, c in enumerate(st):
            if c.get('k') == 'scn':
                for d in w_layers.shrink(dict(steps=[c['c']])): yield w(st[:j] + [dict(c, c=d['steps'][0])] + st[j+1:])
            if c.get('when') not in (None, 'atonce'): yield w(st[:j] + [dict(c, when='atonce')] + st[j+1:])

class Later:
    """an environment whose reads are asynchronous copies: nothing waits"""
    def __init__(self, env): self._e = env; self.made = []
    def __getattr__(self, n): return getattr(self._e, n)
    def __setattr__(self, n, v):
        if n in ('_e', 'made'): object.__setattr__(self, n, v)
        else: setattr(self._e, n, v)
    def get(self, x, observe=True):
        e = self._e
        if e.dt(x) not in ('fp32', 'fp64', 'int64'): return e.get(x)
        y = e.new(x.shape, x.basetile_shape, e.dt(x)); e.nntile.tensor.copy_async(x, y)
        self.made.append(y); return y
def known(env, o):
    r = {}
    for n, y in o.items():
        if isinstance(y, np.ndarray): r[n] = y
        else: r[n] = env.get(y); y.unregister()
    return r
class Item:
    """something with work in flight that can be dropped, and the values it must have produced"""
    def __init__(self, env, c):
        self.env, self.c = env, c; k = c['k']; later = Later(env); self.snap = {}
        if c['strict']: env.wait(); a0 = env.alive()
        if k == 'scn':
            s = self.s = w_layers.scenario(env, c['c']); s.create(); s.fill(); s.go()
            s.env = later; self.snap = s.outs(); s.env = env
        elif k == 'optim':
            cc = c['c']; ps = w_optim.start(cc); self.s = w_optim.Opt(env, cc, ps)
            self.r = [w_optim.Ref(cc['opt'], ps, t) for t in (np.float64, np.float32)]
            for n in range(cc['n']):
                g = w_optim.grads(cc, n)
                # gradients are staged in tensors of their own that go away at once
                for p, a in zip(self.s.P, g):
                    y = env.new(p.grad.shape, p.grad.basetile_shape, cc['dt']); env.put(y, a); env.nntile.tensor.copy_async(y, p.grad)
                    if n % 2: y.unregister()
                    del y
                self.s.o.step()
                for r in self.r: r.step(g)
            self.snap = {str(i): later.get(p.value) for i, p in enumerate(self.s.P)}
        elif k == 'op':
            cc = c['c']; o = self.o = ops.OPS[cc['op']]; self.A = ops.operands(cc, core.adata); self.s = {}
            for d in cc['T']:
                x = env.new(d['shape'], d['bt'], d.get('dt', cc['dt'])); self.s[d['n']] = x
                if d['mode'] != 'w': env.put(x, self.A[d['n']])
            o.prepare(cc, self.s); o.call(env, cc, self.s)
            self.snap = {d['n']: later.get(self.s[d['n']]) for d in cc['T'] if not d.get('tmp')}
        else: # tensors that nobody uses or that are only filled
            self.s = [env.new([4, 3], [2, 2]) for _ in range(c['n'])]
            for x in self.s[1:]: env.nntile.tensor.fill_async(1.5, x)
        if c['strict']:
            # handles of the objects themselves
            env.wait(); self.own = env.alive() - a0 - sum(y.grid.nelems for y in later.made)
    def unregister(self):
        k = self.c['k']
        if k in ('scn', 'optim'): self.s.drop()
        elif k == 'op':
            for x in self.s.values(): x.unregister()
        else:
            for x in self.s: x.unregister()
    def ref(self):
        """what judging needs, without the objects"""
        k = self.c['k']
        if k == 'scn':
            s = self.s
            # the reference needs descriptions only
            return s
        return None
    def drop(self):
        how = self.c['how']; env = self.env; env.run_some(self.c['run'])
        if self.c['strict']: env.wait(); a0 = env.alive()
        if how in ('unregister', 'both', 'twice'): self.unregister()
        if how == 'twice': self.unregister()
        if self.c['strict'] and how in ('unregister', 'both', 'twice'):
            env.wait(); n = self.own - (a0 - env.alive())
            if n: env.fail('leak', '%d of %d data handles of %s are alive after everything was unregistered' % (n, self.own, self.c['c'].get('L') or self.c['c'].get('op') if 'c' in self.c else 'plain tensors'))
    def judge(self):
        env, c = self.env, self.c; o = known(env, self.snap); k = c['k']; self.snap = {}
        if k == 'scn':
            s = self.s; s.check(o)
        elif k == 'optim': w_optim.compare(env, c['c'], 'dropped', [o[str(i)] for i in range(len(o))], self.r[0], self.r[1], c['c']['n'])
        elif k == 'op': w_ops.judge(env, c['c'], self.o, self.A, o)
def strip(s, env):
    """forgets every tensor and object that a scenario holds, keeps what its reference needs"""
    class Shape: # stands for a dropped tensor
        def __init__(self, x): self.shape, self.basetile_shape = list(x.shape), list(x.basetile_shape)
    class Mom:
        def __init__(self, m): self.value, self.grad, self.grad_required = Shape(m.value), None if m.grad is None else Shape(m.grad), m.grad_required
    keep = {}
    for n, v in list(vars(s).items()):
        t = type(v).__name__
        if t == 'TensorMoments': keep[n] = Mom(v)
        elif t.startswith('Tensor_'): keep[n] = Shape(v)
        elif n in ('params', 'gin'): keep[n] = {a: Mom(m) for a, m in v.items()}
        elif n == 'ins': keep[n] = {a: (Shape(x), kind) for a, (x, kind) in v.items()}
        elif n in ('stage', 'gstage'): keep[n] = {}
        elif n in ('layer', 'loss', 'model') or type(v).__module__.startswith('nntile'): keep[n] = None
        else: continue
        setattr(s, n, keep[n])
def forget(it):
    k, how = it.c['k'], it.c['how']
    if how == 'cycle': it.env.note('left_to_the_garbage_collector')
    if k == 'scn':
        if how == 'cycle':
            class Node: pass
            a, b = Node(), Node(); a.b, b.a = b, a; a.x = [it.s.layer if hasattr(it.s, 'layer') else None, dict(vars(it.s))]
        strip(it.s, it.env)
    elif k == 'optim':
        if how == 'cycle': l = [it.s]; l.append(l)
        it.s = None
    else:
        if how == 'cycle': l = [it.s]; l.append(l)
        it.s = None
def run_session(env, c, i):
    with env.sess(None, [], None if c['ncpus'] < 0 else c['ncpus']) as s:
        s.start_runtime(); left = []
        if c['k'] == 'prog':
            P = w_prog.Prog(env, c)
            for st in c['steps']: P.step(st)
            P.finish()
        else:
            live, done = [], []
            def away(it): it.drop(); forget(it); done.append(it)
            for q in c['steps']:
                it = Item(env, q)
                if q['when'] == 'atonce': away(it)
                else: live.append(it)
                if q['when'] == 'later' or q['run'] == 3:
                    while live and live[0].c['when'] == 'later' and len(live) > 1: away(live.pop(0))
            left = [it for it in live if it.c['when'] == 'outlive']
            for it in live:
                if it not in left: away(it)
            for it in done + left: it.judge()
            it = None; done.clear(); live.clear()
        gc.collect()
        env.wait()
        if env.alive() and not left: env.viol('leak', '%d data handles alive after everything was dropped' % env.alive())
        s.stop_runtime()
        # what outlives the runtime can be dropped, too
        for it in left:
            if it.c['how'] in ('unregister', 'both', 'twice'): it.unregister()
            if it.c['how'] == 'twice': it.unregister()
            forget(it); env.note('dropped_after_shutdown')
        left = it = None; gc.collect()
def run(prop, spec, env):
    for i, c in enumerate(spec['sessions']):
        run_session(env, c, i)
        env.note('sessions')
