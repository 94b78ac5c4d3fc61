"""C14, C15: optimizers against their published recurrences; saving and loading their state."""
import numpy as np, math, io
import core, nets, simdisk
from core import Skip
from nets import ext, small, hash_tag
NPT = dict(fp32=np.float32, fp64=np.float64)
def warm():
    import torch

def gen_opt(rng, kinds):
    k = rng.choice(kinds)
    o = dict(k=k, lr=rng.choice([1e-3, 1e-2, 0.1, 0.1, 1.0]), wd=rng.choice([0, 0, 0.01, 0.1]))
    if k == 'sgd':
        o.update(momentum=rng.choice([0, 0.9, 0.9, 0.5, 0.99]), nesterov=int(rng.random() < 0.4), damping=rng.choice([0, 0, 0.1, 0.5]))
    else:
        o.update(b1=rng.choice([0.9, 0.9, 0.5, 0.0, 0.99]), b2=rng.choice([0.999, 0.999, 0.9, 0.5]), eps=rng.choice([1e-8, 1e-8, 1e-3, 0.1]))
        if k == 'adam': o['amsgrad'] = int(rng.random() < 0.5)
        else:
            if rng.random() < 0.35: o.update(start_lr=rng.choice([0.0, 1e-3, 0.05, 0.5, None]), full=rng.choice([1, 2, 3, 5, 8, None]))
    o['dflt'] = int(rng.random() < 0.4) # arguments equal to their documented defaults are left out
    return o
DEFAULTS = dict(beta1=0.9, beta2=0.999, weight_decay=0, eps=1e-8, dtype=np.float32, momentum=0, nesterov=False, damping=0, amsgrad=False)
def gen_case(prop, rng):
    ps = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        while True:
            s = [ext(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
            if small([s], 200): break
        ps.append(s)
    kinds = ['sgd', 'adam', 'adam', 'fadam', 'fadamw'] if prop == 'C14' else ['adam', 'adam', 'fadam', 'fadamw']
    n = rng.choice([1, 2, 2, 3, 4, 6, 9, 14])
    c = dict(dt=rng.choice(['fp32', 'fp32', 'fp64']), ps=ps, opt=gen_opt(rng, kinds), n=n, grad=rng.choice(['normal', 'normal', 'sparse', 'zero', 'wide', 'tiny', 'same', 'vast']), obs=[i for i in range(n) if rng.random() < 0.2], seed=rng.getrandbits(31))
    if prop == 'C15':
        c['n'] = n = rng.choice([1, 2, 3, 4, 5])
        c['cut'] = rng.randint(1, n)        # steps before the state is saved
        c['more'] = rng.randint(1, 4)       # steps after
        c['store'] = rng.choice(['fp32', 'fp32', 'fp16', 'bf16']) if c['opt']['k'] != 'adam' else 'own'
        c['new'] = int(rng.random() < 0.4)  # loaded in a new session
        c['obs'] = []
        r = rng.random()
        if r < 0.45: c['disk'] = dict(kind=rng.choice(['open', 'write', 'write', 'short', 'close', 'flush']), at=rng.choice([0, 1, rng.randint(0, 400), rng.randint(0, 3000)]), err=rng.choice(['ENOSPC', 'EIO', 'EACCES', 'EROFS']))
        if rng.random() < 0.35: c['torn'] = rng.random()
        c['again'] = int(rng.random() < 0.3) # the resumed training is saved and loaded once more
        if rng.random() < 0.4: # the optimizer that loads was made with other hyperparameters
            c['opt2'] = dict(gen_opt(rng, [c['opt']['k']]))
            if 'amsgrad' in c['opt']: c['opt2']['amsgrad'] = c['opt']['amsgrad']
        c['oldstate'] = int(rng.random() < 0.3) # the optimizer that loads has made steps of its own before
    return c
def gen(prop, rng, tier): return dict(steps=[gen_case(prop, rng) for _ in range(2)])
def label(prop, spec): return ','.join(c['opt']['k'] for c in spec['steps'])
def shrink(spec):
    st = spec['steps']
    if len(st) > 1:
        for i in range(len(st)): yield dict(spec, steps=st[:i] + st[i+1:])
    for i, c in enumerate(st):
        def w(**k): return dict(spec, steps=st[:i] + [dict(c, **k)] + st[i+1:])
        if c['n'] > 1 and 'cut' not in c: yield w(n=c['n']-1, obs=[o for o in c['obs'] if o < c['n']-1])
        if len(c['ps']) > 1:
            for j in range(len(c['ps'])): yield w(ps=c['ps'][:j] + c['ps'][j+1:])
        for k in ('disk', 'torn', 'oldstate', 'new', 'opt2'):
            if c.get(k): yield w(**{k: None if k in ('disk', 'torn', 'opt2') else 0})
        if c.get('more', 1) > 1: yield w(more=1)

# ---- references
class Ref:
    """the published recurrence, elementwise, in the number type 't'"""
    def __init__(self, o, ps, t):
        self.o, self.t = o, t; self.p = [p.astype(t) for p in ps]; self.n = 0
        self.m = [np.zeros_like(p) for p in self.p]; self.v = [np.zeros_like(p) for p in self.p]; self.x = [np.zeros_like(p) for p in self.p]
        self.mag = [np.abs(p).astype(np.float64) for p in self.p]
    def step(self, gs):
        o, t = self.o, self.t; self.n += 1; n = self.n; lr = o['lr']
        if o.get('start_lr') is not None and o.get('full') and n < o['full'] and o['full'] > 1: lr = o['start_lr'] + (o['lr']-o['start_lr'])*(n-1)/(o['full']-1)
        for i, g in enumerate(gs):
            g = g.astype(t); p = self.p[i]; gm = np.abs(g).astype(np.float64) + o['wd']*np.abs(p)
            if o['wd'] and o['k'] != 'fadamw': g = g + t(o['wd'])*p
            if o['k'] == 'sgd':
                if o['momentum'] > 0:
                    self.m[i] = g.copy() if n == 1 else t(o['momentum'])*self.m[i] + t(1-o['damping'])*g
                    self.x[i] = gm if n == 1 else o['momentum']*self.x[i] + gm # magnitude
                    gm = gm + self.x[i]
                    g = g + t(o['momentum'])*self.m[i] if o['nesterov'] else self.m[i]
                self.p[i] = p - t(lr)*g; self.mag[i] = self.mag[i] + lr*gm
                continue
            b1, b2 = o['b1'], o['b2']
            if o['k'] == 'fadamw': p = p*t(1-lr*o['wd'])
            self.m[i] = t(b1)*self.m[i] + t(1-b1)*g
            self.v[i] = np.hypot(t(math.sqrt(b2))*self.v[i], t(math.sqrt(1-b2))*g)
            d = self.v[i]
            if o.get('amsgrad'): d = self.x[i] = np.maximum(self.x[i], self.v[i])
            den = d/t(math.sqrt(1-b2**n)) + t(o['eps'])
            self.p[i] = p - t(lr/(1-b1**n))*self.m[i]/den
            self.mag[i] = np.maximum(self.mag[i], np.abs(self.p[i]).astype(np.float64)) + lr*6*math.sqrt(1-b2**n)/math.sqrt(1-b2)/(1-b1**n)
    def state(self): return [[a.copy() for a in l] for l in (self.m, self.v, self.x)]

def lists(o):
    """lists of tensors an optimizer keeps, in order of creation; the usual names first"""
    ns = ['states', 'first_moments', 'second_moments', 'max_second_moments']
    ns = [n for n in ns if n in vars(o)] + [n for n in vars(o) if n not in ns]; r = []
    for n in ns:
        v = vars(o)[n]; v = list(v.values()) if isinstance(v, dict) else v
        if isinstance(v, (list, tuple)) and v and all(hasattr(x, 'from_array') for x in v): r.append(list(v))
    return r
def count(o):
    """number of steps an optimizer has counted, if it shows that"""
    return getattr(o, 'num_iter', None)
class Opt:
    """one optimizer over its parameters inside a session"""
    def __init__(self, env, c, ps, o=None):
        self.env, self.c = env, c; nt = env.nntile; o = o or c['opt']
        self.P = []; self.G = []
        for s, a in zip(c['ps'], ps):
            v = env.new([x for x, y in s], [y for x, y in s], c['dt']); g = env.new(v.shape, v.basetile_shape, c['dt'])
            env.put(v, a); self.P.append(nt.tensor.TensorMoments(v, g, True))
        t = NPT[c['dt']]; kw = dict(dtype=t, weight_decay=o['wd'])
        O = nt.optimizer
        if o['k'] == 'sgd': kw.update(momentum=o['momentum'], nesterov=bool(o['nesterov']), damping=o['damping'])
        else: kw.update(beta1=o['b1'], beta2=o['b2'], eps=o['eps'])
        if o['k'] == 'adam': kw['amsgrad'] = bool(o['amsgrad'])
        if o.get('dflt'): kw = {k: v for k, v in kw.items() if v != DEFAULTS[k]}
        if o['k'] == 'sgd': self.o = O.SGD(self.P, o['lr'], env.tag, **kw)
        else:
            if o['k'] == 'adam': self.o = O.Adam(self.P, o['lr'], env.tag, **kw)
            else:
                if 'start_lr' in o: kw.update(start_lr=o['start_lr'], full_lr_iter=o['full'])
                self.o = (O.FusedAdam if o['k'] == 'fadam' else O.FusedAdamW)(self.P, o['lr'], env.tag, **kw)
        env.tag = self.o.get_next_tag()
    def step(self, gs):
        for p, g in zip(self.P, gs): self.env.put(p.grad, g)
        self.o.step()
    def values(self): return [self.env.get(p.value) for p in self.P]
    def moments(self):
        return [[self.env.get(x) for x in l] for l in lists(self.o)]
    def drop(self):
        self.o.unregister()
        for p in self.P: p.unregister()

def start(c):
    return [core.adata([c['seed'], 1, i], 'normal', [x for x, y in s]).astype(NPT[c['dt']]) for i, s in enumerate(c['ps'])]
def grads(c, n, salt=0):
    k = c['grad']; kind = dict(same='normal').get(k, k)
    # the squares of vast gradients lie outside of the range of fp32
    return [(core.adata([c['seed'], 2 + salt, 0 if k == 'same' else n, i], dict(vast='normal').get(kind, kind), [x for x, y in s])*(10.0**(20 + 5*(c['seed'] % 3)) if k == 'vast' else 1)).astype(NPT[c['dt']]) for i, s in enumerate(c['ps'])]
U = dict(fp32=6e-8, fp64=1.2e-16)
def compare(env, c, sig, got, r64, r32, n):
    for i, (a, b, l, mag) in enumerate(zip(got, r64.p, r32.p, r64.mag)):
        low = np.abs(l.astype(np.float64) - b) if c['dt'] == 'fp32' else 0
        tol = U[c['dt']]*(250*mag + 1e-30) + 8*low
        core.margin('optim:%s:%s' % (c['opt']['k'], c['dt']), np.where(np.isfinite(b) & np.isfinite(l), a.astype(np.float64), 0), np.where(np.isfinite(b) & np.isfinite(l), b, 0), tol)
        bad = ~(np.abs(a.astype(np.float64) - b) <= tol) & np.isfinite(b) & np.isfinite(l) # half precision of the state may overflow
        if bad.any():
            j = tuple(int(x[0]) for x in np.nonzero(bad)) if bad.ndim else ()
            env.fail('%s:%s' % (sig, c['opt']['k']), 'parameter %d of %s after %d steps at %s: got %r, recurrence gives %r' % (i, c['opt'], n, j, float(a[j]), float(b[j])))
def exact(env, c, sig, A, B, what):
    for i, (a, b) in enumerate(zip(A, B)):
        if a.tobytes() != b.tobytes(): env.fail('%s:%s' % (sig, c['opt']['k']), '%s: parameter or state %d differs' % (what, i))

def run14(env, c):
    ps = start(c); o = Opt(env, c, ps)
    r64, r32 = Ref(c['opt'], ps, np.float64), Ref(c['opt'], ps, np.float32)
    for n in range(c['n']):
        g = grads(c, n)
        w = env.stat('blocking_waits')
        for p, a in zip(o.P, g): env.put(p.grad, a)
        w = env.stat('blocking_waits'); o.o.step()
        if env.stat('blocking_waits') != w: env.fail('async-blocks', 'step of %s waited for unfinished work' % c['opt']['k'])
        r64.step(g); r32.step(g)
        if n in c['obs']: compare(env, c, 'step', o.values(), r64, r32, n+1)
    compare(env, c, 'step', o.values(), r64, r32, c['n'])
    o.drop()

def save(env, c, o, path):
    if c['opt']['k'] == 'adam': o.o.save_state(path)
    else: o.o.save_state(path, dtype=c['store'])
def rounded(c, a):
    import torch
    if c['store'] in ('own',) : return a
    t = dict(fp32=torch.float32, fp16=torch.float16, bf16=torch.bfloat16)[c['store']]
    return torch.tensor(a).to(t).to(torch.float32).numpy().astype(a.dtype)
def run15a(env, c, disk):
    """the interrupted training: returns what the continuation needs"""
    ps = start(c); o = Opt(env, c, ps)
    for n in range(c['cut']): o.step(grads(c, n))
    f = c.get('disk')
    if f:
        disk.fail(f['kind'], f['at'], f['err']); n0 = disk.fired
        try:
            save(env, c, o, 'state0'); ok = True
        except Exception as e:
            if not isinstance(e, OSError): env.fail('save-exception:%s' % c['opt']['k'], 'a storage error surfaces as %s' % type(e).__name__)
            ok = False
        fired = disk.fired > n0; disk.fail(None, 0, None)
        if fired and ok: env.fail('lost-save-error:%s' % c['opt']['k'], 'save_state succeeded although the storage reported %s' % f['kind'])
        env.note('disk_' + f['kind'] + ('' if fired else '_not_reached'))
    else:
        save(env, c, o, 'state0'); ok = True
    if not ok: save(env, c, o, 'state0')
    at = dict(v=o.values(), m=o.moments(), n=c['cut'])
    for n in range(c['cut'], c['cut'] + c['more']): o.step(grads(c, n))
    at['end'] = o.values(); at['endm'] = o.moments()
    # the running training must not have noticed that it was saved
    r64, r32 = Ref(c['opt'], ps, np.float64), Ref(c['opt'], ps, np.float32)
    for n in range(c['cut'] + c['more']): g = grads(c, n); r64.step(g); r32.step(g)
    compare(env, c, 'saved', at['end'], r64, r32, c['cut'] + c['more'])
    o.drop()
    return at
def run15b(env, c, disk, at):
    o = Opt(env, c, at['v'], c.get('opt2'))
    if c.get('oldstate'):
        for n in range(2): o.step(grads(c, n, 7))
        for p, a in zip(o.P, at['v']): env.put(p.value, a)
    if c.get('torn') is not None:
        data = disk.files['state0']; k = int(c['torn']*len(data)); disk.files['torn'] = data[:k]
        pre = o.moments() if c.get('oldstate') else None; it = count(o.o)
        try:
            o.o.load_state('torn'); ok = True
        except Exception: ok = False
        env.note('disk_torn')
        if ok and k < len(data): env.fail('torn-load:%s' % c['opt']['k'], 'loading %d of %d bytes succeeded' % (k, len(data)))
        if not ok and count(o.o) != it: env.fail('torn-load:%s' % c['opt']['k'], 'a failed load changed the iteration number')
        if not ok and pre:
            for A, B in zip(pre, o.moments()): exact(env, c, 'torn-load', A, B, 'state after a failed load')
    o.o.load_state('state0')
    if count(o.o) not in (None, at['n'] + 1): env.fail('load:%s' % c['opt']['k'], 'iteration number %d after loading, %d when saved' % (count(o.o), at['n'] + 1))
    for A, B in zip(at['m'], o.moments()): exact(env, c, 'load', [rounded(c, a) for a in A], B, 'state after loading (%s)' % c['store'])
    exact(env, c, 'load', at['v'], o.values(), 'parameters after loading the state')
    for n in range(c['cut'], c['cut'] + c['more']): o.step(grads(c, n))
    got = o.values()
    lossless = c['store'] == 'own' or (c['store'] == 'fp32' and c['dt'] == 'fp32')
    if lossless:
        exact(env, c, 'resume', at['end'], got, 'training resumed from the saved state against the uninterrupted one after %d more steps' % c['more'])
        for A, B in zip(at['endm'], o.moments()): exact(env, c, 'resume', A, B, 'state of the resumed training')
    elif len(at['m']) > 1:
        R = []
        for t in (np.float64, np.float32):
            r = Ref(c['opt'], at['v'], t); r.n = at['n']
            r.m = [rounded(c, a).astype(t) for a in at['m'][0]]; r.v = [rounded(c, a).astype(t) for a in at['m'][1]]
            for n in range(c['cut'], c['cut'] + c['more']): r.step(grads(c, n))
            R.append(r)
        compare(env, c, 'resume', got, R[0], R[1], c['cut'] + c['more'])
    if c.get('again'):
        save(env, c, o, 'state1'); q = Opt(env, c, got, c.get('opt2')); q.o.load_state('state1')
        if count(q.o) != count(o.o): env.fail('load:%s' % c['opt']['k'], 'iteration number %d after loading a state that was resumed and saved again, %d when saved' % (count(q.o), count(o.o)))
        for A, B in zip(o.moments(), q.moments()): exact(env, c, 'load', [rounded(c, a) for a in A], B, 'state that was resumed, saved and loaded again (%s)' % c['store'])
        if c['store'] == 'own' or (c['store'] == 'fp32' and c['dt'] == 'fp32'):
            g = grads(c, c['n']); o.step(g); q.step(g); exact(env, c, 'resume', o.values(), q.values(), 'one more step after saving and loading again')
        q.drop()
    o.drop()

def ended(env):
    env.wait()
    if env.alive(): env.viol('leak', '%d data handles alive after everything was unregistered' % env.alive())
def run(prop, spec, env):
    if prop == 'C14':
        with env.sess() as s:
            s.start_runtime()
            for c in spec['steps']: run14(env, c)
            ended(env); s.stop_runtime()
        return
    for c in spec['steps']:
        disk = simdisk.Disk()
        with simdisk.mounted(disk, env.nntile.optimizer.adam, env.nntile.optimizer.adamw):
            with env.sess() as s:
                s.start_runtime()
                at = run15a(env, c, disk)
                if not c.get('new'): run15b(env, c, disk, at)
                ended(env); s.stop_runtime()
            if c.get('new'):
                with env.sess() as s:
                    s.start_runtime()
                    run15b(env, c, disk, at)
                    ended(env); s.stop_runtime()
