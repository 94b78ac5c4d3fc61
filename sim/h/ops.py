"""Tensor operations: admissible operands, calls and whole-array definitions.

A case is JSON: {'op','dt','p':{scalars},'T':[{'n','shape','bt','kind','seed','mode',...}]}.
mode: r (read only), rw (read and written), w (written; old content must not
matter and is left undefined in the run).
"""
import numpy as np, math
from scipy.special import erf
OPS = {}
TOL = dict(fp32=2e-5, fp64=2e-12)

def reg(c):
    OPS[c.name] = c()
    return c

class D(tuple):
    """(extent, tile); one object stands for one index of the operation"""
TIES = False
EXT = [1, 1, 2, 2, 3, 3, 4, 5, 5, 6, 7, 8, 9, 11, 13]
SAME = None; tries = 0
def dim(rng, big=False):
    global tries
    tries += 1
    if SAME and tries < 200: return D(SAME) # given up when such extents are too large
    n = rng.choice(EXT) if not (big and rng.random() < 0.2) else rng.choice([16, 17, 23, 32, 33, 40, 64, 70])
    r = rng.random()
    if r < 0.22: t = n
    elif r > 0.975: t = n + rng.choice([1, 3]) # a base tile larger than the array
    elif r < 0.37: t = 1 if n <= 16 else max(1, n//3)
    else: t = rng.randint(1, n) if n <= 16 else rng.randint(max(1, n//5), n)
    return D((n, t))
WIDE = False # also draw 0, 5 and 6 dimensions, very long ones and very many tiles
HUGE = False # tiles longer than the largest grid of CUDA blocks
def longdim(rng):
    if HUGE and rng.random() < 0.5: n = rng.choice([65535, 65536, 65537, 66000, 70001, 131073]); return D((n, n if rng.random() < 0.7 else rng.randint(n//2, n)))
    n = rng.choice([127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1025, 4097] + ([65535, 65537, 66000, 70001] if rng.random() < 0.2 else []))
    r = rng.random()
    if r < 0.3: t = n
    elif r < 0.5 and n < 600: t = rng.choice([1, 1, 2, 3])
    else: t = rng.choice([n//2+1, max(1, n//3), max(1, n//7), n-1, rng.randint(max(1, n//20), n)])
    return D((n, t))
def wide(rng, lo, hi):
    r = rng.random() if not HUGE else 1
    if r < 0.25 and lo is None: return []
    lo = lo or 1
    if r < 0.6:
        k = rng.randint(5, 6); ds = []
        for _ in range(k):
            n = rng.choice([1, 2, 2, 3]); ds.append(D((n, rng.randint(1, n))))
        return ds if hi >= 4 else None
    k = max(lo, rng.randint(1, 3)); ds = [longdim(rng)]
    for _ in range(k-1):
        n = rng.choice([1, 1, 2, 2, 3]) if ds[0][0] < 5000 else rng.choice([1, 1, 2]); ds.append(D((n, rng.randint(1, n))))
    rng.shuffle(ds)
    return ds
def dims(rng, lo=None, hi=4, big=True, maxel=3000, maxt=40):
    if WIDE and rng.random() < (0.7 if HUGE else 0.06):
        ds = wide(rng, lo, hi)
        if ds is not None and (maxel >= 1000 or np.prod([d[0] for d in ds], dtype=int) <= 10*maxel): return ds
    if not lo and rng.random() < 0.02: return [] # a scalar
    lo = lo or 1
    while True:
        k = rng.choice([d for d in range(lo, hi+1)] + [2, 3][:max(0, min(2, hi-1))] if hi >= 3 and lo <= 2 else list(range(lo, hi+1)))
        ds = [dim(rng, big) for _ in range(k)]
        el = 1; nt = 1
        for n, t in ds: el *= n; nt *= -(-n//t)
        if el <= maxel and nt <= maxt: return ds
def T(n, ds, kind, rng, mode='r', **kw):
    d = dict(n=n, shape=[a for a, b in ds], bt=[b for a, b in ds], kind=kind, seed=rng.getrandbits(32), mode=mode)
    d.update(kw)
    if TIES: d['tie'] = [id(x) if isinstance(x, D) else 0 for x in ds]; KEEP.extend(ds)
    return d
KEEP = []
def scal(rng, zero=True):
    c = [1.0, 1.0, -1.0, 2.0, 0.5, -0.75, 0.3] + ([0.0, 0.0] if zero else [])
    return rng.choice(c) if rng.random() < 0.8 else round(rng.uniform(-3, 3), 3)
def kind(rng):
    return rng.choice(['normal', 'normal', 'normal', 'eighth', 'eighth', 'int', 'sparse', 'zero', 'wide'])
def ekind(rng): return 'huge' if rng.random() < 0.08 else kind(rng)
def fdt(rng):
    return rng.choice(['fp32', 'fp32', 'fp64'])
def gelu(x): return 0.5*x*(1+erf(x/math.sqrt(2)))
def dgelu(x): return 0.5*(1+erf(x/math.sqrt(2))) + x*np.exp(-0.5*x*x)/math.sqrt(2*math.pi)
_c, _b = math.sqrt(2/math.pi), 0.044715
def gelutanh(x): return 0.5*x*(1+np.tanh(_c*(x+_b*x**3)))
def dgelutanh(x):
    big = np.abs(x) > 100; s = x > 0; x = np.where(big, 0, x) # beyond any exponential
    t = np.tanh(_c*(x+_b*x**3))
    return np.where(big, s*1.0, 0.5*(1+t) + 0.5*x*(1-t*t)*_c*(1+3*_b*x*x))
def ax(ds, axis): return ds[:axis] + ds[axis+1:]
def bc(a, axis): return np.expand_dims(a, axis)
def fib(f, nd, axis, batch):
    """fiber (extent, batch...) broadcast to nd dimensions"""
    sh = [1]*nd
    sh[axis] = f.shape[0]
    for i in range(batch): sh[nd-batch+i] = f.shape[1+i]
    return f.reshape(sh, order='F') if f.ndim else f

class Op:
    group = 'map'   # map | reduce | move
    tol = 1.0
    redux = False
    core = None     # name in nntile_core.tensor (blocking form: core_<dt>)
    inputs = ()
    redux_dst = None  # (operand, kind of reduction) for calls with redux=1
    def prepare(self, c, t):
        if c['p'].get('redux') and self.redux_dst:
            getattr(t[self.redux_dst[0]], 'set_reduction_' + self.redux_dst[1])()
    def scale(self, A, p):
        return None
    def args(self, t, p): raise NotImplementedError
    def call(self, env, c, t):
        f = getattr(env.nntile.tensor, self.name + '_async')
        f(*self.args(t, c['p']))
    def call_blocking(self, env, c, t):
        f = getattr(env.nntile.nntile_core.tensor, self.name + '_' + c['dt'])
        f(*self.args(t, c['p']))

def unary(nm, fn, knd=None, tl=1.0):
    @reg
    class U(Op):
        name = nm; tol = tl
        def gen(self, rng):
            return dict(op=nm, dt=fdt(rng), p={}, T=[T('x', dims(rng), knd or ekind(rng), rng, 'rw')])
        def args(self, t, p): return (t['x'],)
        def ref(self, A, p): return {'x': fn(A['x'])}
        def scale(self, A, p): return max(1e-3, np.abs(A['x']).max(initial=0)) if nm != 'drelu' else None
def norm(x, axis=None):
    m = np.abs(x).max(axis, keepdims=True, initial=0); m = np.where(m == 0, 1.0, m)
    return np.sqrt(((x/m)**2).sum(axis, keepdims=True))*m if axis is None else (np.sqrt(((x/m)**2).sum(axis, keepdims=True))*m).squeeze(axis)
def heavy(a): return np.maximum(a, 0)
unary('relu', heavy)
unary('drelu', lambda a: (a > 0)*1.0)
unary('gelu', gelu, tl=2)
unary('dgelu', dgelu, tl=2)
unary('gelutanh_inplace', gelutanh, tl=2)
unary('dgelutanh', dgelutanh, tl=2)
unary('sqrt_inplace', np.sqrt, 'positive')
unary('clear', np.zeros_like)

def binary_w(nm, fn, knd=None):
    @reg
    class B(Op):
        name = nm; tol = 2
        def gen(self, rng):
            ds = dims(rng)
            return dict(op=nm, dt=fdt(rng), p={}, T=[T('x', ds, knd or ekind(rng), rng), T('y', ds, 'normal', rng, 'w')])
        def args(self, t, p): return (t['x'], t['y'])
        def ref(self, A, p): return {'y': fn(A['x'])}
        def scale(self, A, p): return max(1e-3, np.abs(A['x']).max(initial=0))
binary_w('relu_forward', heavy)
binary_w('gelutanh', gelutanh)
binary_w('sqrt', np.sqrt, 'positive')

def backw(nm, d):
    @reg
    class K(Op):
        name = nm; tol = 3
        def gen(self, rng):
            ds = dims(rng)
            return dict(op=nm, dt=fdt(rng), p={}, T=[T('x', ds, rng.choice(['normal', 'eighth', 'int', 'sparse', 'wide', 'huge']), rng), T('dy', ds, kind(rng), rng), T('dx', ds, kind(rng), rng, 'rw')])
        def args(self, t, p): return (t['x'], t['dy'], t['dx'])
        def ref(self, A, p): return {'dx': A['dx'] + A['dy']*d(A['x'])}
        def scale(self, A, p): return np.abs(A['dx']).max(initial=0) + np.abs(A['dy']).max(initial=0)
backw('relu_backward', lambda a: (a > 0)*1.0)
backw('gelu_backward', dgelu)
backw('gelutanh_backward', dgelutanh)

@reg
class Fill(Op):
    name = 'fill'
    def gen(self, rng): return dict(op='fill', dt=fdt(rng), p=dict(val=scal(rng)), T=[T('x', dims(rng), 'normal', rng, 'w')])
    def args(self, t, p): return (p['val'], t['x'])
    def ref(self, A, p): return {'x': np.full_like(A['x'], p['val'])}
@reg
class Pow(Op):
    name = 'pow'; tol = 3
    def gen(self, rng):
        e = rng.choice([0.5, 1.0, 2.0, -1.0, 0.0, 3.0, -0.5, 1.7])
        return dict(op='pow', dt=fdt(rng), p=dict(alpha=scal(rng), exp=e), T=[T('x', dims(rng), rng.choice(['normal', 'eighth', 'int', 'sparse']) if e in (0, 1, 2, 3) else 'positive', rng, 'rw')])
    def args(self, t, p): return (p['alpha'], p['exp'], t['x'])
    def ref(self, A, p): return {'x': p['alpha']*A['x']**p['exp']}
@reg
class AddScalar(Op):
    name = 'add_scalar'
    def gen(self, rng): return dict(op='add_scalar', dt=fdt(rng), p=dict(alpha=scal(rng), beta=scal(rng)), T=[T('x', dims(rng), kind(rng), rng, 'rw')])
    def args(self, t, p): return (p['alpha'], p['beta'], t['x'])
    def ref(self, A, p): return {'x': p['alpha'] + p['beta']*A['x']}
    def scale(self, A, p): return abs(p['alpha']) + np.abs(A['x']).max(initial=0)
@reg
class ScalInplace(Op):
    name = 'scal_inplace'
    def gen(self, rng): return dict(op='scal_inplace', dt=fdt(rng), p=dict(alpha=scal(rng)), T=[T('x', dims(rng), kind(rng), rng, 'rw')])
    def args(self, t, p): return (p['alpha'], t['x'])
    def ref(self, A, p): return {'x': p['alpha']*A['x']}
@reg
class Scal(Op):
    name = 'scal'
    def gen(self, rng):
        ds = dims(rng)
        return dict(op='scal', dt=fdt(rng), p=dict(alpha=scal(rng)), T=[T('x', ds, kind(rng), rng), T('y', ds, 'normal', rng, 'w')])
    def args(self, t, p): return (p['alpha'], t['x'], t['y'])
    def ref(self, A, p): return {'y': p['alpha']*A['x']}
@reg
class Prod(Op):
    name = 'prod'
    def gen(self, rng):
        ds = dims(rng)
        return dict(op='prod', dt=fdt(rng), p={}, T=[T('x', ds, kind(rng), rng), T('y', ds, kind(rng), rng, 'rw')])
    def args(self, t, p): return (t['x'], t['y'])
    def ref(self, A, p): return {'y': A['x']*A['y']}
@reg
class Add(Op):
    name = 'add'
    def gen(self, rng):
        ds = dims(rng); b = scal(rng)
        return dict(op='add', dt=fdt(rng), p=dict(alpha=scal(rng), beta=b), T=[T('x', ds, kind(rng), rng), T('y', ds, kind(rng), rng, 'w' if b == 0 else 'rw')])
    def args(self, t, p): return (p['alpha'], t['x'], p['beta'], t['y'])
    def ref(self, A, p): return {'y': p['alpha']*A['x'] + p['beta']*A['y']}
    def scale(self, A, p): return np.abs(A['x']).max(initial=0) + np.abs(A['y']).max(initial=0)
@reg
class Hypot(Op):
    name = 'hypot'; tol = 2
    def gen(self, rng):
        ds = dims(rng); b = scal(rng)
        return dict(op='hypot', dt=fdt(rng), p=dict(alpha=scal(rng), beta=b), T=[T('x', ds, ekind(rng), rng), T('y', ds, ekind(rng), rng, 'w' if b == 0 else 'rw')])
    def args(self, t, p): return (p['alpha'], t['x'], p['beta'], t['y'])
    def ref(self, A, p): return {'y': np.hypot(p['alpha']*A['x'], p['beta']*A['y'])}
@reg
class Axpy(Op):
    name = 'axpy'
    def gen(self, rng):
        ds = dims(rng)
        c = dict(op='axpy', dt=fdt(rng), p=dict(alpha=scal(rng)), T=[T('x', ds, kind(rng), rng), T('y', ds, kind(rng), rng, 'rw')])
        if rng.random() < 0.4:
            c['p']['talpha'] = 1
            c['T'].append(T('a', [], 'normal', rng))
        return c
    def args(self, t, p): return (t['a'] if p.get('talpha') else p['alpha'], t['x'], t['y'])
    def call_blocking(self, env, c, t):
        f = getattr(env.nntile.nntile_core.tensor, ('axpy_' if c['p'].get('talpha') else 'axpy_') + c['dt'])
        f(*self.args(t, c['p']))
    def ref(self, A, p):
        al = float(A['a'].reshape(-1)[0]) if p.get('talpha') else p['alpha']
        return {'y': A['y'] + al*A['x']}
    def scale(self, A, p): return 3*np.abs(A['x']).max(initial=0) + np.abs(A['y']).max(initial=0)
@reg
class Maximum(Op):
    name = 'maximum'
    def gen(self, rng):
        ds = dims(rng)
        return dict(op='maximum', dt=fdt(rng), p={}, T=[T('x', ds, kind(rng), rng), T('y', ds, kind(rng), rng, 'rw')])
    def args(self, t, p): return (t['x'], t['y'])
    def ref(self, A, p): return {'y': np.maximum(A['x'], A['y'])}
@reg
class Addcdiv(Op):
    name = 'addcdiv'; tol = 2
    def gen(self, rng):
        ds = dims(rng)
        return dict(op='addcdiv', dt=fdt(rng), p=dict(alpha=scal(rng), eps=rng.choice([0.0, 1e-3, 0.5])), T=[T('n', ds, kind(rng), rng), T('d', ds, 'positive', rng), T('s', ds, kind(rng), rng, 'rw')])
    def args(self, t, p): return (p['alpha'], p['eps'], t['n'], t['d'], t['s'])
    def ref(self, A, p): return {'s': A['s'] + p['alpha']*A['n']/(A['d']+p['eps'])}
    def scale(self, A, p): return np.abs(A['s']).max(initial=0) + 4*np.abs(A['n']).max(initial=0)
@reg
class HSI(Op):
    name = 'hypot_scalar_inverse'; tol = 3
    def gen(self, rng): return dict(op=self.name, dt=fdt(rng), p=dict(eps=rng.choice([1e-3, 0.1, 1.0, 2.5]), alpha=scal(rng, False)), T=[T('x', dims(rng), rng.choice(['normal', 'eighth', 'sparse']), rng, 'rw')])
    def args(self, t, p): return (p['eps'], p['alpha'], t['x'])
    def ref(self, A, p): return {'x': 1/np.hypot(p['alpha']*A['x'], p['eps'])}

# ---- broadcast along an axis
def axis_of(rng, ds): return rng.randrange(len(ds))
@reg
class AddSlice(Op):
    name = 'add_slice'
    def gen(self, rng):
        ds = dims(rng, 2 if rng.random() < 0.9 else 1); a = axis_of(rng, ds); b = scal(rng)
        return dict(op=self.name, dt=fdt(rng), p=dict(alpha=scal(rng), beta=b, axis=a), T=[T('s', ax(ds, a), kind(rng), rng), T('x', ds, kind(rng), rng, 'w' if b == 0 else 'rw')])
    def args(self, t, p): return (p['alpha'], t['s'], p['beta'], t['x'], p['axis'])
    def ref(self, A, p): return {'x': p['beta']*A['x'] + p['alpha']*bc(A['s'], p['axis'])}
    def scale(self, A, p): return 3*(np.abs(A['x']).max(initial=0) + np.abs(A['s']).max(initial=0))
@reg
class AddSlice3(Op):
    name = 'add_slice3'
    def gen(self, rng):
        ds = dims(rng, 2 if rng.random() < 0.9 else 1); a = axis_of(rng, ds)
        return dict(op=self.name, dt=fdt(rng), p=dict(alpha=scal(rng), beta=scal(rng), axis=a), T=[T('s', ax(ds, a), kind(rng), rng), T('x', ds, kind(rng), rng), T('y', ds, 'normal', rng, 'w')])
    def args(self, t, p): return (p['alpha'], t['s'], p['beta'], t['x'], t['y'], p['axis'])
    def ref(self, A, p): return {'y': p['beta']*A['x'] + p['alpha']*bc(A['s'], p['axis'])}
    def scale(self, A, p): return 3*(np.abs(A['x']).max(initial=0) + np.abs(A['s']).max(initial=0))
@reg
class ProdSlice(Op):
    name = 'prod_slice'
    def gen(self, rng):
        ds = dims(rng, 2 if rng.random() < 0.9 else 1); a = axis_of(rng, ds)
        return dict(op=self.name, dt=fdt(rng), p=dict(alpha=scal(rng), axis=a), T=[T('s', ax(ds, a), kind(rng), rng), T('x', ds, kind(rng), rng, 'rw')])
    def args(self, t, p): return (t['s'], p['alpha'], t['x'], p['axis'])
    def ref(self, A, p): return {'x': p['alpha']*A['x']*bc(A['s'], p['axis'])}
def fiber_geom(rng, batch=True):
    ds = dims(rng, 1)
    bd = rng.randint(0, len(ds)-1) if batch and rng.random() < 0.5 else 0
    a = rng.randrange(len(ds)-bd)
    return ds, a, bd, [ds[a]] + ds[len(ds)-bd:]
@reg
class AddFiber(Op):
    name = 'add_fiber'
    def gen(self, rng):
        ds, a, bd, fs = fiber_geom(rng); b = scal(rng)
        return dict(op=self.name, dt=fdt(rng), p=dict(alpha=scal(rng), beta=b, axis=a, batch=bd), T=[T('f', fs, kind(rng), rng), T('x', ds, kind(rng), rng, 'w' if b == 0 else 'rw')])
    def args(self, t, p): return (p['alpha'], t['f'], p['beta'], t['x'], p['axis'], p['batch'])
    def ref(self, A, p): return {'x': p['beta']*A['x'] + p['alpha']*fib(A['f'], A['x'].ndim, p['axis'], p['batch'])}
    def scale(self, A, p): return 3*(np.abs(A['x']).max(initial=0) + np.abs(A['f']).max(initial=0))
@reg
class ProdFiber(Op):
    name = 'prod_fiber'
    def gen(self, rng):
        ds, a, bd, fs = fiber_geom(rng, False)
        return dict(op=self.name, dt=fdt(rng), p=dict(alpha=scal(rng), axis=a), T=[T('f', fs, kind(rng), rng), T('x', ds, kind(rng), rng, 'rw')])
    def args(self, t, p): return (t['f'], p['alpha'], t['x'], p['axis'])
    def ref(self, A, p): return {'x': p['alpha']*A['x']*fib(A['f'], A['x'].ndim, p['axis'], 0)}
@reg
class ProdFiber3(Op):
    name = 'prod_fiber3'
    def gen(self, rng):
        ds, a, bd, fs = fiber_geom(rng, False)
        return dict(op=self.name, dt=fdt(rng), p=dict(alpha=scal(rng), axis=a), T=[T('f', fs, kind(rng), rng), T('x', ds, kind(rng), rng), T('y', ds, 'normal', rng, 'w')])
    def args(self, t, p): return (t['f'], p['alpha'], t['x'], t['y'], p['axis'])
    def ref(self, A, p): return {'y': p['alpha']*A['x']*fib(A['f'], A['x'].ndim, p['axis'], 0)}
@reg
class MaskScalar(Op):
    name = 'mask_scalar'
    def gen(self, rng):
        ds = dims(rng, 2); bd = rng.randint(1, len(ds)-1) if rng.random() < 0.5 else 1
        val = rng.choice([0.0, 1.5, -2.0, float('-inf')])
        return dict(op=self.name, dt=fdt(rng), p=dict(val='-inf' if val == float('-inf') else val, batch=bd), T=[T('m', ds[:len(ds)-bd], 'bool', rng, dt='bool'), T('x', ds, kind(rng), rng, 'rw')])
    def args(self, t, p): return (t['m'], float(p['val']), t['x'], p['batch'])
    def ref(self, A, p):
        m = A['m'] != 0
        m = m.reshape(m.shape + (1,)*p['batch'])
        return {'x': np.where(m, A['x'], float(p['val']))}
@reg
class Embedding(Op):
    name = 'embedding'
    def gen(self, rng):
        while True:
            ds = dims(rng, 1, 3, maxel=1000 if HUGE else 200); a = rng.randint(0, len(ds))
            vt = rng.choice([1, 2, 3, 4] if rng.random() < 0.85 else [15, 16, 17, 31, 33, 65, 257]); mult = rng.choice([1, 1, 2, 3]); et = vt*mult
            esz = et*rng.choice([1, 1, 2, 3])
            if rng.random() < 0.4: esz = max(1, esz - rng.randint(0, vt))
            et = min(et, esz); vtt = min(vt, esz)
            if et % vtt: continue
            if vt > 100 and np.prod([d[0] for d in ds], dtype=int) > 60: continue
            nv = rng.choice([1, 2, 3, 5, 8, 11] + [300]*(rng.random() < 0.1))
            ed = D((esz, et)); vs = [D((esz, vtt)), D((nv, nv))]
            es = ds[:a] + [ed] + ds[a:]
            return dict(op=self.name, dt=fdt(rng), p=dict(axis=a), T=[T('i', ds, 'label', rng, dt='int64', hi=nv), T('v', vs, kind(rng), rng), T('e', es, 'normal', rng, 'w')])
    def args(self, t, p): return (t['i'], t['v'], t['e'], p['axis'])
    def ref(self, A, p):
        return {'e': np.moveaxis(A['v'][:, A['i'].astype(int)], 0, p['axis'])}
@reg
class Normalize(Op):
    name = 'normalize'; tol = 20
    def gen(self, rng):
        ds = dims(rng, 1 if rng.random() < 0.1 else 2); a = axis_of(rng, ds)
        return dict(op=self.name, dt=fdt(rng), p=dict(axis=a, l=ds[a][0], eps=rng.choice([1e-5, 1e-3, 0.1, 1.0])), T=[T('gb', [(2, 2)], 'normal', rng), T('x', [(2, 2)] + ax(ds, a), 'sumnorm', rng, of='y'), T('y', ds, rng.choice(['normal', 'eighth', 'int', 'sparse', 'zero']), rng, 'rw')])
    def args(self, t, p): return (t['gb'], t['x'], t['y'], p['l'], p['eps'], p['axis'])
    def ref(self, A, p):
        a = p['axis']; y = A['y']
        mean = bc(A['x'][0], a)/p['l']; ms = bc(A['x'][1], a)**2/p['l']
        return {'y': (y-mean)/np.sqrt(np.maximum(ms-mean*mean, 0)+p['eps'])*A['gb'][0] + A['gb'][1]}
    def scale(self, A, p): return (np.abs(A['y']).max(initial=0)+1)/math.sqrt(p['eps'])*10
@reg
class Softmax(Op):
    name = 'softmax'; tol = 4
    def gen(self, rng):
        ds = dims(rng, 1 if rng.random() < 0.1 else 2); a = axis_of(rng, ds)
        return dict(op=self.name, dt=fdt(rng), p=dict(axis=a, alpha=scal(rng)), T=[T('mse', [(2, 2)] + ax(ds, a), 'mse', rng, of='x'), T('x', ds, rng.choice(['normal', 'eighth', 'int', 'large', 'neginf']), rng), T('y', ds, 'normal', rng, 'w')])
    def args(self, t, p): return (t['mse'], t['x'], p['alpha'], t['y'], p['axis'])
    def ref(self, A, p):
        m, s = bc(A['mse'][0], p['axis']), bc(A['mse'][1], p['axis'])
        return {'y': p['alpha']*np.exp(A['x']-m)/s}
@reg
class SoftmaxInplace(Softmax):
    name = 'softmax_inplace'
    def gen(self, rng):
        c = Softmax.gen(self, rng); c['op'] = self.name; c['T'] = c['T'][:2]; c['T'][1]['mode'] = 'rw'
        return c
    def args(self, t, p): return (t['mse'], p['alpha'], t['x'], p['axis'])
    def ref(self, A, p): return {'x': Softmax.ref(self, A, p)['y']}
@reg
class SubtractIndexed(Op):
    name = 'subtract_indexed_outputs'
    def gen(self, rng):
        ds = dims(rng, 1, 3, maxel=300); nl = rng.choice([1, 2, 3, 5, 8])
        return dict(op=self.name, dt=fdt(rng), p=dict(val=scal(rng)), T=[T('l', ds, 'label', rng, dt='int64', hi=nl), T('x', [D((nl, nl))] + ds, kind(rng), rng, 'rw')])
    def args(self, t, p): return (p['val'], t['l'], t['x'])
    def ref(self, A, p):
        x = A['x'].copy(); l = A['l'].astype(int)
        oh = np.arange(x.shape[0]).reshape((-1,) + (1,)*l.ndim) == l
        return {'x': x - p['val']*oh}
    def scale(self, A, p): return abs(p['val']) + np.abs(A['x']).max(initial=0)
@reg
class AdamStep(Op):
    name = 'fused_adam_step'; tol = 10; wd_decoupled = False
    def gen(self, rng):
        ds = dims(rng); it = rng.choice([1, 1, 2, 3, 7, 50])
        mo = 'w' if it == 1 else 'rw'
        return dict(op=self.name, dt=fdt(rng), p=dict(lr=rng.choice([1e-3, 0.1, 1.0]), eps=rng.choice([1e-8, 1e-3, 0.1]), b1=rng.choice([0.9, 0.5, 0.0]), b2=rng.choice([0.999, 0.9, 0.5]), wd=rng.choice([0.0, 0.0, 0.1, 0.01]), it=it),
            T=[T('p', ds, 'normal', rng, 'rw'), T('g', ds, rng.choice(['normal', 'eighth', 'sparse']), rng), T('m', ds, 'normal', rng, mo), T('v', ds, 'positive', rng, mo)])
    def args(self, t, p): return (t['p'], t['g'], t['m'], t['v'], p['lr'], p['eps'], p['b1'], p['b2'], p['wd'], p['it'])
    def call(self, env, c, t):
        getattr(env.nntile.tensor, self.name)(*self.args(t, c['p']))
    def call_blocking(self, env, c, t):
        self.call(env, c, t); env.wait()
    def ref(self, A, p):
        g, pv, it = A['g'], A['p'], p['it']
        if self.wd_decoupled: pv = pv*(1-p['lr']*p['wd'])
        else: g = g + p['wd']*pv
        m0, v0 = (A['m'], A['v']) if it > 1 else (0*A['p'], 0*A['p'])
        m = p['b1']*m0 + (1-p['b1'])*g
        v = np.sqrt(p['b2']*v0**2 + (1-p['b2'])*g**2)
        den = v/np.sqrt(1-p['b2']**it) + p['eps']
        return {'p': pv - p['lr']/(1-p['b1']**it)*m/den, 'm': m, 'v': v}
    def scale(self, A, p): return 1 + np.abs(A['p']).max(initial=0) + 10*p['lr']
@reg
class AdamwStep(AdamStep):
    name = 'fused_adamw_step'; wd_decoupled = True

# ---- contraction
@reg
class Gemm(Op):
    name = 'gemm'; redux_dst = ('C', 'add'); tol = 4; redux = True
    def gen(self, rng):
        while True:
            nk = rng.choice([1, 1, 1, 2, 2, 3]); nm = rng.choice([1, 1, 2, 3, 0]); nn = rng.choice([1, 1, 2, 3, 0]); nb = rng.choice([0, 0, 0, 1, 1, 2])
            M, N, K, B = ([dim(rng, True) for _ in range(q)] for q in (nm, nn, nk, nb))
            sz = lambda d: math.prod(n for n, t in d)
            nt = lambda d: math.prod(-(-n//t) for n, t in d)
            if nm+nk+nb > 4 or nn+nk+nb > 4 or nm+nn+nb > 4 or nm == 0 or nn == 0: continue
            lim = 1500
            if WIDE and rng.random() < 0.1:
                q = [x for x in (M, N, K, B) if x]; x = rng.choice(q); x[rng.randrange(len(x))] = longdim(rng); lim = 12000
            if max(sz(M+K+B), sz(K+N+B), sz(M+N+B)) > lim or nt(M)*nt(N)*nt(K)*nt(B) > 90: continue
            break
        ta, tb = rng.random() < 0.5, rng.random() < 0.5; b = scal(rng)
        return dict(op=self.name, dt=fdt(rng), p=dict(alpha=scal(rng), beta=b, ta=ta, tb=tb, nk=nk, nb=nb, redux=int(rng.random() < 0.25)),
            T=[T('A', (K+M if ta else M+K)+B, kind(rng), rng), T('B', (N+K if tb else K+N)+B, kind(rng), rng), T('C', M+N+B, kind(rng), rng, 'w' if b == 0 else 'rw')])
    def args(self, t, p):
        import nntile
        tr = lambda f: nntile.trans if f else nntile.notrans
        return (p['alpha'], tr(p['ta']), t['A'], tr(p['tb']), t['B'], p['beta'], t['C'], p['nk'], p['nb'], p['redux'])
    def mats(self, A, p, absolute=False):
        a, b, c = A['A'], A['B'], A['C']
        if absolute: a, b, c = abs(a), abs(b), abs(c)
        nk, nb = p['nk'], p['nb']
        def mat(x, first):
            n = x.ndim - nb
            r = int(np.prod(x.shape[:first], dtype=int)); s = int(np.prod(x.shape[first:n], dtype=int)); q = int(np.prod(x.shape[n:], dtype=int))
            return x.reshape((r, s, q), order='F')
        am = mat(a, nk) if p['ta'] else mat(a, a.ndim-nb-nk)
        if p['ta']: am = am.transpose(1, 0, 2)
        bm = mat(b, b.ndim-nb-nk) if p['tb'] else mat(b, nk)
        if p['tb']: bm = bm.transpose(1, 0, 2)
        r = np.einsum('mkb,knb->mnb', am, bm)
        return r.reshape(c.shape, order='F'), c
    def ref(self, A, p):
        r, c = self.mats(A, p)
        return {'C': p['alpha']*r + p['beta']*c}
    def scale(self, A, p):
        r, c = self.mats(A, p, True)
        return abs(p['alpha'])*r.max(initial=0) + abs(p['beta'])*c.max(initial=0)
@reg
class GemmEx(Gemm):
    """the tensor-core mode of the matrix product (on a virtual GPU)"""
    name = 'gemm_ex'
    def gen(self, rng):
        c = Gemm.gen(self, rng); c['dt'] = 'fp32'; c['p']['tf32'] = 1
        return c
@reg
class Half(Op):
    """conversion to half precision and back (on a virtual GPU)"""
    name = 'half'
    def gen(self, rng):
        ds = dims(rng)
        return dict(op=self.name, dt='fp32', p=dict(tf32=1), T=[T('x', ds, kind(rng), rng), T('y', ds, 'zero', rng, 'w'), T('h', ds, 'zero', rng, 'w', dt='fp16', tmp=1)])
    def call(self, env, c, t):
        f = env.nntile.nntile_core.tensor
        f.fp32_to_fp16_async(t['x'], t['h']); f.fp16_to_fp32_async(t['h'], t['y'])
    def call_blocking(self, env, c, t): self.call(env, c, t); env.wait()
    def ref(self, A, p):
        with np.errstate(all='ignore'): return {'y': A['x'].astype(np.float32).astype(np.float16).astype(np.float64)}
    def scale(self, A, p): return 0.0
@reg
class GemmHalf(Gemm):
    """matrix product of half precision (on a virtual GPU)"""
    name = 'gemm_half'; tol = 150
    def gen(self, rng):
        c = Gemm.gen(self, rng); c['dt'] = 'fp32'; c['p'].update(tf32=1, redux=0)
        for d in list(c['T']):
            if d['kind'] == 'wide': d['kind'] = 'normal'
            c['T'].append(dict(d, n=d['n'].lower(), dt='fp16', mode='w', tmp=1))
        return c
    def call(self, env, c, t):
        f = env.nntile.nntile_core.tensor; p = c['p']
        for x in ('A', 'B') + (('C',) if p['beta'] != 0 else ()): f.fp32_to_fp16_async(t[x], t[x.lower()])
        env.nntile.tensor.gemm_async(*self.args(dict(t, A=t['a'], B=t['b'], C=t['c']), p))
        f.fp16_to_fp32_async(t['c'], t['C'])
    def call_blocking(self, env, c, t): self.call(env, c, t); env.wait()
    def ref(self, A, p): return Gemm.ref(self, {n: A[n].astype(np.float16).astype(np.float64) if n in 'ABC' else A[n] for n in A}, p)
@reg
class Transpose(Op):
    name = 'transpose'
    def gen(self, rng):
        ds = dims(rng, 2); nd = rng.randint(1, len(ds)-1)
        return dict(op=self.name, dt=fdt(rng), p=dict(alpha=scal(rng), ndim=nd), T=[T('x', ds, kind(rng), rng), T('y', ds[nd:]+ds[:nd], 'normal', rng, 'w')])
    def args(self, t, p): return (p['alpha'], t['x'], t['y'], p['ndim'])
    def ref(self, A, p):
        n = A['x'].ndim
        return {'y': p['alpha']*A['x'].transpose([(i+p['ndim']) % n for i in range(n)])}

# ---- reductions
@reg
class SumSlice(Op):
    name = 'sum_slice'; redux_dst = ('d', 'add'); group = 'reduce'; tol = 3
    def gen(self, rng):
        ds = dims(rng, 2 if rng.random() < 0.9 else 1); a = axis_of(rng, ds); b = scal(rng)
        return dict(op=self.name, dt=fdt(rng), p=dict(alpha=scal(rng), beta=b, axis=a, redux=int(rng.random() < 0.35)), T=[T('x', ds, kind(rng), rng), T('d', ax(ds, a), kind(rng), rng, 'w' if b == 0 else 'rw')])
    def args(self, t, p): return (p['alpha'], t['x'], p['beta'], t['d'], p['axis'], p['redux'])
    def ref(self, A, p): return {'d': p['alpha']*A['x'].sum(p['axis']) + p['beta']*A['d']}
    def scale(self, A, p): return 3*np.abs(A['x']).sum(p['axis']).max(initial=0) + 3*np.abs(A['d']).max(initial=0)
@reg
class SumFiber(Op):
    name = 'sum_fiber'; redux_dst = ('d', 'add'); group = 'reduce'; tol = 3
    def gen(self, rng):
        ds, a, bd, fs = fiber_geom(rng); b = scal(rng)
        return dict(op=self.name, dt=fdt(rng), p=dict(alpha=scal(rng), beta=b, axis=a, batch=bd, redux=int(rng.random() < 0.35)), T=[T('x', ds, kind(rng), rng), T('d', fs, kind(rng), rng, 'w' if b == 0 else 'rw')])
    def args(self, t, p): return (p['alpha'], t['x'], p['beta'], t['d'], p['axis'], p['batch'], p['redux'])
    def red(self, x, p):
        n = x.ndim
        return x.sum(tuple(i for i in range(n-p['batch']) if i != p['axis']))
    def ref(self, A, p): return {'d': p['alpha']*self.red(A['x'], p) + p['beta']*A['d']}
    def scale(self, A, p): return 3*self.red(np.abs(A['x']), p).max(initial=0) + 3*np.abs(A['d']).max(initial=0)
@reg
class NormSlice(Op):
    name = 'norm_slice'; redux_dst = ('d', 'hypot'); group = 'reduce'; tol = 4
    def gen(self, rng):
        ds = dims(rng, 2 if rng.random() < 0.9 else 1); a = axis_of(rng, ds); b = scal(rng)
        k = rng.choice([kind(rng), 'large', 'tiny', 'huge', 'minute'])
        return dict(op=self.name, dt=fdt(rng), p=dict(alpha=scal(rng), beta=b, axis=a, redux=int(rng.random() < 0.35)), T=[T('x', ds, k, rng), T('d', ax(ds, a), kind(rng), rng, 'w' if b == 0 else 'rw')])
    def args(self, t, p): return (p['alpha'], t['x'], p['beta'], t['d'], p['axis'], p['redux'])
    def ref(self, A, p): return {'d': np.hypot(p['alpha']*norm(A['x'], p['axis']), p['beta']*A['d'])}
@reg
class SumNorm(Op):
    name = 'sumnorm'; group = 'reduce'; tol = 4
    def gen(self, rng):
        ds = dims(rng, 2 if rng.random() < 0.9 else 1); a = axis_of(rng, ds)
        k = rng.choice([kind(rng), 'large', 'tiny', 'huge'])
        return dict(op=self.name, dt=fdt(rng), p=dict(axis=a), T=[T('x', ds, k, rng), T('d', [(2, 2)] + ax(ds, a), 'normal', rng, 'w')])
    def args(self, t, p): return (t['x'], t['d'], p['axis'])
    def ref(self, A, p): return {'d': np.stack([A['x'].sum(p['axis']), norm(A['x'], p['axis'])])}
    def scale(self, A, p): return np.abs(A['x']).sum(p['axis']).max(initial=0)
def mse_of(x, axis, old=None):
    with np.errstate(invalid='ignore', over='ignore'):
        m = x.max(axis)
        s = np.where(np.isinf(m), 0, np.exp(x - bc(np.where(np.isinf(m), 0, m), axis)).sum(axis))
        m = np.where(np.isinf(m), 0, m)
        if old is not None:
            mo, so = old[0], old[1]
            mm = np.where(so == 0, m, np.where(s == 0, mo, np.maximum(m, mo)))
            s = s*np.exp(np.where(s == 0, 0, m-mm)) + so*np.exp(np.where(so == 0, 0, mo-mm)); m = mm
    return np.stack([m, s])
@reg
class MaxSumExp(Op):
    name = 'maxsumexp'; redux_dst = ('d', 'maxsumexp'); group = 'reduce'; tol = 4
    def gen(self, rng):
        ds = dims(rng, 2 if rng.random() < 0.9 else 1); a = axis_of(rng, ds)
        return dict(op=self.name, dt=fdt(rng), p=dict(axis=a, redux=int(rng.random() < 0.35)), T=[T('x', ds, rng.choice(['normal', 'eighth', 'large', 'neginf', 'neginf']), rng), T('d', [(2, 2)] + ax(ds, a), 'mse0', rng, 'rw')])
    def args(self, t, p): return (t['x'], t['d'], p['axis'], p['redux'])
    def ref(self, A, p): return {'d': mse_of(A['x'], p['axis'], A['d'])}
    def compare(self, env, sig, out, ref, dt, scale):
        d = out['d'].astype(np.float64); r = ref['d']
        # with an empty sum the maximum carries no information
        z = (r[1] == 0)
        if (d[1][z] != 0).any(): env.fail(sig, 'sum of exponents of an all -inf slice is not 0')
        with np.errstate(over='ignore', invalid='ignore'):
            # what is defined is max and sum*exp(max): compare in logarithms
            lg, lr = d[0] + np.log(d[1]), r[0] + np.log(r[1])
        env.close(sig, np.where(z, 0, lg), np.where(z, 0, lr), 4*TOL[dt], what='max+log(sum)', scale=max(1.0, np.abs(np.where(z, 0, r[0])).max(initial=0)))
        env.close(sig, np.where(z, 0, d[0]), np.where(z, 0, r[0]), 4*TOL[dt], what='max')
@reg
class Nrm2(Op):
    name = 'nrm2'; group = 'reduce'; tol = 6
    def gen(self, rng):
        ds = dims(rng); b = scal(rng)
        k = rng.choice([kind(rng), 'large', 'huge', 'tiny'])
        grid = [(-(-n//t), 1) for n, t in ds]
        return dict(op=self.name, dt=fdt(rng), p=dict(alpha=scal(rng), beta=b), T=[T('x', ds, k, rng), T('y', [], 'normal', rng, 'w' if b == 0 else 'rw'), T('t', grid, 'normal', rng, 'w', tmp=1)])
    def args(self, t, p): return (p['alpha'], t['x'], p['beta'], t['y'], t['t'])
    def ref(self, A, p): return {'y': np.hypot(p['alpha']*float(norm(A['x']).reshape(-1)[0]), p['beta']*A['y'])}
@reg
class SumprodSlice(Op):
    name = 'sumprod_slice'; redux_dst = ('d', 'add'); group = 'reduce'; tol = 3
    def gen(self, rng):
        ds = dims(rng, 2 if rng.random() < 0.9 else 1); a = axis_of(rng, ds); b = scal(rng)
        return dict(op=self.name, dt=fdt(rng), p=dict(alpha=scal(rng), beta=b, axis=a, redux=int(rng.random() < 0.35)), T=[T('x', ds, kind(rng), rng), T('y', ds, kind(rng), rng), T('d', ax(ds, a), kind(rng), rng, 'w' if b == 0 else 'rw')])
    def args(self, t, p): return (p['alpha'], t['x'], t['y'], p['beta'], t['d'], p['axis'], p['redux'])
    def ref(self, A, p): return {'d': p['alpha']*(A['x']*A['y']).sum(p['axis']) + p['beta']*A['d']}
    def scale(self, A, p): return 3*np.abs(A['x']*A['y']).sum(p['axis']).max(initial=0) + 3*np.abs(A['d']).max(initial=0)
@reg
class SumprodFiber(Op):
    name = 'sumprod_fiber'; redux_dst = ('d', 'add'); group = 'reduce'; tol = 3
    def gen(self, rng):
        ds, a, bd, fs = fiber_geom(rng, False); b = scal(rng)
        return dict(op=self.name, dt=fdt(rng), p=dict(alpha=scal(rng), beta=b, axis=a, redux=int(rng.random() < 0.35)), T=[T('x', ds, kind(rng), rng), T('y', ds, kind(rng), rng), T('d', fs, kind(rng), rng, 'w' if b == 0 else 'rw')])
    def args(self, t, p): return (p['alpha'], t['x'], t['y'], p['beta'], t['d'], p['axis'], p['redux'])
    def red(self, x, p): return x.sum(tuple(i for i in range(x.ndim) if i != p['axis']))
    def ref(self, A, p): return {'d': p['alpha']*self.red(A['x']*A['y'], p) + p['beta']*A['d']}
    def scale(self, A, p): return 3*self.red(np.abs(A['x']*A['y']), p).max(initial=0) + 3*np.abs(A['d']).max(initial=0)
@reg
class LogSumExp(Op):
    name = 'logsumexp'; group = 'reduce'; tol = 3
    def gen(self, rng):
        ds = dims(rng, 1, 3)
        return dict(op=self.name, dt=fdt(rng), p={}, T=[T('m', [(2, 2)] + ds, 'msepos', rng), T('d', ds, 'normal', rng, 'w')])
    def args(self, t, p): return (t['m'], t['d'])
    def ref(self, A, p): return {'d': A['m'][0] + np.log(A['m'][1])}
    def scale(self, A, p): return np.abs(A['m'][0]).max(initial=0) + 1
@reg
class TotalSumAccum(Op):
    name = 'total_sum_accum'; group = 'reduce'; tol = 6
    def gen(self, rng):
        ds = dims(rng, 1, 3, maxel=300); nl = rng.choice([1, 2, 3, 5, 8])
        return dict(op=self.name, dt=fdt(rng), p=dict(alpha=scal(rng)), T=[T('lse', ds, kind(rng), rng), T('x', [D((nl, nl))] + ds, kind(rng), rng), T('l', ds, 'label', rng, dt='int64', hi=nl), T('v', [], 'normal', rng, 'rw')])
    def args(self, t, p): return (p['alpha'], t['lse'], t['x'], t['l'], t['v'])
    def ref(self, A, p):
        l = A['l'].astype(int); x = A['x']
        oh = np.arange(x.shape[0]).reshape((-1,) + (1,)*l.ndim) == l
        return {'v': A['v'] + p['alpha']*(A['lse'].sum() - (x*oh).sum())}
    def scale(self, A, p): return 3*(np.abs(A['lse']).sum() + np.abs(A['x']).max(0, initial=0).sum()) + np.abs(A['v']).max(initial=0)
@reg
class EmbeddingBackward(Op):
    name = 'embedding_backward'; redux_dst = ('v', 'add'); group = 'reduce'; tol = 3
    def gen(self, rng):
        c = OPS['embedding'].gen(rng); c['op'] = self.name
        i, v, e = c['T']; e['mode'] = 'r'; e['kind'] = kind(rng); v['mode'] = 'rw'
        c['p']['redux'] = int(rng.random() < 0.35)
        return c
    def args(self, t, p): return (t['i'], t['e'], t['v'], p['axis'], p['redux'])
    def ref(self, A, p):
        v = A['v'].copy(); e = np.moveaxis(A['e'], p['axis'], 0)
        i = A['i'].astype(int)
        np.add.at(v, (slice(None), i.reshape(-1)), e.reshape(e.shape[0], -1))
        return {'v': v}
    def scale(self, A, p): return np.abs(A['v']).max(initial=0) + np.abs(A['e']).sum()

def operands(c, adata):
    """float64 arrays of all operands of a case (values representable in its type)"""
    A = {}
    npdt = dict(fp32=np.float32, fp64=np.float64)[c['dt']]
    for t in c['T']:
        k = t['kind']
        if k in ('sumnorm', 'mse'): continue
        if k == 'neginf':
            a = adata(t['seed'], 'normal', t['shape']); r = np.random.default_rng(t['seed']+1)
            a = np.where(r.random(a.shape) < r.choice([0.2, 0.6, 0.9]), -np.inf, a)
        elif k == 'huge': a = adata(t['seed'], 'normal', t['shape'])*(1e30 if c['dt'] == 'fp32' else 1e200)
        elif k == 'minute': a = adata(t['seed'], 'normal', t['shape'])*(1e-30 if c['dt'] == 'fp32' else 1e-200)
        elif k == 'mse0':
            r = np.random.default_rng(t['seed'])
            a = np.stack([r.standard_normal(t['shape'][1:]), r.random(t['shape'][1:])*3+0.5]) if r.random() < 0.4 else np.zeros(t['shape'])
        elif k == 'msepos':
            r = np.random.default_rng(t['seed'])
            a = np.stack([r.standard_normal(t['shape'][1:])*r.choice([1, 100]), r.random(t['shape'][1:])*9+1])
        else: a = adata(t['seed'], k, t['shape'], hi=t.get('hi', 1))
        d = t.get('dt', c['dt'])
        if d in ('fp32', 'fp64'): a = a.astype(npdt).astype(np.float64)
        A[t['n']] = np.asarray(a)
    for t in c['T']:
        if t['kind'] == 'sumnorm':
            y = A[t['of']]; a = c['p']['axis']
            A[t['n']] = np.stack([y.sum(a), norm(y, a)]).astype(npdt).astype(np.float64)
        elif t['kind'] == 'mse':
            m = mse_of(A[t['of']], c['p']['axis']); m[1] = np.where(m[1] == 0, 1, m[1])
            A[t['n']] = m.astype(npdt).astype(np.float64)
    return A
