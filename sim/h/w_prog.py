"""C01, C06, C07, C08 (and parts of C05): random asynchronous programs.

A program works on a pool of tensors over three named extents a, b, c; the
model state is a dictionary of whole arrays.  Every subsequence of a program is
again a program: at run time a step whose operands are not defined is skipped.
"""
import gc, math
import numpy as np
import ops, core
from ops import OPS, TOL

FLOAT_LAYOUTS = ['abc', 'bca', 'cab', 'ab', 'bc', 'ac', 'ba', 'aa', 'a', 'b', 'c', '']
COUNT = {'abc': 3, 'bca': 1, 'cab': 1, 'ab': 2, 'bc': 2, 'ac': 2, 'ba': 1, 'aa': 1, 'a': 2, 'b': 2, 'c': 2, '': 2}

def geometry(rng):
    g = {}
    for d in 'abc':
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9])
        r = rng.random()
        t = n if r < 0.2 else max(1, rng.randint(max(1, -(-n//4)), n))
        g[d] = [n, t]
    g['x'] = [rng.randint(max(1, -(-g[d][0]//4)), g[d][0]) for d in 'abc'] # other tiling of abc
    return g

def layout_of(name):
    return name.split('#')[0]
def geom_of(g, name):
    """shape, basetile"""
    l = layout_of(name)
    if l == 'abcX': return [g[d][0] for d in 'abc'], list(g['x'])
    if l == 'abc1': return [g[d][0] for d in 'abc'], [g[d][0] for d in 'abc']
    if l == 'gb': return [2], [2]
    if l[:1] in '2N': # statistics of slices (2: sum and norm, N: max and sum of exponents)
        if l[:1]: return [2] + [g[d][0] for d in l[1:]], [2] + [g[d][1] for d in l[1:]]
    if l == 'mab': l = 'ab'
    return [g[d][0] for d in l], [g[d][1] for d in l]

def pool():
    p = []
    for l in FLOAT_LAYOUTS:
        for i in range(COUNT[l]): p.append('%s#%d' % (l, i))
    p += ['abcX#0', 'abc1#0', 'gb#0']
    for l in ('ab', 'bc', 'ac'):
        p += ['%s#h' % l, '2%s#0' % l, 'N%s#0' % l]
    return p
POOL = pool()
PLAINP = [n for n in POOL if layout_of(n) in FLOAT_LAYOUTS and not n.endswith('h')]
def of(layout): return [n for n in PLAINP if layout_of(n) == layout]
REM = lambda l, i: l[:i] + l[i+1:]

def draw(rng):
    """one random operation: (op, {operand: tensor}, params)"""
    S = ops.scal
    k = rng.choice(['un', 'un', 'bin', 'bin', 'bin', 'bin', 'slice', 'slice', 'fiber', 'fiber', 'rslice', 'rslice', 'rfiber', 'gemm', 'gemm', 'gemm', 'transpose',
        'mask', 'nrm2', 'soft', 'norm', 'move', 'move', 'fill', 'randn', 'axt', 'nslice'])
    any_ = lambda: rng.choice(PLAINP)
    big = lambda: rng.choice([l for l in ('abc', 'abc', 'abc', 'ab', 'bc', 'ac', 'bca', 'cab')])
    if k == 'un':
        o = rng.choice(['relu', 'gelu', 'gelutanh_inplace', 'scal_inplace', 'scal_inplace', 'add_scalar', 'clear', 'hypot_scalar_inverse'])
        p = {}
        if o == 'scal_inplace': p = dict(alpha=S(rng))
        if o == 'add_scalar': p = dict(alpha=S(rng), beta=S(rng))
        if o == 'hypot_scalar_inverse': p = dict(eps=rng.choice([0.5, 1.0, 2.0]), alpha=S(rng, False))
        x = rng.choice(POOL) if o == 'clear' else any_()
        return o, dict(x=x), p
    if k == 'fill': return 'fill', dict(x=rng.choice(PLAINP + ['abcX#0', 'abc1#0', 'gb#0'])), dict(val=S(rng))
    if k == 'randn':
        return 'randn', dict(x=rng.choice(of('abc') + of('ab') + of('c'))), dict(seed=rng.getrandbits(20), mean=S(rng), dev=rng.choice([1.0, 0.5, 2.0]))
    if k == 'bin':
        l = rng.choice(['abc', 'abc', 'abc'] + FLOAT_LAYOUTS)
        o = rng.choice(['add', 'add', 'axpy', 'axpy', 'prod', 'maximum', 'hypot', 'scal', 'copy', 'copy', 'relu_forward', 'gelutanh', 'gelutanh_backward', 'gelu_backward'])
        x, y = rng.choice(of(l)), rng.choice(of(l))
        if x == y and o not in ('axpy', 'prod', 'maximum', 'add', 'hypot'):
            if len(of(l)) == 1: o = 'axpy'
            else:
                while y == x: y = rng.choice(of(l))
        p = {}
        if o == 'axpy': p = dict(alpha=S(rng))
        if o in ('add', 'hypot'):
            p = dict(alpha=S(rng), beta=S(rng, x != y))
            if x == y and p['alpha'] == 0: p['alpha'] = 1.0
        if o == 'scal': p = dict(alpha=S(rng))
        if o.endswith('_backward'):
            dy = rng.choice(of(l))
            if y in (x, dy):
                return draw(rng)
            return o, dict(x=x, dy=dy, dx=y), p
        return o, dict(x=x, y=y), p
    if k == 'axt':
        l = rng.choice(['abc', 'ab', 'c'])
        x, y = rng.choice(of(l)), rng.choice(of(l))
        return 'axpy', dict(a=rng.choice(of('')), x=x, y=y), dict(alpha=0.0, talpha=1)
    if k == 'slice':
        l = big(); i = rng.randrange(len(l)); s = ''.join(REM(l, i))
        if not of(s): return draw(rng)
        o = rng.choice(['add_slice', 'add_slice', 'add_slice3', 'prod_slice'])
        p = dict(alpha=S(rng), axis=i)
        T = dict(s=rng.choice(of(s)), x=rng.choice(of(l)))
        if o != 'prod_slice': p['beta'] = S(rng)
        if o == 'add_slice3':
            T['y'] = rng.choice(of(l))
            if T['y'] == T['x']: return draw(rng)
        return o, T, p
    if k == 'fiber':
        l = big(); i = rng.randrange(len(l)); bd = int(rng.random() < 0.3 and len(l) == 3 and i < 2)
        f = l[i] + (l[2] if bd else '')
        if not of(f): return draw(rng)
        o = 'add_fiber' if bd else rng.choice(['add_fiber', 'add_fiber', 'prod_fiber', 'prod_fiber3'])
        p = dict(alpha=S(rng), axis=i)
        T = dict(f=rng.choice(of(f)), x=rng.choice(of(l)))
        if o == 'add_fiber': p.update(beta=S(rng), batch=bd)
        if o == 'prod_fiber3':
            T['y'] = rng.choice(of(l))
            if T['y'] == T['x']: return draw(rng)
        return o, T, p
    if k == 'rslice':
        l = big(); i = rng.randrange(len(l)); s = ''.join(REM(l, i))
        if not of(s): return draw(rng)
        o = rng.choice(['sum_slice', 'sum_slice', 'sumprod_slice'])
        p = dict(alpha=S(rng), beta=S(rng), axis=i, redux=int(rng.random() < 0.3)); T = dict(x=rng.choice(of(l)), d=rng.choice(of(s)))
        if o == 'sumprod_slice': T['y'] = rng.choice(of(l))
        return o, T, p
    if k == 'nslice':
        l, i = rng.choice([('abc', 0), ('abc', 1), ('abc', 2), ('bca', 0), ('bca', 2), ('cab', 0)]); s = ''.join(REM(l, i))
        if s + '#h' not in POOL: return draw(rng)
        return 'norm_slice', dict(x=rng.choice(of(l)), d=s + '#h'), dict(alpha=S(rng), beta=S(rng), axis=i, redux=int(rng.random() < 0.3))
    if k == 'rfiber':
        l = big(); i = rng.randrange(len(l)); o = rng.choice(['sum_fiber', 'sum_fiber', 'sumprod_fiber'])
        bd = int(o == 'sum_fiber' and rng.random() < 0.3 and len(l) == 3 and i < 2); f = l[i] + (l[2] if bd else '')
        if not of(f): return draw(rng)
        p = dict(alpha=S(rng), beta=S(rng), axis=i, redux=int(rng.random() < 0.3)); T = dict(x=rng.choice(of(l)), d=rng.choice(of(f)))
        if o == 'sum_fiber': p['batch'] = bd
        else: T['y'] = rng.choice(of(l))
        return o, T, p
    if k == 'gemm':
        A, B, C, ta, tb, nk = rng.choice([('ab', 'bc', 'ac', 0, 0, 1), ('ac', 'bc', 'ab', 0, 1, 1), ('ab', 'ac', 'bc', 1, 0, 1), ('ba', 'bc', 'ac', 1, 0, 1),
            ('abc', 'bca', 'aa', 0, 0, 2), ('aa', 'abc', 'abc', 0, 0, 1), ('aa', 'ab', 'ab', 1, 0, 1), ('ba', 'ab', 'aa', 1, 1, 1) if 0 else ('ab', 'ab', 'aa', 0, 1, 1),
            ('abc', 'aa', 'bca', 1, 0, 1), ('abc', 'abc', 'aa', 0, 1, 2), ('bca', 'bca', 'aa', 1, 0, 2)])
        T = dict(A=rng.choice(of(A)), B=rng.choice(of(B)), C=rng.choice(of(C)))
        if T['C'] in (T['A'], T['B']): return draw(rng)
        return 'gemm', T, dict(alpha=S(rng), beta=S(rng), ta=ta, tb=tb, nk=nk, nb=0, redux=int(rng.random() < 0.3))
    if k == 'transpose':
        a, b, n = rng.choice([('abc', 'bca', 1), ('abc', 'cab', 2), ('bca', 'abc', 2), ('cab', 'abc', 1), ('bca', 'cab', 1), ('ab', 'ba', 1), ('ba', 'ab', 1)])
        return 'transpose', dict(x=rng.choice(of(a)), y=rng.choice(of(b))), dict(alpha=S(rng), ndim=n)
    if k == 'mask':
        return 'mask_scalar', dict(m='mab#0', x=rng.choice(of('abc'))), dict(val=rng.choice([0.0, 1.5, -2.0]), batch=1)
    if k == 'nrm2':
        return 'nrm2', dict(x=any_(), y=rng.choice(of(''))), dict(alpha=S(rng), beta=S(rng))
    if k == 'soft':
        i = rng.randrange(3); s = ''.join(REM('abc', i)); x = rng.choice(of('abc'))
        o = rng.choice(['maxsumexp', 'maxsumexp', 'softmax_inplace', 'softmax', 'logsumexp'])
        m = 'N%s#0' % s
        if o == 'maxsumexp': return o, dict(x=x, d=m), dict(axis=i, redux=int(rng.random() < 0.3))
        if o == 'logsumexp': return o, dict(m=m, d=rng.choice(of(s))), {}
        if o == 'softmax_inplace': return o, dict(mse=m, x=x), dict(alpha=S(rng, False), axis=i)
        y = rng.choice(of('abc'))
        if y == x: return draw(rng)
        return o, dict(mse=m, x=x, y=y), dict(alpha=S(rng, False), axis=i)
    if k == 'norm':
        i = rng.randrange(3); s = ''.join(REM('abc', i)); x = rng.choice(of('abc'))
        if rng.random() < 0.6: return 'sumnorm', dict(x=x, d='2%s#0' % s), dict(axis=i)
        return 'normalize', dict(gb='gb#0', s='2%s#0' % s, y=x), dict(axis=i, eps=rng.choice([0.5, 1.0, 1e-2]))
    if k == 'move':
        o = rng.choice(['scatter', 'gather', 'intersect', 'copy'])
        if o == 'scatter': return 'scatter', dict(x='abc1#0', y=rng.choice(of('abc') + ['abcX#0'])), {}
        if o == 'gather': return 'gather', dict(x=rng.choice(of('abc') + ['abcX#0']), y='abc1#0'), {}
        pl = of('abc') + ['abcX#0', 'abc1#0']
        x, y = rng.choice(pl), rng.choice(pl)
        if x == y: return draw(rng)
        off = [0, 0, 0] if rng.random() < 0.4 else [rng.randint(-2, 2) for _ in range(3)]
        return 'intersect', dict(x=x, y=y), dict(off=off)
    raise AssertionError(k)

# ------------------------------------------------------------------ the model
WRITES = dict(axpy='y', add='y', prod='y', maximum='y', hypot='y', scal='y', copy='y', relu_forward='y', gelutanh='y', add_slice='x', prod_slice='x',
    add_slice3='y', add_fiber='x', prod_fiber='x', prod_fiber3='y', gemm='C', transpose='y', mask_scalar='x', nrm2='y', softmax='y', softmax_inplace='x',
    normalize='y', scatter='y', gather='y', intersect='y', gelu_backward='dx', gelutanh_backward='dx', logsumexp='d', sum_slice='d', sum_fiber='d',
    sumprod_slice='d', sumprod_fiber='d', norm_slice='d', maxsumexp='d', sumnorm='d', randn='x')
OVERWRITES = {'fill', 'clear', 'scal', 'copy', 'relu_forward', 'gelutanh', 'add_slice3', 'prod_fiber3', 'transpose', 'softmax', 'scatter', 'gather', 'logsumexp', 'sumnorm', 'randn'}
def target(op): return WRITES.get(op, 'x')
def overwrites(op, p, g=None):
    if op in OVERWRITES: return True
    if op in ('add', 'hypot', 'add_slice', 'add_fiber', 'gemm', 'nrm2', 'sum_slice', 'sum_fiber', 'norm_slice', 'sumprod_slice', 'sumprod_fiber'): return p.get('beta') == 0
    if op == 'intersect': return p['off'] == [0, 0, 0]
    return False
def inter(x, y, off):
    """y with x placed at offset off relative to y"""
    y = None if y is None else y.copy()
    src, dst = [], []
    for n, m, o in zip(x.shape, x.shape if y is None else y.shape, off):
        lo, hi = max(0, o), min(m, n+o)
        if lo >= hi: return y
        dst.append(slice(lo, hi)); src.append(slice(lo-o, hi-o))
    if y is None: y = np.zeros(x.shape)
    y[tuple(dst)] = x[tuple(src)]
    return y
def definedness(op, T, p, defined, released=()):
    w = target(op)
    for n, t in T.items():
        if n == w and overwrites(op, p): continue
        if t not in defined: return False
    if op in ('add', 'hypot') and T['x'] == T['y'] and T['x'] not in defined: return False
    return True
def model(op, T, p, st, shapes):
    """new content of the written tensor"""
    w = target(op)
    A = {n: st[t] if t in st else np.zeros(shapes(t)) for n, t in T.items()}
    if op == 'copy': return A['x']
    if op in ('scatter', 'gather'): return A['x']
    if op == 'intersect': return inter(A['x'], A['y'], p['off'])
    if op == 'normalize': return normalize_ref(A, p)
    if op == 'randn': return p['_value']
    r = OPS[op].ref(A, p)[w]
    return r
def normalize_ref(A, p):
    y, i = A['y'], p['axis']; l = y.shape[i]
    mean = A['s'][0]/l; var = np.maximum(A['s'][1]**2/l - mean**2, 0)
    return (y - np.expand_dims(mean, i))/np.sqrt(np.expand_dims(var, i) + p['eps'])*A['gb'][0] + A['gb'][1]

# --------------------------------------------------------------- generation
def ok_value(v): return np.isfinite(v).all() and np.abs(v).max(initial=0) < 200
def gen_steps(rng, g, n, prop, defined=None):
    shapes = lambda t: geom_of(g, t)[0]
    st = {} if defined is None else defined
    steps = []; paused = False; hot = None; last = []
    def pick():
        """a random operation; often another update of a tensor updated lately, or a use of it"""
        op, T, p = draw(rng)
        if last and hot is not None:
            for _ in range(12):
                if T[target(op)] == hot and not overwrites(op, p): break
                op, T, p = draw(rng)
        if p.get('beta') not in (None, 1.0) and rng.random() < 0.3 and (op not in ('add', 'hypot') or T['x'] != T['y']): p['beta'] = 1.0
        return op, T, p
    def put(t):
        k = rng.choice(['normal', 'eighth', 'int', 'sparse']); s = rng.getrandbits(32)
        if layout_of(t)[:1] == '2' or layout_of(t)[:1] == 'N': return
        if t == 'mab#0': k = 'bool'
        steps.append(dict(k='write', t=t, kind=k, seed=s, how=rng.choice(['array', 'scatter', 'array'])))
        st[t] = core.adata(s, k, shapes(t))
    weights = dict(C01=(6, 2, 1, 1, 2), C06=(4, 2, 3, 4, 2), C08=(3, 1, 1, 1, 8), C07=(3, 1, 1, 1, 2)).get(prop, (4, 2, 1, 1, 2))
    while len(steps) < n:
        r = rng.random()
        if r < 0.72:
            if last and rng.random() < 0.4: hot = rng.choice(last[-2:])
            elif rng.random() < 0.5: hot = None
            for _ in range(60):
                op, T, p = pick()
                und = [t for m, t in T.items() if not (m == target(op) and overwrites(op, p)) and t not in st]
                if not und: break
                if rng.random() < 0.25 and not paused:
                    for t in dict.fromkeys(und): put(t)
                    if definedness(op, T, p, st): break
            else:
                continue
            if op == 'normalize' and 'gb#0' not in st: continue
            if op == 'randn': v = np.ones(shapes(T['x']))
            else:
                with np.errstate(all='ignore'): v = model(op, T, p, st, shapes)
            if not ok_value(v): continue
            # ill-conditioned use of statistics that do not belong to the data
            if op == 'hypot' and False: continue
            if paused and op == 'nrm2': continue
            st[T[target(op)]] = np.asarray(v, dtype=float); last.append(T[target(op)])
            s = dict(k='op', op=op, T=T, p=p)
            if not paused and rng.random() < (0.15 if prop == 'C06' else 0.04) and op not in ('randn', 'normalize', 'scatter', 'gather', 'intersect', 'nrm2'): s['b'] = 1
            steps.append(s)
        elif r < 0.72 + 0.28*weights[0]/sum(weights):
            if paused or not st: continue
            if rng.random() < 0.5:
                t = rng.choice(sorted(st)); steps.append(dict(k='read', t=t))
            else: put(rng.choice(POOL + ['mab#0']))
        else:
            o = rng.choices(['wait', 'pause', 'wont', 'drop'], weights[1:])[0]
            if o == 'pause':
                if paused: steps.append(dict(k='resume')); paused = False
                else: steps.append(dict(k='pause')); paused = True
            elif o == 'wait':
                if not paused: steps.append(dict(k='wait'))
            elif rng.random() < 0.08: steps.append(dict(k='where', w=rng.choice(['cpu', 'cuda', 'restore'])))
            elif st:
                t = rng.choice(sorted(st))
                if o == 'drop':
                    if paused: continue
                    steps.append(dict(k='drop', t=t, how=rng.choice(['unregister', 'del', 'del', 'both']))); del st[t]
                elif rng.random() < 0.3:
                    c = [t for t in sorted(st) if not layout_of(t) and t in st]
                    if c: steps.append(dict(k='print', t=rng.choice(c)))
                else:
                    steps.append(dict(k='wont', t=t))
    if paused: steps.append(dict(k='resume'))
    return steps

def gen(prop, rng, tier):
    g = geometry(rng)
    dt = rng.choice(['fp32', 'fp64'])
    n = rng.choice([6, 12, 20, 30]) if tier == 'quick' else rng.choice([12, 30, 60, 120])
    sp = dict(g=g, dt=dt, steps=gen_steps(rng, g, n, prop), end=rng.choice(['unregister', 'del', 'read']))
    if prop == 'C06' and rng.random() < 0.35:
        sp['faults'] = [['sigint', rng.choice([0, 0, 1, 2, 4])] for _ in range(rng.choice([1, 1, 2]))]
    return sp
def label(prop, spec):
    return ','.join(s.get('op', s['k']) for s in spec['steps'])

# ------------------------------------------------------------------ execution
_out = []
def stdout(take=False):
    """what the process prints goes to a file in memory; take: the text since the last time"""
    import os, ctypes
    if not _out:
        f = os.memfd_create('stdout'); os.dup2(f, 1); os.dup2(os.open('/dev/null', os.O_WRONLY), 2); _out.append(f)
    if not take: return ''
    ctypes.CDLL(None).fflush(None)
    n = os.lseek(_out[0], 0, 2); t = os.pread(_out[0], n, 0).decode(errors='replace')
    os.ftruncate(_out[0], 0); os.lseek(_out[0], 0, 0)
    return t
class Prog:
    def __init__(self, env, spec, check=True):
        if _out: stdout(True) # of a run that was given up
        self.env, self.spec, self.g, self.dtn = env, spec, spec['g'], spec['dt']
        self.t = {}; self.st = {}; self.s32 = {}; self.mag = {}
        self.paused = 0; self.check = check; self.outs = []
        self.temps = []; self.printed = []
    def shapes(self, t): return geom_of(self.g, t)[0]
    def dt(self, t): return 'bool' if layout_of(t) == 'mab' else self.dtn
    def tensor(self, t):
        if t not in self.t:
            s, b = geom_of(self.g, t)
            x = self.env.new(s, b, self.dt(t)); self.t[t] = x
            l = layout_of(t)
            if self.dt(t) != 'bool':
                if t.endswith('#h'): x.set_reduction_hypot()
                elif l[:1] == 'N': x.set_reduction_maxsumexp()
                else: x.set_reduction_add()
        return self.t[t]
    def low(self, a): return np.asarray(a).astype(np.float32).astype(np.float64)
    def tol(self, t):
        m = self.mag.get(t, 1.0)
        d = np.abs(self.st[t] - self.s32[t]).max(initial=0)
        return 40*TOL[self.dtn]*m + 60*d*(1.0 if self.dtn == 'fp32' else 2.0**-28)
    def compare(self, t, got, what):
        env = self.env
        if self.dt(t) == 'bool':
            if not np.array_equal(got.astype(bool), self.st[t].astype(bool)): env.fail('program-value', '%s of mask differs' % what)
            return
        tol = self.tol(t)
        ref = self.st[t]
        if layout_of(t)[:1] == 'N': # only max + log(sum) is meaningful
            with np.errstate(all='ignore'):
                z = ref[1] == 0
                if (got[1][z] != 0).any(): env.fail('program-value', '%s of %s: empty sum of exponents is not zero' % (what, t))
                ref = np.where(z, 0, ref[0] + np.log(ref[1])); got = np.where(z, 0, got[0].astype(float) + np.log(got[1].astype(float)))
        core.margin('prog:' + self.dtn, got.astype(np.float64), ref, tol)
        bad = ~(np.abs(got.astype(np.float64) - ref) <= tol)
        if bad.any():
            i = tuple(int(v[0]) for v in np.nonzero(bad)) if bad.ndim else ()
            env.fail('program-value', '%s of %s at %s: got %r, program order gives %r (tolerance %.2e)' % (what, t, i, float(got[i]), float(ref[i]), tol))
    def async_guard(self, f, what):
        env = self.env; b = env.stat('blocking_waits'); sl = env.stat('starts')
        f()
        if env.stat('blocking_waits') != b: env.fail('async-blocks', '%s waited for unfinished work' % what)
        if self.paused and env.stat('starts') != sl: env.fail('runs-while-paused', 'a task ran while the workers were paused (%s)' % what)
    def call(self, op, T, p, blocking=False):
        env = self.env; nt = env.nntile.tensor; ct = env.nntile.nntile_core.tensor
        x = {n: self.tensor(t) for n, t in T.items()}
        if op == 'copy': f = lambda: nt.copy_async(x['x'], x['y'])
        elif op == 'scatter': f = lambda: env.scatter(x['x'], x['y'])
        elif op == 'gather': f = lambda: env.gather(x['x'], x['y'])
        elif op == 'intersect': f = lambda: nt.copy_intersection_async(x['x'], [o+5 for o in p['off']], x['y'], [5, 5, 5])
        elif op == 'normalize': f = lambda: nt.normalize_async(x['gb'], x['s'], x['y'], int(self.shapes(T['y'])[p['axis']]), p['eps'], p['axis'])
        elif op == 'randn': f = lambda: nt.randn_async(x['x'], [0]*len(x['x'].shape), list(x['x'].shape), p['seed'], p['mean'], p['dev'])
        elif op == 'nrm2':
            gs = x['x'].grid.shape
            tmp = env.new(gs, [1]*len(gs), self.dtn); self.temps.append(tmp)
            self.async_guard(lambda: nt.nrm2_async(p['alpha'], x['x'], p['beta'], x['y'], tmp), op)
            tmp.unregister(); self.temps.remove(tmp)
            return
        else:
            o = OPS[op]
            c = dict(p=p, dt=self.dtn, op=op)
            if blocking:
                if op == 'copy': return
                o.call_blocking(env, c, x)
                if env.stat('pending'): env.fail('blocking-returns-early', 'blocking %s left %d unfinished tasks' % (op, env.stat('pending')))
                return
            f = lambda: o.call(env, c, x)
        self.async_guard(f, op)
    def apply_model(self, op, T, p):
        w = T[target(op)]
        mag = max([1.0] + [self.mag.get(t, 1.0) for n, t in T.items() if t in self.st])
        if op == 'randn':
            # content from the implementation itself (C10 decides it); here only its flow
            y = self.env.new(self.shapes(w), self.shapes(w), self.dtn)
            self.env.nntile.tensor.randn_async(y, [0]*len(y.shape), list(y.shape), p['seed'], p['mean'], p['dev'])
            v = self.env.get(y, observe=False).astype(np.float64); y.unregister()
            self.st[w] = v; self.s32[w] = v; self.mag[w] = max(1, np.abs(v).max(initial=0)); return
        with np.errstate(all='ignore'):
            v = np.asarray(model(op, T, p, self.st, self.shapes), dtype=np.float64)
            v32 = np.asarray(model(op, T, p, self.s32, self.shapes), dtype=np.float64)
            sc = OPS[op].scale({n: self.st[t] if t in self.st else np.zeros(self.shapes(t)) for n, t in T.items()}, p) if op in OPS else None
        if not ok_value(v): raise core.Skip()
        sens = 1.0
        self.st[w] = v; self.s32[w] = self.low(v32)
        m = max(np.abs(v).max(initial=0), sc or 0)
        # errors of the operands are tracked through the second model; magnitude decays with overwriting
        self.mag[w] = max(1e-3, m, mag if op in ('sum_slice', 'sum_fiber', 'sumprod_slice', 'sumprod_fiber', 'gemm', 'normalize') else 0)
    def runnable(self, s):
        return definedness(s['op'], s['T'], s['p'], self.st)
    def step(self, s):
        env = self.env; k = s['k']
        if k == 'op':
            if not self.runnable(s): return
            self.call(s['op'], s['T'], s['p'], s.get('b') and not self.paused)
            if s['op'] == 'randn' and self.paused:
                self.spec_randn_later(s); return
            self.apply_model(s['op'], s['T'], s['p'])
        elif k == 'write':
            t = s['t']; a = core.adata(s['seed'], s['kind'], self.shapes(t))
            self.write(t, a, s['how'])
        elif k == 'read':
            if s['t'] in self.st: self.read(s['t'])
        elif k == 'wait': self.wait()
        elif k == 'pause': env.nntile.starpu.pause(); self.paused += 1
        elif k == 'resume':
            if self.paused: env.nntile.starpu.resume(); self.paused -= 1
        elif k == 'wont':
            if s['t'] in self.t: self.async_guard(self.t[s['t']].wont_use if len(s['t']) % 2 else self.t[s['t']].invalidate_submit, 'wont_use')
        elif k == 'print': self.print_(s['t'])
        elif k == 'where': getattr(env.nntile.starpu, 'restrict_' + s['w'])()
        elif k == 'drop': self.drop(s['t'], s['how'])
    def print_(self, t):
        if t not in self.st or self.shapes(t): return
        stdout()
        self.async_guard(self.t[t].print_scalar_async, 'print_scalar')
        self.printed.append((float(self.st[t]), self.tol(t)))
    def check_printed(self):
        if not self.printed: return
        got = sorted(float(l[7:]) for l in stdout(True).split('\n') if l.startswith('Value: '))
        want = sorted(self.printed)
        if len(got) != len(want): self.env.fail('printed', '%d scalars printed instead of %d' % (len(got), len(want)))
        for g, (v, tol) in zip(got, want):
            if not abs(g - v) <= 2*tol + 1e-5*abs(v): self.env.fail('program-value', 'printed scalar %r, program order gives %r' % (g, v))
        self.env.note('printed', len(got))
    def spec_randn_later(self, s):
        # the reference value needs a blocking read: use the sequence itself later
        self.st.pop(s['T']['x'], None)
    def write(self, t, a, how):
        env = self.env; dt = self.dt(t)
        x = self.tensor(t)
        v = np.asfortranarray(np.asarray(a).astype(env.NP[dt]).reshape(self.shapes(t) or [1], order='F'))
        if how == 'array': x.from_array(v)
        else: env.put(x, v)
        if how == 'array' and x.grid.nelems > 1 and False: pass
        self.st[t] = np.asarray(v, dtype=np.float64).reshape(self.shapes(t)); self.s32[t] = self.low(self.st[t]); self.mag[t] = max(1e-3, np.abs(self.st[t]).max(initial=0))
    def read(self, t):
        env = self.env; x = self.t[t]; dt = self.dt(t)
        r = np.zeros(list(x.shape) or [1], dtype=env.NP[dt], order='F')
        x.to_array(r)
        env.obs(r); self.outs.append((t, r.copy()))
        r2 = r.copy(); env.run_some(1)
        self.compare(t, r.reshape(x.shape), 'read')
    def wait(self):
        env = self.env
        while True:
            try:
                env.wait()
                break
            except KeyboardInterrupt:
                env.note('interrupted_waits')
        if env.stat('pending'): env.fail('wait-returns-early', 'wait_for_all returned with %d unfinished tasks' % env.stat('pending'))
    def drop(self, t, how):
        if t not in self.t: return
        x = self.t.pop(t); self.st.pop(t, None)
        if how != 'del': x.unregister()
        del x
    def finish(self):
        env = self.env
        while self.paused: env.nntile.starpu.resume(); self.paused -= 1
        for t in sorted(self.st): self.read(t)
        if self.spec.get('end') == 'del':
            self.t.clear()
        else:
            for t in sorted(self.t): self.t[t].unregister()
            self.t.clear()
        self.wait()
        self.check_printed()
        if env.alive(): env.viol('leak', '%d data handles alive after everything was dropped' % env.alive())

def run_on(prop, spec, env, knobs=None):
    outs = []
    with env.sess(knobs, spec.get('faults', [])) as s:
        s.start_runtime()
        P = Prog(env, spec)
        for st in spec['steps']:
            P.step(st)
        P.finish()
        outs = P.outs
        s.stop_runtime()
    return outs
def run(prop, spec, env):
    run_on(prop, spec, env)
