"""C18: the C++ tile interface, called through a C shim."""
import ctypes, os, copy, json
import numpy as np
import core, ops, nets, w_ops, w_prog, w_reject
from ops import OPS, T, D
DT = dict(fp32=0, fp64=1, int64=2, bool=3, fp16=4)
_l = None
def lib():
    global _l
    if _l is None:
        _l = ctypes.CDLL(os.environ['VERIF_SHIM'])
        P, L, I = ctypes.c_void_p, ctypes.c_long, ctypes.c_int
        _l.tile_new.restype = P; _l.tile_new.argtypes = [I, I, P, P, L, P, I]
        _l.tile_del.argtypes = [P, I, P, I]; _l.tile_io.argtypes = [P, I, P, I, P, I]
        _l.tile_call.argtypes = [ctypes.c_char_p, I, I, P, I, P, P, P, I]
    return _l
def warm():
    lib()
class Rejected(Exception): pass
def longs(v): return (ctypes.c_long*max(1, len(v)))(*[int(x) for x in v])
def checked(f, *a):
    e = ctypes.create_string_buffer(300); r = f(*a, e, 300)
    if r in (1, 2): raise (Rejected if r == 1 else MemoryError)(e.value.decode())
    if r == -1: raise AssertionError('no such operation')
class Tile:
    """one tile; with mem: over memory of the caller"""
    def __init__(self, shape, dt, mem=None, nel=None):
        self.shape, self.dt, self.mem = list(shape), dt, mem
        e = ctypes.create_string_buffer(300)
        self.p = lib().tile_new(DT[dt], len(shape), longs(shape), mem.ctypes.data if mem is not None else None, 0 if mem is None else (mem.size if nel is None else nel), e, 300)
        if not self.p: raise Rejected(e.value.decode())
    def drop(self, unregister=False):
        if self.p: p, self.p = self.p, None; checked(lib().tile_del, p, int(unregister))
    def unregister(self): self.drop(True)
    def __del__(self): self.drop()
    def from_array(self, a): 
        a = np.asfortranarray(a); checked(lib().tile_io, self.p, 1, a.ctypes.data, a.size % 2)
    def to_array(self, r, mode=0): checked(lib().tile_io, self.p, mode, r.ctypes.data, r.size % 2)
    def wont_use(self): pass
    invalidate_submit = wont_use
def put(env, x, a): x.from_array(np.asarray(a).astype(env.NP[x.dt]).reshape(x.shape or [1], order='F'))
def get(env, x, mode=0):
    r = np.zeros(x.shape or [1], dtype=env.NP[x.dt], order='F'); x.to_array(r, mode); env.obs(r); return r.reshape(x.shape)
# operation: (operands, scalars, integers)
O1 = lambda *n: (n, (), ())
TAB = {
 'add': (('x', 'y'), ('alpha', 'beta'), ()), 'add_fiber': (('f', 'x'), ('alpha', 'beta'), ('axis', 'batch')), 'add_scalar': (('x',), ('alpha', 'beta'), ()),
 'add_slice': (('s', 'x'), ('alpha', 'beta'), ('axis',)), 'add_slice3': (('s', 'x', 'y'), ('alpha', 'beta'), ('axis',)), 'addcdiv': (('n', 'd', 's'), ('alpha', 'eps'), ()),
 'axpy': (('x', 'y'), ('alpha',), ()), 'clear': O1('x'), 'dgelu': O1('x'), 'dgelutanh': O1('x'), 'drelu': O1('x'), 'fill': (('x',), ('val',), ()), 'gelu': O1('x'),
 'gelu_backward': O1('x', 'dy', 'dx'), 'gelutanh': O1('x', 'y'), 'gelutanh_backward': O1('x', 'dy', 'dx'), 'gelutanh_inplace': O1('x'),
 'gemm': (('A', 'B', 'C'), ('alpha', 'beta'), ('ta', 'tb', 'nk', 'nb')), 'hypot': (('x', 'y'), ('alpha', 'beta'), ()), 'logsumexp': O1('m', 'd'),
 'mask_scalar': (('m', 'x'), ('val',), ()), 'maximum': O1('x', 'y'), 'maxsumexp': (('x', 'd'), (), ('axis',)), 'norm_slice': (('x', 'd'), ('alpha', 'beta'), ('axis',)),
 'normalize': (('gb', 'x', 'y'), ('eps',), ('l', 'axis')), 'nrm2': (('x', 'y', 't'), ('alpha', 'beta'), ()), 'pow': (('x',), ('alpha', 'exp'), ()), 'prod': O1('x', 'y'),
 'prod_fiber': (('f', 'x'), ('alpha',), ('axis',)), 'prod_fiber3': (('f', 'x', 'y'), ('alpha',), ('axis',)), 'prod_slice': (('s', 'x'), ('alpha',), ('axis',)),
 'relu': O1('x'), 'relu_backward': O1('x', 'dy', 'dx'), 'relu_forward': O1('x', 'y'), 'scal': (('x', 'y'), ('alpha',), ()), 'scal_inplace': (('x',), ('alpha',), ()),
 'softmax': (('mse', 'x', 'y'), ('alpha',), ('axis',)), 'softmax_inplace': (('mse', 'x'), ('alpha',), ('axis',)), 'sqrt': O1('x', 'y'), 'sqrt_inplace': O1('x'),
 'subtract_indexed_outputs': (('l', 'x'), ('val',), ()), 'sum_fiber': (('x', 'd'), ('alpha', 'beta'), ('axis', 'batch')), 'sum_slice': (('x', 'd'), ('alpha', 'beta'), ('axis',)),
 'sumnorm': (('x', 'd'), (), ('axis',)), 'sumprod_fiber': (('x', 'y', 'd'), ('alpha', 'beta'), ('axis',)), 'sumprod_slice': (('x', 'y', 'd'), ('alpha', 'beta'), ('axis',)),
 'total_sum_accum': (('lse', 'x', 'l', 'v'), ('alpha',), ()),
 'fused_adam_step': (('g', 'm', 'v', 'p'), ('b1', 'b2', 'eps', 'lr', 'wd'), ('it',)), 'fused_adamw_step': (('g', 'm', 'v', 'p'), ('b1', 'b2', 'eps', 'lr', 'wd'), ('it',)),
 'copy': O1('x', 'y'), 'copy_intersection': None, 'randn': None}
class SumNormAdd(type(OPS['sumnorm'])):
    def ref(self, A, p):
        r = super().ref(A, p)['d']; return {'d': np.stack([A['d'][0] + r[0], np.hypot(A['d'][1], r[1])])}
    def scale(self, A, p): return super().scale(A, p) + 2
TOPS = dict(OPS, sumnorm=SumNormAdd())
REAL = sorted(o for o in TAB if o in OPS)
def call(op, dt, p, t, blocking):
    nm = {'fused_adam_step': 'adam_step', 'fused_adamw_step': 'adamw_step'}.get(op, op); sc = ()
    if op == 'copy_intersection': ns, ii = ('x', 'y', 'z'), [len(p['xo'])] + p['xo'] + [len(p['yo'])] + p['yo']
    elif op == 'randn': ns, ii, sc = ('x',), [p['seed'], len(p['start'])] + p['start'] + [len(p['under'])] + p['under'], (p['mean'], p['dev'])
    else:
        ns, s, i = TAB[op]; sc = [float(p[k]) for k in s]; ii = [p[k] for k in i]
        if op == 'axpy' and p.get('talpha'): ns, sc = ('a', 'x', 'y'), ()
    q = (ctypes.c_void_p*len(ns))(*[t[k].p for k in ns])
    checked(lib().tile_call, nm.encode(), DT[dt], int(bool(blocking)), q, len(ns), (ctypes.c_double*max(1, len(sc)))(*sc), longs(ii))

# ---------------------------------------------------------------- generation
def single(c):
    for t in c['T']:
        t['bt'] = list(t['shape'])
        if c['op'] == 'nrm2' and t['n'] == 't': t['shape'], t['bt'] = [], []
    c['p'].pop('redux', None)
    return c
def case(rng, op=None):
    op = op or rng.choice(REAL); c = OPS[op].gen(rng)
    if op == 'mask_scalar':
        m, x = c['T']; n = len(x['shape'])-1; c['p']['batch'] = 1
        m['shape'] = x['shape'][:n]
        if 'tie' in m: m['tie'] = x['tie'][:n]
    if op == 'sumnorm':
        # adds to what is there
        c['T'][1]['mode'] = 'rw'; c['T'][1]['kind'] = 'positive'
    return single(c)
def bad_case(rng):
    while True:
        r = rng.random()
        if r < 0.12: o = w_reject.FL[rng.choice(['copy', 'copy_intersection', 'randn'])]; c = single(o.gen(rng))
        else: c = case(rng)
        if c['op'] == 'copy_intersection' and c['T'][0]['shape'] and rng.random() < 0.3:
            c['why'] = 'scratch'; return c
        m = w_reject.mutations(rng, c)
        if m is None or m['why'].split()[0] in ('tile', 'dtype', 'class', 'uneven', 'perm'): continue
        if m['why'].startswith('subset') and [t['shape'] for t in m['T']] == [t['shape'] for t in c['T']]: continue
        if m['why'].startswith('batch') and c['op'] == 'mask_scalar': continue
        if m['op'] == 'nrm2' and m['why'].endswith('of x'): continue
        if m['op'] == 'randn' and m['why'].split()[0] == 'shape': continue
        # any extents have an intersection
        if m['op'] == 'copy_intersection' and m['why'].split()[0] == 'shape': continue
        return single(m) if m['op'] != 'nrm2' else m
def gen(prop, rng, tier):
    if rng.random() < 0.4:
        sp = w_prog.gen('C18', rng, tier); sp['k'] = 'prog'
        sp['steps'] = [s for s in sp['steps'] if s['k'] != 'print' and not (s['k'] == 'op' and s['op'] not in TAB and s['op'] not in ('scatter', 'gather', 'intersect'))]
        for s in sp['steps']:
            if s['k'] == 'op':
                s['p'].pop('redux', None)
                if s['op'] not in ('copy', 'scatter', 'gather', 'intersect', 'normalize', 'randn', 'nrm2') and rng.random() < 0.06: s['b'] = 1
        return sp
    st = []
    ops.TIES = True
    try:
        for _ in range(8):
            r = rng.random(); s = dict(seed=rng.getrandbits(31), blk=int(rng.random() < 0.3), fl=rng.choice([0, 0, 1, 2]))
            ops.WIDE = r < 0.55
            if r < 0.55: s.update(k='op', c=case(rng), mem=rng.getrandbits(8) if rng.random() < 0.4 else 0, pre=int(rng.random() < 0.4), post=int(rng.random() < 0.4))
            elif r < 0.8: s.update(k='bad', c=bad_case(rng))
            elif r < 0.87:
                c = single(w_reject.FL['copy_intersection'].gen(rng)); s.update(k='inter', c=c)
            elif r < 0.93: s.update(k='randn', c=single(w_reject.FL['randn'].gen(rng)), mean=ops.scal(rng), dev=rng.choice([1.0, 0.5, 2.0]))
            elif r < 0.97: s.update(k='mem', ds=[d[0] for d in ops.dims(rng)], dt=rng.choice(['fp32', 'fp64', 'int64', 'bool']), how=rng.choice(['short', 'shape', 'io', 'io']))
            else: s.update(k='conv', ds=[d[0] for d in ops.dims(rng)])
            for t in s.get('c', {}).get('T', []): t.pop('tie', None)
            st.append(s)
    finally:
        ops.TIES = ops.WIDE = False; ops.KEEP.clear()
    return dict(k='ops', steps=st)
def label(prop, spec): return ','.join((s['c']['op'] + ':' + s['k'] if 'c' in s else s.get('op', s['k'])) for s in spec['steps'])

# ----------------------------------------------------------------- execution
class Run:
    def __init__(self, env): self.env = env
    def guarded(self, what, f, blocking, paused=False):
        """the call waits exactly if it is a blocking one"""
        env = self.env; b, sl = env.stat('blocking_waits'), env.stat('starts')
        f()
        if blocking:
            if env.stat('pending'): env.fail('blocking-returns-early', 'blocking %s left %d unfinished tasks' % (what, env.stat('pending')))
        elif env.stat('blocking_waits') != b: env.fail('async-blocks', '%s waited for unfinished work' % what)
        elif paused and env.stat('starts') != sl: env.fail('runs-while-paused', 'a task ran while the workers were paused (%s)' % what)
    def op(self, s):
        env = self.env; c = s['c']; o = TOPS[c['op']]; A = ops.operands(c, core.adata); t, mem = {}, {}
        paused = s['fl'] == 2 and not s['blk']
        for i, d in enumerate(c['T']):
            dt = d.get('dt', c['dt']); n = d['n']
            a = np.asarray(A[n]).astype(env.NP[dt]).reshape(d['shape'] or [1], order='F')
            a = np.asfortranarray(a)
            if s['mem'] >> i & 1:
                mem[n] = a.copy(order='F'); t[n] = Tile(d['shape'], dt, mem[n])
            else:
                t[n] = Tile(d['shape'], dt)
                if d['mode'] != 'w': t[n].from_array(a)
        if paused: env.nntile.starpu.pause()
        if s['pre']:
            # work on the operands, not waited for
            for d in c['T']:
                if d['mode'] != 'w' and 'dt' not in d:
                    self.guarded('scal_inplace', lambda: call('scal_inplace', c['dt'], dict(alpha=-1.0), dict(x=t[d['n']]), 0), 0, paused)
                    self.guarded('scal_inplace', lambda: call('scal_inplace', c['dt'], dict(alpha=-1.0), dict(x=t[d['n']]), 0), 0, paused)
        self.guarded(c['op'], lambda: call(c['op'], c['dt'], c['p'], t, s['blk']), s['blk'], paused)
        got = dict(t)
        if s['post']:
            for d in c['T']:
                if d['mode'] != 'r' and not d.get('tmp'):
                    got[d['n']] = Tile(d['shape'], c['dt']); self.guarded('copy', lambda: call('copy', c['dt'], {}, dict(x=t[d['n']], y=got[d['n']]), 0), 0, paused)
        if paused: env.nntile.starpu.resume()
        out = {d['n']: get(env, got[d['n']], d['seed'] % 2*2) for d in c['T'] if not d.get('tmp')}
        w_ops.judge(env, c, o, A, out)
        for x in list(t.values()) + [y for n, y in got.items() if y is not t[n]]: x.drop(bool(s['seed'] & 1))
        for n, m in mem.items():
            if n in out and m.tobytes() != np.asarray(out[n]).astype(m.dtype).reshape(m.shape, order='F').tobytes(order='A') and not np.array_equal(m, out[n].reshape(m.shape, order='F'), equal_nan=m.dtype.kind == 'f'):
                env.fail('user-memory', 'memory under tile %s of %s does not hold the final values after the tile is gone' % (n, c['op']))
    def bad(self, s):
        env = self.env; c = s['c']; t, A = {}, {}
        for d in c['T']:
            dt = d.get('dt', c['dt']); t[d['n']] = Tile(d['shape'], dt); A[d['n']] = np.asarray(w_reject.content(s, d, dt)).astype(env.NP[dt]); put(env, t[d['n']], A[d['n']])
        if c['op'] == 'copy_intersection':
            n = len(c['T'][0]['shape'])
            t['z'] = Tile([max(1, 2*n-1)] if c['why'] == 'scratch' and s['seed'] % 2 else [2*n+2, 1] if c['why'] == 'scratch' else [max(1, 2*n)], 'int64')
        if c['op'] == 'randn': c = dict(c, p=dict(c['p'], seed=5, mean=0.0, dev=1.0))
        z = None; fl = s['fl'] if not s['blk'] or s['fl'] < 2 else 1
        if fl:
            if fl == 2: env.nntile.starpu.pause()
            z = Tile([4, 4], 'fp32'); call('fill', 'fp32', dict(val=2.0), dict(x=z), 0)
            for x in t.values():
                if x.dt in ('fp32', 'fp64'): call('scal_inplace', x.dt, dict(alpha=1.0), dict(x=x), 0)
        before = w_reject.snapshot(env); exc = None; p = {k: v for k, v in c['p'].items()}
        try: call(c['op'], c['dt'], p, t, s['blk'])
        except Rejected as e: exc = e
        after = w_reject.snapshot(env)
        if fl == 2: env.nntile.starpu.resume()
        desc = 'tile %s(%s) on %s' % (c['op'], c['p'], ', '.join('%s %s' % (d['n'], d['shape']) for d in c['T']))
        if exc is None: env.fail('accepted-invalid:%s:%s' % (c['op'], c['why'].split()[0]), '%s was accepted although wrong: %s' % (desc, c['why']))
        if after[1:] != before[1:]: env.fail('rejected-late:' + c['op'], '%s submitted %d tasks before it was rejected' % (desc, after[1]-before[1]))
        if after[0] != before[0]: env.fail('rejected-leak:' + c['op'], '%s left %d data handles behind' % (desc, after[0]-before[0]))
        for d in c['T']:
            if not np.array_equal(get(env, t[d['n']]), A[d['n']].reshape(d['shape'])): env.fail('rejected-changed:' + c['op'], '%s changed %s' % (desc, d['n']))
        if z is not None:
            if not (get(env, z) == 2).all(): env.fail('rejected-disturbs:' + c['op'], 'work in flight gave wrong values after a rejected call')
            z.drop()
        for x in t.values(): x.drop()
    def inter(self, s):
        env = self.env; c = s['c']; t, A = {}, {}
        for d in c['T']: t[d['n']] = Tile(d['shape'], c['dt']); A[d['n']] = np.asarray(w_reject.content(s, d, c['dt'])).astype(env.NP[c['dt']]); put(env, t[d['n']], A[d['n']])
        n = len(c['T'][0]['shape']); t['z'] = Tile([max(1, 2*n + s['seed'] % 2)], 'int64')
        self.guarded('copy_intersection', lambda: call('copy_intersection', c['dt'], c['p'], t, s['blk']), s['blk'])
        xo, yo = c['p']['xo'], c['p']['yo']; e = A['y'].copy(); a, b = [], []
        for i in range(n):
            lo, hi = max(xo[i], yo[i]), min(xo[i]+A['x'].shape[i], yo[i]+A['y'].shape[i])
            hi = max(lo, hi); a.append(slice(lo-xo[i], hi-xo[i])); b.append(slice(lo-yo[i], hi-yo[i]))
        if all(k.stop > k.start for k in a): e[tuple(b)] = A['x'][tuple(a)]
        g, x = get(env, t['y']), get(env, t['x'])
        if not np.array_equal(g, e): env.fail('intersection', 'tile copy_intersection at %s, %s of %s into %s moved other elements' % (xo, yo, A['x'].shape, A['y'].shape))
        if not np.array_equal(x, A['x']): env.fail('intersection', 'tile copy_intersection changed its source')
        for x in t.values(): x.drop()
    def randn(self, s):
        """a sub-array equals that part of the whole"""
        env = self.env; c = s['c']; d = c['T'][0]; p = c['p']; q = dict(seed=s['seed'] % 1000, mean=s['mean'], dev=s['dev'])
        if int(np.prod(p['under'])) > 6000: return
        x, y = Tile(d['shape'], c['dt']), Tile(p['under'], c['dt'])
        self.guarded('randn', lambda: call('randn', c['dt'], dict(q, start=p['start'], under=p['under']), dict(x=x), s['blk']), s['blk'])
        call('randn', c['dt'], dict(q, start=[0]*len(p['under']), under=p['under']), dict(x=y), 0)
        g, w = get(env, x), get(env, y)
        r = w[tuple(slice(a, a+n) for a, n in zip(p['start'], d['shape']))]
        if not np.array_equal(g, r): env.fail('randn', 'random fill of a part differs from that part of the whole')
        if not np.isfinite(w).all(): env.fail('randn', 'random fill gives infinite values')
        x.drop(); y.drop()
    def mem(self, s):
        env = self.env; sh, dt = s['ds'], s['dt']; a = np.array(w_reject.content(s, dict(n='x', shape=sh), dt), dtype=env.NP[dt], order='F'); env.wait(); before = env.alive()
        try:
            if s['how'] == 'short': Tile(sh, dt, a, a.size-1)
            elif s['how'] == 'shape': Tile(sh[:-1] + [-(s['seed'] % 2)], dt)
        except Rejected: pass
        else:
            if s['how'] != 'io': env.fail('accepted-invalid:tile', 'a tile %s was admitted (%s)' % (sh, s['how']))
        if s['how'] == 'io':
            m = a.copy(order='F'); x = Tile(sh, dt, m)
            if not np.array_equal(get(env, x), a): env.fail('user-memory', 'a tile over given memory does not start with its content')
            b = np.array(a[tuple(slice(None, None, -1) for _ in sh)], order='F'); x.from_array(b)
            y = Tile(sh, dt)
            if dt != 'bool': call('copy', dt, {}, dict(x=x, y=y), 0)
            else: y.from_array(b)
            g = get(env, y, 2); x.drop(); y.drop()
            if not (np.array_equal(m, b) and np.array_equal(g, b)): env.fail('user-memory', 'values written to a tile are lost')
        if env.alive() != before: env.fail('leak', '%d data handles more' % (env.alive() - before))
    def conv(self, s):
        """half precision needs a GPU: on a machine without one the conversion is refused"""
        env = self.env; x, y = Tile(s['ds'], 'fp32'), Tile(s['ds'], 'fp16'); put(env, x, np.zeros(s['ds']))
        try: call('fp32_to_fp16', 'fp32', {}, dict(x=x, y=y), s['blk'])
        except Rejected: env.note('conversion_refused')
        x.drop(); y.drop()
TAB['fp32_to_fp16'] = O1('x', 'y')
class TProg(w_prog.Prog):
    def tensor(self, t):
        if t not in self.t: self.t[t] = Tile(self.shapes(t), self.dt(t))
        return self.t[t]
    def call(self, op, T, p, blocking=False):
        x = {n: self.tensor(t) for n, t in T.items()}; tmp = []; q = dict(p)
        if op in ('scatter', 'gather'): op = 'copy'
        elif op == 'intersect':
            n = len(x['x'].shape); op = 'copy_intersection'; tmp = [Tile([2*n], 'int64')]; x['z'] = tmp[0]; q = dict(xo=[o+5 for o in p['off']], yo=[5]*n)
        elif op == 'normalize': x = dict(gb=x['gb'], x=x['s'], y=x['y']); q = dict(p, l=self.shapes(T['y'])[p['axis']])
        elif op == 'randn': n = self.shapes(T['x']); q = dict(p, start=[0]*len(n), under=n)
        elif op == 'nrm2': tmp = [Tile([], self.dtn)]; x['t'] = tmp[0]
        elif op == 'sumnorm': self.async_guard(lambda: call('clear', self.dtn, {}, dict(x=x['d']), 0), 'clear')
        f = lambda: call(op, self.dtn, q, x, blocking)
        if blocking:
            f()
            if self.env.stat('pending'): self.env.fail('blocking-returns-early', 'blocking %s left %d unfinished tasks' % (op, self.env.stat('pending')))
        else: self.async_guard(f, op)
        self.temps += tmp # dropping a tile waits for the work on it
    def finish(self):
        while self.paused: self.env.nntile.starpu.resume(); self.paused -= 1
        for t in self.temps: t.drop()
        super().finish()
    def apply_model(self, op, T, p):
        if op != 'randn': return super().apply_model(op, T, p)
        w = T['x']; n = self.shapes(w); y = Tile(n, self.dtn)
        call('randn', self.dtn, dict(p, start=[0]*len(n), under=n), dict(x=y), 0)
        v = get(self.env, y).astype(np.float64); y.drop()
        self.st[w] = v; self.s32[w] = v; self.mag[w] = max(1, np.abs(v).max(initial=0))
    def write(self, t, a, how):
        env = self.env; v = np.asarray(a).astype(env.NP[self.dt(t)]); put(env, self.tensor(t), v)
        self.st[t] = np.asarray(v, dtype=np.float64).reshape(self.shapes(t)); self.s32[t] = self.low(self.st[t]); self.mag[t] = max(1e-3, np.abs(self.st[t]).max(initial=0))
def run(prop, spec, env):
    with env.sess() as s:
        s.start_runtime()
        if spec['k'] == 'prog':
            P = TProg(env, spec)
            for st in spec['steps']: P.step(st)
            P.finish()
        else:
            R = Run(env)
            for st in spec['steps']: getattr(R, st['k'])(st)
            env.wait()
            if env.alive(): env.viol('leak', '%d data handles alive after everything was dropped' % env.alive())
        s.stop_runtime()
