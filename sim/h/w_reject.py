"""C09: operands that do not fit are rejected before anything happens; operands that fit are accepted."""
import numpy as np, math, copy
import ops, core, nets
from ops import OPS, T, D
from nets import divext, ext, prod, cdiv
def warm(): pass

class Flash(ops.Op):
    def operands_(self, rng):
        h = rng.choice([1, 2, 3])
        hs = D((h, h)); s = D(divext(rng, 6)); b = D(divext(rng, 3)); n = D(divext(rng, 3)); k = D((s[1]*rng.choice([1, 2, s[0]//s[1]]), s[1]))
        return hs, s, k, b, n
    EVEN = True
class FlashMax(Flash):
    name = 'flash_maxsumexp'
    def gen(self, rng):
        hs, s, k, b, n = self.operands_(rng)
        return dict(op=self.name, dt=ops.fdt(rng), p={}, T=[T('q', [hs, s, b, n], 'normal', rng), T('k', [hs, k, b, n], 'normal', rng), T('m', [k, s], 'bool', rng, dt='bool'), T('d', [D((2, 2)), s, b, n], 'normal', rng, 'rw', fix=0), T('t', [k, s, b, n], 'normal', rng, 'rw')])
    def args(self, t, p): return (t['q'], t['k'], t['m'], t['d'], t['t'], 0)
class FlashGemm(Flash):
    name = 'flash_softmax_gemm'
    def gen(self, rng):
        hs, s, k, b, n = self.operands_(rng)
        return dict(op=self.name, dt=ops.fdt(rng), p={}, T=[T('q', [hs, s, b, n], 'normal', rng), T('k', [hs, k, b, n], 'normal', rng), T('v', [hs, k, b, n], 'normal', rng), T('m', [k, s], 'bool', rng, dt='bool'), T('e', [D((2, 2)), s, b, n], 'normal', rng, 'r', fix=0), T('d', [hs, s, b, n], 'normal', rng, 'rw'), T('t', [k, s, b, n], 'normal', rng, 'rw')])
    def args(self, t, p): return (t['q'], t['k'], t['v'], t['m'], t['e'], t['d'], t['t'], 0)
class FlashBack(Flash):
    name = 'flash_softmax_gemm_backward'
    def gen(self, rng):
        hs, s, k, b, n = self.operands_(rng); k = s; Q, K = [hs, s, b, n], [hs, k, b, n]
        return dict(op=self.name, dt=ops.fdt(rng), p={}, T=[T('q', Q, 'normal', rng), T('dq', Q, 'normal', rng, 'rw'), T('k', K, 'normal', rng), T('dk', K, 'normal', rng, 'rw'), T('v', K, 'normal', rng), T('dv', K, 'normal', rng, 'rw'), T('m', [k, s], 'bool', rng, dt='bool'), T('e', [D((2, 2)), s, b, n], 'normal', rng, 'r', fix=0), T('g', Q, 'normal', rng), T('t', [k, s, b, n], 'normal', rng, 'rw'), T('u', [k, s, b, n], 'normal', rng, 'rw'), T('z', [s, b, n], 'normal', rng, 'rw')])
    def args(self, t, p): return (t['q'], t['dq'], t['k'], t['dk'], t['v'], t['dv'], t['m'], t['e'], t['g'], t['t'], t['u'], t['z'], 0)
FL = {o.name: o for o in (FlashMax(), FlashGemm(), FlashBack())}
class Move(ops.Op):
    def call(self, env, c, t): getattr(env.nntile.tensor, c['op'] + '_async')(*self.args(t, c['p']))
class Copy(Move):
    name = 'copy'
    def gen(self, rng):
        ds = ops.dims(rng); return dict(op=self.name, dt=rng.choice(['fp32', 'fp64', 'int64']), p={}, T=[T('x', ds, 'int', rng), T('y', ds, 'int', rng, 'rw')])
    def args(self, t, p): return (t['x'], t['y'])
class Scatter(Move):
    name = 'scatter'
    def gen(self, rng):
        ds = ops.dims(rng); o = [D((a, a)) for a, b in ds]; l = [T('x', o, 'int', rng), T('y', ds, 'int', rng, 'rw')]
        if ops.TIES:
            # tied in extent; the tiling of one side is free, that of the other is the whole
            l[0]['tie'] = l[1]['tie']; l[0]['whole'] = 1; l[1]['freetile'] = 1
        return dict(op=self.name, dt=rng.choice(['fp32', 'fp64', 'int64']), p={}, T=l)
    def args(self, t, p): return (t['x'], t['y'])
class Gather(Scatter):
    name = 'gather'
    def gen(self, rng):
        c = super().gen(rng); c['op'] = 'gather'; x, y = c['T']; x['n'], y['n'] = 'y', 'x'; x['mode'], y['mode'] = 'rw', 'r'; c['T'] = [y, x]; return c
class Inter(Move):
    name = 'copy_intersection'
    def gen(self, rng):
        ds = ops.dims(rng); es = [D(ops.dim(rng)) for _ in ds]
        return dict(op=self.name, dt=rng.choice(['fp32', 'fp64', 'int64']), p=dict(xo=[rng.randint(0, 3) for _ in ds], yo=[rng.randint(0, 3) for _ in ds]), T=[T('x', ds, 'int', rng), T('y', es, 'int', rng, 'rw')])
    def args(self, t, p): return (t['x'], p['xo'], t['y'], p['yo'])
class Randn(Move):
    name = 'randn'
    def gen(self, rng):
        ds = ops.dims(rng); st = [rng.randint(0, 4) for _ in ds]
        return dict(op=self.name, dt=ops.fdt(rng), p=dict(start=st, under=[s + n + rng.randint(0, 2) for s, (n, t) in zip(st, ds)]), T=[T('x', ds, 'normal', rng, 'rw')])
    def args(self, t, p): return (t['x'], p['start'], p['under'], 5, 0.0, 1.0)
for o in (Copy(), Scatter(), Gather(), Inter(), Randn()): FL[o.name] = o
def op_of(n): return FL.get(n) or OPS[n]
ALL = sorted((set(OPS) | set(FL)) - {'half', 'gemm_half'})

GROUPS = [('v', 'dv'), ('t', 'u'), ('k', 'dk', 'v', 'dv'), ('k', 'dk'), ('q', 'dq', 'g'), ('k', 'v', 'dk', 'dv', 'm')]
def mutations(rng, c):
    """one change that makes the operands of a valid case not fit; None if this draw has no such change"""
    o = op_of(c['op']); c = copy.deepcopy(c); p = c['p']; Ts = c['T']
    ties = {}
    for t in Ts:
        for k in t['tie']: ties[k] = ties.get(k, 0) + 1
    bound = lambda t, i: t.get('fix') == i or t['tie'][i] == 0 or ties[t['tie'][i]] > 1
    ks = ['shape', 'shape', 'tile', 'tile', 'ndim', 'dtype'] if len(Ts) > 1 else []
    if c['op'] == 'copy_intersection': ks = ['ndim', 'dtype', 'off', 'off']
    if c['op'] == 'randn': ks = ['start', 'under', 'off']
    if 'axis' in p: ks += ['axis', 'axis']
    if 'batch' in p: ks += ['batch', 'batch']
    if c['op'] == 'gemm': ks += ['nk', 'nb', 'nkb']
    if c['op'] == 'transpose': ks += ['perm']
    if c['op'] == 'normalize': ks += ['eps', 'l']
    if getattr(o, 'EVEN', 0): ks += ['uneven', 'ndims', 'ktile'] + ['subset']*3
    elif len(Ts) > 2: ks += ['subset', 'subset']
    if c['op'] in ('total_sum_accum', 'subtract_indexed_outputs'): ks += ['class']
    if not ks: return None
    k = rng.choice(ks); what = k
    if k in ('shape', 'tile'):
        t = rng.choice([t for t in Ts if t['shape']] or [None])
        if not t: return None
        i = rng.randrange(len(t['shape']))
        # the vocabulary and the embeddings agree in an extent, not in its tiles
        emb = c['op'] in ('embedding', 'embedding_backward') and (t['n'] == 'v' and i == 0 or t['n'] == 'e' and i == p['axis'])
        if not (bound(t, i) or emb): return None
        n, b = t['shape'][i], t['bt'][i]
        if k == 'shape':
            m = n + rng.choice([-1, 1, 1, 2])
            if getattr(o, 'EVEN', 0): m = n + b*rng.choice([-1, 1])
            if t.get('fix') == i: m = rng.choice([1, 1, 3, 3, 4, 5])
            if m < 1: return None
            if t.get('whole') or (b == n and t['tie'][i] == 0 and rng.random() < (0.2 if emb else 0.5)): b = m
            t['shape'][i] = m; t['bt'][i] = min(b, m)
            # embedding: other vocabulary tiles stay admissible, the extent does not
        else:
            if t.get('freetile') or n == 1: return None
            if c['op'] in ('embedding', 'embedding_backward') and ((t['n'] == 'v') or (t['n'] == 'e' and i == p['axis'])):
                v = next(x for x in Ts if x['n'] == 'v'); e = next(x for x in Ts if x['n'] == 'e')
                q = [m for m in range(1, n+1) if (e['bt'][p['axis']] % m if t['n'] == 'v' else m % v['bt'][0])]
                if t['n'] == 'v' and i: return None
            else: q = [m for m in range(1, n+1) if m != b]
            if c['op'] == 'gather' and t['n'] == 'x': return None
            if c['op'] == 'gather' and t['n'] == 'y' or c['op'] == 'scatter' and t['n'] == 'x': q = [m for m in range(1, n) if m < n]
            if getattr(o, 'EVEN', 0): q = [m for m in q if n % m == 0]
            if not q: return None
            t['bt'][i] = rng.choice(q)
        what += ' of dimension %d of %s' % (i, t['n'])
    elif k == 'ndim':
        t = rng.choice(Ts)
        # one more dimension of a source of a fiber is one more to sum over or spread along
        if 'fiber' in c['op'] and t['n'] in ('x', 'y') and c['op'] not in ('sumprod_fiber', 'prod_fiber3'): return None
        if t['shape'] and rng.random() < 0.5: i = rng.choice([len(t['shape'])-1, rng.randrange(len(t['shape']))]); del t['shape'][i], t['bt'][i]
        else: i = rng.choice([len(t['shape']), rng.randint(0, len(t['shape']))]); t['shape'].insert(i, rng.choice([1, 2])); t['bt'].insert(i, 1)
        if c['op'] == 'copy_intersection' and rng.random() < 0.5:
            q = p['xo' if t['n'] == 'x' else 'yo']; q[:] = (q + [0])[:len(t['shape'])]
        what += ' of %s' % t['n']
    elif k == 'ndims':
        # flash attention: several operands, perhaps all, get or lose a dimension
        pos = rng.choice([0, 2, 3, 99]); less = rng.random() < 0.3; S = rng.sample(Ts, rng.choice([len(Ts), rng.randint(1, len(Ts))])); r0 = rng.choice(Ts)['tie']
        # often all those that have the same dimensions
        if rng.random() < 0.5: S = [t for t in Ts if t['tie'] == r0]
        elif rng.random() < 0.5:
            g = rng.choice(GROUPS); S = [t for t in Ts if t['n'] in g] or S
        for t in S:
            i = min(pos, len(t['shape']) - less)
            if less: del t['shape'][i], t['bt'][i]
            else: t['shape'].insert(i, 1); t['bt'].insert(i, 1)
        what += ' of ' + ' '.join(t['n'] for t in S)
    elif k == 'ktile':
        # flash attention: sequences of queries and keys in tiles of different size
        t = next(t for t in Ts if t['n'] == 'k'); tie = t['tie'][1]; n, b = t['shape'][1], t['bt'][1]
        if tie == next(t for t in Ts if t['n'] == 'q')['tie'][1]: return None
        q = [m for m in range(1, n+1) if m != b and n % m == 0]
        if not q: return None
        m = rng.choice(q)
        for u in Ts:
            for j, x in enumerate(u['tie']):
                if x == tie: u['bt'][j] = m
    elif k == 'subset':
        # some of the operands agree on another extent or tile than the others
        tie = rng.choice([x for x in ties if x and ties[x] > 2] or [0])
        occ = [(u, j) for u in Ts for j, x in enumerate(u['tie']) if x == tie and tie and not (u.get('whole') or u.get('freetile'))]
        if len(occ) < 3: return None
        S = rng.sample(occ, rng.randint(2, len(occ)-1)); r0 = rng.choice(occ)[0]['tie']
        if rng.random() < 0.4: S = [x for x in occ if x[0]['tie'] == r0] if any(x[0]['tie'] != r0 for x in occ) else S
        if rng.random() < 0.3:
            q = rng.choice(GROUPS); S = [x for x in occ if x[0]['n'] in q] or S
            if rng.random() < 0.5: i = rng.choice(S)[1]; S = [x for x in S if x[1] == i]
        u, j = occ[0]; n, b = u['shape'][j], u['bt'][j]
        if any((v['shape'][i], v['bt'][i]) != (n, b) for v, i in occ): return None
        if rng.random() < 0.5:
            m = n + (b*rng.choice([-1, 1]) if getattr(o, 'EVEN', 0) else rng.choice([-1, 1, 2]))
            if m < 1: return None
            if b == n and rng.random() < 0.5: b = m
        else:
            q = [m for m in range(1, n+1) if m != b and (n % m == 0 or not getattr(o, 'EVEN', 0))]
            if not q or c['op'] in ('embedding', 'embedding_backward'): return None
            m, b = n, rng.choice(q)
        for u, j in S: u['shape'][j] = m; u['bt'][j] = min(b, m)
        what += ' ' + ' '.join('%s[%d]' % (u['n'], j) for u, j in S)
    elif k == 'dtype':
        f = [t for t in Ts if t.get('dt', c['dt']) in ('fp32', 'fp64', 'int64')]
        t = rng.choice(f); d = t.get('dt', c['dt'])
        if d == 'int64' and 'dt' not in t: d2 = 'fp32'
        else: d2 = dict(fp32='fp64', fp64='fp32', int64='fp32')[d]
        # only the operands of the number type of the operation have to agree
        if sum('dt' not in t for t in Ts) < 2 and 'dt' not in t: return None
        t['dt'] = d2; what += ' of %s' % t['n']
    elif k == 'axis':
        big = max((t for t in Ts if t['n'] not in ('gb',)), key=lambda t: len(t['shape'])); n = len(big['shape'])
        if c['op'] in ('embedding', 'embedding_backward'): hi = n
        elif 'batch' in p and c['op'] != 'mask_scalar': hi = n - p['batch']
        elif c['op'] in ('normalize', 'softmax', 'softmax_inplace', 'maxsumexp', 'sumnorm'): hi = n
        else: hi = n
        p['axis'] = rng.choice([-1, -1, hi, hi, hi+1, hi+5, -2**40])
        if c['op'] in ('embedding', 'embedding_backward') and 0 <= p['axis'] < hi: return None
    elif k == 'batch': p['batch'] += rng.choice([-1, 1, 1, -3, 7])
    elif k == 'nk': p['nk'] += rng.choice([-1, 1, -4, 9])
    elif k == 'nb': p['nb'] += rng.choice([-1, 1, -4, 9])
    elif k == 'nkb':
        # keeps the sum of dimensions right but one number negative
        d = rng.choice([1, 2])
        if p['nb'] - 2*d < 0: p['nk'] += d; p['nb'] -= 2*d
        elif p['nk'] - d < 0: p['nk'] -= d; p['nb'] += 2*d
        else: return None
    elif k == 'perm': p['ndim'] = rng.choice([0, -1, len(Ts[0]['shape']), len(Ts[0]['shape'])+1])
    elif k == 'eps': p['eps'] = rng.choice([0.0, -1e-3, -1.0])
    elif k == 'l': p['l'] = rng.choice([0, -1, -5])
    elif k == 'off':
        q = rng.choice([x for x in ('xo', 'yo', 'start', 'under') if x in p])
        if p[q] and rng.random() < 0.5: p[q].pop()
        else: p[q].append(0 if q != 'under' else 9)
        what += ' ' + q
    elif k == 'start':
        if not p['start']: return None
        p['start'][rng.randrange(len(p['start']))] = rng.choice([-1, -2, 10**6])
    elif k == 'under':
        if not p['start']: return None
        i = rng.randrange(len(p['start'])); p['under'][i] = rng.choice([p['start'][i] + Ts[0]['shape'][i] - 1, 0, -4])
    elif k == 'class':
        t = next(t for t in Ts if t['n'] == 'x')
        if t['shape'][0] < 2: return None
        t['bt'][0] = rng.randint(1, t['shape'][0]-1)
    elif k == 'uneven':
        # every operand agrees, but the last tile would be smaller
        t = rng.choice(Ts); i = rng.randrange(len(t['shape'])); tie = t['tie'][i]
        n, b = t['shape'][i], t['bt'][i]
        if b == 1 or t.get('fix') == i: return None
        m = n + 1 if t['n'] != 'q' or i else None
        if m is None: return None
        for u in Ts:
            for j, q in enumerate(u['tie']):
                if q == tie: u['shape'][j] = m; u['bt'][j] = b
        what += ' %s' % t['n']
    # a changed number type or shape of data that does not matter any more
    c['why'] = what
    return c
EXTRA = ['from_array', 'to_array', 'traits', 'distribution']
def gen(prop, rng, tier):
    ops.TIES = True
    try:
        st = []
        while len(st) < 8:
            r = rng.random()
            if r < 0.12:
                ds = ops.dims(rng, 1); st.append(dict(k=rng.choice(EXTRA), ds=[list(d) for d in ds], dt=rng.choice(['fp32', 'fp64', 'int64', 'bool']), v=rng.randrange(100), q=rng.getrandbits(20)))
                continue
            # often all extents and tiles are the same, so that a misfit does not show in them
            if rng.random() < 0.4: n = rng.randint(1, 6); ops.SAME = (n, rng.randint(1, n)); ops.tries = 0
            try: o = op_of(rng.choice(ALL)); c = o.gen(rng)
            finally: ops.SAME = None
            s = dict(k='op', seed=rng.getrandbits(31), fl=rng.choice([0, 0, 1, 2]), blk=int(rng.random() < 0.25))
            if r < 0.25 and o.name != 'nrm2' or r < 0.2: s.update(ok=1, c=c)
            else:
                m = mutations(rng, c)
                if m is None: continue
                s.update(ok=0, c=m, good=c if rng.random() < 0.3 and o.name in OPS else None)
            for t in s['c']['T'] + (s['good']['T'] if s.get('good') else []): t.pop('tie', None)
            st.append(s)
    finally:
        ops.TIES = False; ops.KEEP.clear()
    return dict(steps=st)
def label(prop, spec): return ','.join(('%s:%s' % (s['c']['op'], 'ok' if s['ok'] else s['c']['why'].split()[0])) if s['k'] == 'op' else s['k'] for s in spec['steps'])

def content(s, d, dt):
    r = np.random.default_rng([s['seed'], nets.hash_tag(d['n'])])
    n = d['shape']
    if dt == 'bool': return r.random(n) < 0.5
    if dt == 'int64': return r.integers(0, d.get('hi', 5), n)
    return r.random(n) + 0.5
def snapshot(env): return env.alive(), int(core.sim().sim_site(0)), int(core.sim().sim_site(core.F_IX['copy']))
def op_step(env, s):
    c = s['c']; o = op_of(c['op']); t, A = {}, {}
    for d in c['T']:
        dt = d.get('dt', c['dt']); x = env.new(d['shape'], d['bt'], dt); t[d['n']] = x
        A[d['n']] = np.asarray(content(s, d, dt)).astype(env.NP[dt]); env.put(x, A[d['n']])
    if s['ok']: o.prepare(c, t)
    z = None
    if s['fl']:
        # other work is in flight, also on the operands themselves
        if s['fl'] == 2: env.nntile.starpu.pause()
        z = env.new([4, 4], [2, 2], 'fp32'); env.nntile.tensor.fill_async(2.0, z)
        for x in t.values():
            if env.dt(x) in ('fp32', 'fp64'): env.nntile.tensor.scal_inplace_async(1.0, x)
    before = snapshot(env); exc = None
    try:
        blk = s['blk'] and s['fl'] != 2 and not (s['ok'] and o.name == 'nrm2')
        if s['ok'] and s['fl'] == 2 and o.name == 'nrm2': env.nntile.starpu.resume(); s = dict(s, fl=1)
        if blk and o.name in FL: getattr(env.nntile.nntile_core.tensor, '%s_%s' % (c['op'], c['dt']))(*o.args(t, c['p']), *((0,) if o.name.startswith('flash') else ()))
        elif blk: o.call_blocking(env, c, t)
        else: o.call(env, c, t)
    except Exception as e: exc = e
    after = snapshot(env)
    if s['fl'] == 2: env.nntile.starpu.resume()
    desc = '%s(%s) on %s' % (c['op'], c['p'], ', '.join('%s %s/%s %s' % (d['n'], d['shape'], d['bt'], d.get('dt', c['dt'])) for d in c['T']))
    if s['ok']:
        if exc: env.fail('rejected-valid:' + c['op'], '%s raised %s: %s' % (desc, type(exc).__name__, exc))
    else:
        why = c['why']
        if exc is None: env.fail('accepted-invalid:%s:%s' % (c['op'], why.split()[0]), '%s was accepted although wrong: %s' % (desc, why))
        if isinstance(exc, (MemoryError, SystemError, RecursionError)): env.fail('rejected-badly:' + c['op'], '%s: %r' % (desc, exc))
        if after[1:] != before[1:]: env.fail('rejected-late:' + c['op'], '%s submitted %d tasks before it was rejected' % (desc, after[1]-before[1]))
        if after[0] != before[0]: env.fail('rejected-leak:' + c['op'], '%s left %d data handles behind' % (desc, after[0]-before[0]))
        for d in c['T']:
            g = env.get(t[d['n']])
            if g.tobytes() != A[d['n']].reshape(g.shape, order='F').tobytes() and not np.array_equal(g, A[d['n']].reshape(g.shape)): env.fail('rejected-changed:' + c['op'], '%s changed %s' % (desc, d['n']))
    if z is not None:
        if not (env.get(z) == 2).all(): env.fail('rejected-disturbs:' + c['op'], 'work in flight gave wrong values after a rejected call')
        z.unregister()
    for x in t.values(): x.unregister()
    if not s['ok'] and s['good']:
        import w_ops
        w_ops.step(env, dict(s['good'], blocking=0))
def extra_step(env, s):
    nt = env.nntile.tensor; r = __import__('random').Random(s['q']); sh, bt = [d[0] for d in s['ds']], [d[1] for d in s['ds']]; dt = s['dt']
    if s['k'] in ('from_array', 'to_array'):
        x = env.new(sh, bt, dt); a = np.asarray(content(dict(seed=s['q']), dict(n='x', shape=sh), dt)).astype(env.NP[dt]); env.put(x, a)
        w = list(sh)
        m = r.randrange(3)
        if m == 0: w[r.randrange(len(w))] += r.choice([-1, 1])
        elif m == 1: w.append(r.choice([1, 2]))
        else: w = w[:-1]
        w = [max(0, v) for v in w]
        b = np.zeros(w, dtype=env.NP[dt], order='F'); before = snapshot(env)
        try: getattr(x, s['k'])(b); exc = None
        except Exception as e: exc = e
        if exc is None: env.fail('accepted-invalid:' + s['k'], '%s of an array of shape %s was accepted by a tensor of shape %s' % (s['k'], w, sh))
        if snapshot(env) != before: env.fail('rejected-late:' + s['k'], 'something was submitted or left behind by a rejected %s (array %s, tensor %s)' % (s['k'], w, sh))
        g = env.get(x)
        if not np.array_equal(g, a): env.fail('rejected-changed:' + s['k'], 'a rejected %s changed the tensor' % s['k'])
        x.unregister()
    elif s['k'] == 'traits':
        before = snapshot(env); m = r.randrange(4); sh2, bt2 = list(sh), list(bt); i = r.randrange(len(sh))
        if m == 0: bt2[i] = r.choice([0, -1])
        elif m == 1: sh2[i] = r.choice([0, -1, -3])
        elif m == 2: bt2.pop()
        else: bt2.append(1)
        try: nt.TensorTraits(sh2, bt2); exc = None
        except Exception as e: exc = e
        if exc is None: env.fail('accepted-invalid:traits', 'a tensor of shape %s in tiles %s is admitted' % (sh2, bt2))
        if snapshot(env) != before: env.fail('rejected-late:traits', 'something was left behind')
    else:
        tr = nt.TensorTraits(sh, bt); before = snapshot(env); n = tr.grid.nelems
        try: env.cls(dt)(tr, [0]*(n + r.choice([-1, 1, n])), env.tag); exc = None
        except Exception as e: exc = e
        if exc is None: env.fail('accepted-invalid:distribution', 'a distribution of wrong length is admitted')
        del tr
        if snapshot(env) != before: env.fail('rejected-leak:distribution', 'data handles were left behind')
def run(prop, spec, env):
    with env.sess() as s:
        s.start_runtime()
        for c in spec['steps']:
            (op_step if c['k'] == 'op' else extra_step)(env, c)
        env.wait()
        if env.alive(): env.viol('leak', '%d data handles alive after everything was unregistered' % env.alive())
        s.stop_runtime()
