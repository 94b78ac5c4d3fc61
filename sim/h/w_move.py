"""C03: chains of data movements, compared bit for bit with whole arrays."""
import numpy as np
import core

TYPES = ['fp32', 'fp32', 'fp64', 'fp64', 'int64', 'bool', 'fp16']
HAS_COPY = ('fp32', 'fp64', 'int64')
EXT = [1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13]

def tile(rng, n):
    r = rng.random()
    if r < 0.25: return n
    if r > 0.99: return n + rng.choice([1, 2, 5]) # a base tile larger than the array
    if r < 0.4: return 1 if n <= 6 or n < 400 and rng.random() < 0.02 else max(1, n//3)
    return rng.randint(max(1, -(-n//5)), n)
def shape(rng, nd, cap=1500):
    if nd and rng.random() < 0.04:
        s = [rng.choice([1, 1, 2, 3]) for _ in range(nd)]
        s[rng.randrange(nd)] = rng.choice([127, 128, 255, 256, 257, 300, 513, 1000, 4097] + ([65536, 66000] if rng.random() < 0.2 else []))
        return s
    while True:
        s = [rng.choice(EXT) for _ in range(nd)]
        if rng.random() < 0.05 and nd: s[rng.randrange(nd)] = rng.choice([17, 32, 33])
        if int(np.prod(s)) <= cap: return s
def tiling(rng, s):
    for _ in range(50):
        t = [tile(rng, n) for n in s]
        if np.prod([-(-n//m) for n, m in zip(s, t)]) <= (48 if max(s, default=1) < 100 else 400): return t
    return list(s)
def bits(dt, seed, sh):
    r = np.random.default_rng(seed); n = int(np.prod(sh))
    kind = r.integers(0, 4)
    if dt == 'bool': a = r.random(n) < 0.5
    elif dt == 'int64':
        a = r.integers(-2**62, 2**62, n) if kind else np.arange(n, dtype=np.int64) + int(r.integers(0, 1000))
    else:
        it = dict(fp16=np.uint16, fp32=np.uint32, fp64=np.uint64)[dt]; ft = dict(fp16=np.float16, fp32=np.float32, fp64=np.float64)[dt]
        if kind == 0: a = (np.arange(n) + 1).astype(ft)
        elif kind == 1: a = r.integers(0, np.iinfo(it).max, n, dtype=it, endpoint=True).view(ft) # every bit pattern, NaNs included
        elif kind == 2: a = r.standard_normal(n).astype(ft)
        else: a = r.choice(np.array([0.0, -0.0, np.inf, -np.inf, np.nan, 1e-42, 1.0], dtype=ft), n).astype(ft)
    return np.asfortranarray(np.asarray(a).reshape(sh, order='F'))
def raw(a):
    a = np.asfortranarray(a)
    return a if a.dtype in (np.bool_, np.int64) else a.view({2: np.uint16, 4: np.uint32, 8: np.uint64}[a.dtype.itemsize])

LAYOUTS = ['F']*8 + ['C', 'C', 'step', 'back', 'wide', 'list']
def laid(a, lay, dt):
    """the same values in host memory of another layout"""
    if lay == 'C': return np.ascontiguousarray(a) if a.ndim else a
    if lay == 'step' and a.ndim:
        b = np.zeros([2*a.shape[0]] + list(a.shape[1:]), dtype=a.dtype, order='F'); b[::2] = 0; b = b[::2]
        b[...] = a; return b
    if lay == 'back' and a.ndim:
        b = np.asfortranarray(a[::-1]).copy(order='F'); return b[::-1]
    if lay == 'wide' and dt == 'fp32' and not np.isnan(a).any(): return a.astype(np.float64)
    if lay == 'list' and dt in ('fp64', 'int64') and not np.isnan(a.astype(np.float64)).any(): return a.tolist()
    return a
def geometry(env, x, spec):
    """shapes, strides and index maps of a tensor, its grid and its tiles"""
    sh, bt = spec
    def need(ok, what):
        if not ok: env.fail('geometry', '%s of a tensor %s in tiles %s' % (what, sh, bt))
    def maps(t, s, what):
        n = int(np.prod(s, dtype=np.int64))
        need(t.ndim == len(s) and list(t.shape) == s and t.nelems == n, 'shape of the ' + what)
        need(list(t.stride) == [int(np.prod(s[:i], dtype=np.int64)) for i in range(len(s))], 'strides of the ' + what)
        for k in sorted({0, n-1, n//2, n//3, min(n-1, 1)}):
            ix = [int(v) for v in np.unravel_index(k, s, order='F')] if s else []
            need(list(t.linear_to_index(k)) == ix, 'index of element %d of the %s' % (k, what))
            need(t.index_to_linear(ix) == k, 'position of element %s of the %s' % (ix, what))
        for bad in [-1, n]:
            try: r = t.linear_to_index(bad)
            except Exception: continue
            need(False, 'index of element %d outside the %s is %s' % (bad, what, r))
        for d in range(len(s)):
            for v in (-1, s[d]):
                ix = [0]*len(s); ix[d] = v
                try: r = t.index_to_linear(ix)
                except Exception: continue
                need(False, 'position of element %s outside the %s is %s' % (ix, what, r))
        try: r = t.index_to_linear([0]*(len(s)+1))
        except Exception: r = None
        need(r is None, 'position of an element of the %s with too many indices' % what)
    maps(x, sh, 'tensor')
    grid = [-(-n//t) for n, t in zip(sh, bt)]
    maps(x.grid, grid, 'grid')
    need(list(x.basetile_shape) == bt, 'base tile')
    need(list(x.get_grid_shape()) == grid, 'grid shape')
    for k in sorted({0, x.grid.nelems-1, x.grid.nelems//2}):
        ix = x.grid.linear_to_index(k)
        ts = [min(n, (a+1)*b) - a*b for a, b, n in zip(ix, bt, sh)]
        need(list(x.get_tile_shape(ix)) == ts, 'shape of tile %s' % ix)
    for d in range(len(grid)):
        for v in (-1, grid[d]):
            ix = [0]*len(grid); ix[d] = v
            try: r = x.get_tile_shape(ix)
            except Exception: continue
            need(False, 'shape of tile %s outside the grid is %s' % (ix, r))

def raw0(a):
    return a if a.dtype in (np.bool_, np.int64) else a.view({2: np.uint16, 4: np.uint32, 8: np.uint64}[a.dtype.itemsize])
def gen(prop, rng, tier):
    dt = rng.choice(TYPES)
    nd = rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 5])
    base = shape(rng, nd)
    ts = []
    for i in range(rng.choice([2, 3, 4, 5])):
        s = list(base) if i < 2 or rng.random() < 0.5 else shape(rng, nd)
        ts.append([s, list(s) if i == 0 else tiling(rng, s)])
    steps = []; defd = set()
    same = lambda i: [j for j in range(len(ts)) if ts[j][0] == ts[i][0]]
    n = rng.choice([4, 8, 14]) if tier == 'quick' else rng.choice([8, 20, 40])
    while len(steps) < n:
        r = rng.random(); i = rng.randrange(len(ts))
        if r < 0.22 or not defd:
            steps.append(dict(k='load', t=i, seed=rng.getrandbits(32), lay=rng.choice(LAYOUTS))); defd.add(i)
        elif r < 0.32:
            steps.append(dict(k='read', t=rng.choice(sorted(defd)), lay=rng.choice(LAYOUTS)))
        elif r < 0.34:
            steps.append(dict(k='geom', t=i))
        elif r < 0.36 and dt in ('fp32', 'fp64'):
            steps.append(dict(k='tilew', t=rng.choice(sorted(defd)), i=rng.random(), seed=rng.getrandbits(32)))
        elif r < 0.40:
            steps.append(dict(k='tiles', t=rng.choice(sorted(defd))))
        else:
            i = rng.choice(sorted(defd)); k = rng.choice(['scatter', 'gather', 'copy', 'inter', 'inter', 'inter', 'inter0'])
            if k == 'scatter':
                c = [j for j in same(i) if j != i]
                if ts[i][0] != ts[i][1] or not c: continue
                j = rng.choice(c); steps.append(dict(k=k, x=i, y=j, b=int(rng.random() < 0.3))); defd.add(j)
            elif k == 'gather':
                c = [j for j in same(i) if j != i and ts[j][0] == ts[j][1]]
                if not c: continue
                j = rng.choice(c); steps.append(dict(k=k, x=i, y=j, b=int(rng.random() < 0.3))); defd.add(j)
            elif dt not in HAS_COPY: continue
            elif k == 'copy':
                c = [j for j in same(i) if j != i and ts[j][1] == ts[i][1]]
                if not c:
                    ts.append([list(ts[i][0]), list(ts[i][1])]); c = [len(ts)-1]
                j = rng.choice(c); steps.append(dict(k=k, x=i, y=j, b=int(rng.random() < 0.3))); defd.add(j)
            else:
                j = rng.randrange(len(ts))
                if j == i: continue
                if k == 'inter0': xo = yo = [rng.choice([0, 3])]*nd
                else:
                    xo = [rng.randint(0, 6) for _ in range(nd)]
                    yo = [o + rng.randint(-n1, n0) if rng.random() < 0.9 else o for o, n0, n1 in zip(xo, ts[i][0], ts[j][0])]
                    if rng.random() < 0.6: yo = [o + max(-1, min(1, y-o)) for o, y in zip(xo, yo)]
                    m = min(yo + [0])
                    if rng.random() < 0.7: xo = [o-m for o in xo]; yo = [o-m for o in yo]
                full = all(a <= b and a+n0 >= b+n1 for a, b, n0, n1 in zip(xo, yo, ts[i][0], ts[j][0]))
                if j not in defd and not full:
                    steps.append(dict(k='load', t=j, seed=rng.getrandbits(32))); defd.add(j)
                steps.append(dict(k='inter', x=i, y=j, xo=xo, yo=yo, b=int(rng.random() < 0.3))); defd.add(j)
    return dict(dt=dt, T=ts, steps=steps)
def label(prop, spec):
    return ','.join('%s_%s' % (s['k'], spec['dt']) for s in spec['steps'])

def run(prop, spec, env):
    dt = spec['dt']; ct = env.nntile.nntile_core.tensor; nt = env.nntile.tensor
    def eq(got, ref, sig, what):
        g, r = raw(got), raw(ref)
        if g.shape != r.shape or not np.array_equal(g, r):
            bad = np.argwhere(g != r); i = tuple(int(v) for v in bad[0])
            env.fail(sig, '%s: element %s is %r, expected %r (%d of %d differ)' % (what, i, got[i], ref[i], len(bad), g.size))
    with env.sess() as ss:
        ss.start_runtime()
        X = {}; M = {}
        def tensor(i):
            if i not in X: X[i] = env.new(spec['T'][i][0], spec['T'][i][1], dt)
            return X[i]
        def read(i, what='tensor'):
            x = tensor(i); r = np.zeros(list(x.shape) or [1], dtype=env.NP[dt], order='F')
            if dt == 'fp16': return
            x.to_array(r); env.obs(r)
            eq(r.reshape(x.shape, order='F'), M[i], 'moved-data', '%s %d %s' % (what, i, spec['T'][i]))
        def readtiles(i):
            # every element lies in exactly the tile that the index definition names
            x = tensor(i)
            if dt not in ('fp32', 'fp64'): return
            for k in range(x.grid.nelems):
                ix = x.grid.linear_to_index(k) if len(x.shape) else []
                tl = x.get_tile(k)
                sl = tuple(slice(a*b, min(n, (a+1)*b)) for a, b, n in zip(ix, x.basetile_shape, x.shape))
                r = np.zeros(list(tl.shape) or [1], dtype=env.NP[dt], order='F'); tl.to_array(r)
                eq(r.reshape(tl.shape, order='F'), M[i][sl], 'tile-content', 'tile %s of tensor %d' % (ix, i))
        def call(nm, b, *a):
            if b:
                getattr(ct, nm + '_' + dt)(*a)
                if env.stat('pending'): env.fail('blocking-returns-early', 'blocking %s returned with unfinished tasks' % nm)
            else:
                w = env.stat('blocking_waits'); getattr(nt, nm + '_async')(*a)
                if env.stat('blocking_waits') != w: env.fail('async-blocks', nm)
        for s in spec['steps']:
            k = s['k']
            if k == 'load':
                i = s['t']; a = bits(dt, s['seed'], spec['T'][i][0])
                if dt == 'fp16': continue
                M[i] = a.copy(order='F')
                h = laid(a.reshape(list(a.shape) or [1], order='F'), s.get('lay'), dt)
                tensor(i).from_array(h)
                if isinstance(h, np.ndarray): raw0(h)[...] = 0x55 if dt != 'bool' else True # the array is the caller's again
                del h
            elif k == 'geom': geometry(env, tensor(s['t']), spec['T'][s['t']])
            elif k == 'tilew':
                i = s['t']
                if i not in M: continue
                x = tensor(i); n = int(s['i']*x.grid.nelems); tl = x.get_tile(n)
                ix = x.grid.linear_to_index(n) if len(x.shape) else []
                a = bits(dt, s['seed'], list(tl.shape))
                tl.from_array(a.reshape(list(tl.shape) or [1], order='F'))
                raw(M[i])[tuple(slice(a1*b, min(n1, (a1+1)*b)) for a1, b, n1 in zip(ix, x.basetile_shape, x.shape))] = raw(a)
                del tl
            elif k == 'read' and s.get('lay', 'F') != 'F' and s['t'] in M and dt != 'fp16':
                # whatever array is given: either it gets the values or there is an exception
                i = s['t']; x = tensor(i); h = laid(np.full(list(x.shape) or [1], M[i].ravel()[:1][0], dtype=env.NP[dt], order='F'), s['lay'], dt)
                try: x.to_array(h); ok = True
                except (TypeError, ValueError, RuntimeError): ok = False
                if ok: eq(np.asarray(h, dtype=env.NP[dt]).reshape(x.shape), M[i], 'read-lost', 'to_array of tensor %d %s into an array of layout %s' % (i, spec['T'][i], s['lay']))
                env.note('read.%s.%s' % (s['lay'], 'done' if ok else 'refused'))
                read(i)
            elif k in ('read', 'tiles'):
                if s['t'] in M: (read if k == 'read' else readtiles)(s['t'])
            else:
                if s['x'] not in M: continue
                x, y = tensor(s['x']), tensor(s['y'])
                if k == 'inter':
                    src, dst = [], []; empty = False; full = True
                    for n, m, a, b in zip(x.shape, y.shape, s['xo'], s['yo']):
                        lo, hi = max(a, b), min(a+n, b+m)
                        empty = empty or lo >= hi; full = full and lo == b and hi == b+m
                        src.append(slice(lo-a, hi-a)); dst.append(slice(lo-b, hi-b))
                    if s['y'] not in M and not full: continue
                    call('copy_intersection', s['b'], x, s['xo'], y, s['yo'])
                    if not empty:
                        if s['y'] not in M: M[s['y']] = np.zeros(y.shape, dtype=env.NP[dt], order='F')
                        # copied on the bit patterns: numpy must not quieten NaNs
                        raw(M[s['y']])[tuple(dst)] = raw(M[s['x']])[tuple(src)]
                else:
                    call(k, s['b'], x, y); M[s['y']] = M[s['x']].copy(order='F')
        for i in sorted(M): read(i, 'at the end tensor'); readtiles(i)
        for i in sorted(X): X[i].unregister()
        env.wait()
        if env.alive(): env.viol('leak', '%d data handles alive after everything was unregistered' % env.alive())
        ss.stop_runtime()
