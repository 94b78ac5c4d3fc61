"""C10: random filling is a pure function of seed, parameters and position."""
import numpy as np, math
from scipy.special import ndtr
import core
from nets import ext, small, prod, cdiv
def gen_net(rng):
    """random initialisation of a layer or a model, twice in different tiles"""
    kind = rng.choice(['linear', 'deep_linear', 'deep_relu', 'gpt2mlp'])
    def e(*c):
        n = rng.choice(c); return [n] + [n if rng.random() < 0.3 else rng.randint(max(1, cdiv(n, 4)), n) for _ in range(2)]
    if kind == 'gpt2mlp': x = [e(1, 2, 5, 9), [2, 2, 2], [3, 3, 3]]
    else: x = [e(1, 2, 3, 5, 8, 13) for _ in range(rng.choice([2, 2, 3]))]
    return dict(net=kind, x=x, side=rng.choice('LR'), h=e(2, 3, 4, 9, 17, 30), nl=rng.choice([2, 3]), nc=rng.choice([1, 3, 10]), bias=int(rng.random() < 0.5), tr=int(rng.random() < 0.5), dt=rng.choice(['fp32', 'fp64']) if kind != 'gpt2mlp' else 'fp32',
        pre=int(rng.random() < 0.5), busy=int(rng.random() < 0.3), again=int(rng.random() < 0.3), k2=core.gen_knobs(rng))
def net(env, s, k):
    """the layer or model in its tiling number k (1 or 2)"""
    n = env.nntile; sh = [d[0] for d in s['x']]; bt = [d[k] for d in s['x']]
    x = n.tensor.TensorMoments(env.new(sh, bt, s['dt']), env.new(sh, bt, s['dt']), True); h = s['h']
    if s['net'] == 'linear': m, env.tag = n.layer.Linear.generate_simple(x, s['side'], n.trans if s['tr'] else n.notrans, 1, [h[0]], [h[k]], env.tag, bool(s['bias']))
    elif s['net'] == 'deep_linear': m = n.model.DeepLinear(x, s['side'], 1, h[0], h[k], s['nl'], env.tag)
    elif s['net'] == 'deep_relu': m = n.model.DeepReLU(x, s['side'], 1, h[0], h[k], s['nl'], s['nc'], env.tag, bias=bool(s['bias']))
    else: m = n.model.gpt2.GPT2MLP(x, n.model.gpt2.GPT2Config(5, 1, sh[0], bt[0], 4, h[0], h[k], 1e-5, 1, 1, 1, 'relu'), env.tag)
    if s['net'] != 'linear': env.tag = m.next_tag
    return m, x
def net_session(env, s, base):
    for k in (1, 2):
        m, x = net(env, s, k)
        if s['pre']:
            for i, p in enumerate(m.parameters): env.put(p.value, core.adata(i, 'normal', p.value.shape))
        if s['busy']:
            for p in m.parameters: env.nntile.tensor.clear_async(p.value)
        w = env.stat('blocking_waits'); m.init_randn_async()
        if env.stat('blocking_waits') != w: env.fail('async-blocks', 'init_randn_async waited for unfinished work')
        got = [env.get(p.value) for p in m.parameters]
        if not base: base.extend(got)
        for i, (a, b) in enumerate(zip(base, got)):
            if not np.array_equal(a, b): env.fail('initialisation', 'parameter %d of %s is initialised differently in tiles %s and %s or under another schedule' % (i, s['net'], s['x'], s['h']))
        for i, a in enumerate(got):
            z = np.sort(a.astype(np.float64).reshape(-1, order='F')[1:])*math.sqrt(a.size); n = z.size
            if not np.isfinite(a).all(): env.fail('distribution', 'parameter %d of %s is not finite' % (i, s['net']))
            if n >= 12:
                c = ndtr(z); D = max((np.arange(1, n+1)/n - c).max(), (c - np.arange(n)/n).max())*math.sqrt(n)
                if D > 3: env.fail('distribution', 'parameter %d of %s (shape %s) is not normal with deviation 1/sqrt(elements) (Kolmogorov distance %.2f)' % (i, s['net'], list(a.shape), D))
        if s['net'] == 'linear': m.activations_output[0].unregister(); x.unregister()
        m.unregister()
def gen(prop, rng, tier):
    if rng.random() < 0.1: return gen_net(rng)
    nd = rng.choice([0, 1, 1, 2, 2, 3, 3, 4])
    while True:
        U = [rng.choice([1, 2, 3, 4, 5, 7, 9, 12, 30, 100]) for _ in range(nd)]
        if prod(U) <= 1500: break
    if nd and rng.random() < 0.03:
        U = [rng.choice([1, 2, 3]) for _ in U]; U[rng.randrange(nd)] = rng.choice([257, 1000, 4097, 66000])
    huge = nd > 0 and rng.random() < 0.2
    off = [rng.choice([0, rng.randrange(10**6), rng.randrange(2**(60//nd))]) if huge else 0 for _ in range(nd)]
    V = [u + o + (rng.choice([0, 1, 10**5]) if huge else 0) for u, o in zip(U, off)] # underlying shape; the block at 'off' of shape U is looked at
    st = []
    for _ in range(rng.choice([2, 3, 5, 8])):
        full = rng.random() < 0.35
        lo = [0 if full else rng.randrange(u) for u in U]; sh = [u if full else rng.randint(1, u - l) for u, l in zip(U, lo)]
        st.append(dict(lo=lo, sh=sh, bt=[s if rng.random() < 0.3 else rng.randint(max(1, cdiv(s, 4)), s) for s in sh], par=rng.choice([0, 0, 1, 2]), other=int(rng.random() < 0.4), pre=int(rng.random() < 0.5), blk=int(rng.random() < 0.15), twice=int(rng.random() < 0.2), load=int(rng.random() < 0.3)))
    pars = [[0.0, 1.0], [rng.choice([0.0, 1.0, -3.5, 100.0]), rng.choice([1.0, 0.02, 2.5, 10.0])], [rng.choice([0.0, 0.3]), rng.choice([0.0, 1e-3, -1.0])]]
    return dict(U=U, V=V, off=off, dt=rng.choice(['fp32', 'fp64']), seed=rng.choice([rng.getrandbits(64), rng.getrandbits(32), rng.randrange(1000), rng.randrange(3)]), pars=pars, steps=st, again=int(rng.random() < 0.3), k2=core.gen_knobs(rng))
def label(prop, spec): return spec['net'] if 'net' in spec else '%dd' % len(spec['U']) + ('-far' if any(spec['off']) else '')

def one(env, s, x, lo, par, seed, blk=0):
    f = env.nntile.tensor.randn_async if not blk else getattr(env.nntile.nntile_core.tensor, 'randn_' + s['dt'])
    mean, dev = s['pars'][par]
    w = env.stat('blocking_waits')
    f(x, [a + b for a, b in zip(s['off'], lo)], s['V'], seed, mean, dev)
    if blk and env.stat('pending'): env.fail('blocking-returns-early', 'blocking randn left unfinished tasks')
    if not blk and env.stat('blocking_waits') != w: env.fail('async-blocks', 'randn_async waited for unfinished work')
def session(env, s, base):
    U, dt = s['U'], s['dt']
    if not base:
        for par in range(3):
            x = env.new(U, U, dt); one(env, s, x, [0]*len(U), par, s['seed']); base[par] = env.get(x); x.unregister()
        x = env.new(U, U, dt); one(env, s, x, [0]*len(U), 0, s['seed'] ^ 0x5555); base['other'] = env.get(x); x.unregister()
        z = base[0].astype(np.float64)
        if not np.isfinite(z).all(): env.fail('distribution', 'seed %d gives %r' % (s['seed'], float(z[~np.isfinite(z)][0])))
        u = 6e-8 if dt == 'fp32' else 1.2e-16
        for par in (1, 2):
            m, d = s['pars'][par]; r = m + d*z
            bad = ~(np.abs(base[par] - r) <= 8*u*(abs(m) + np.abs(d*z)))
            if bad.any(): env.fail('affine', 'values with mean %r and deviation %r are not mean + deviation * standard values (e.g. %r for %r)' % (m, d, float(base[par][bad][0]), float(z[bad][0])))
        if z.size >= 4 and np.array_equal(z, base['other']): env.fail('seed', 'different seeds give the same values')
        if z.size >= 20:
            # the first value of a small seed lies far in the tail of the generator; the rest must not
            v = np.sort(z.reshape(-1, order='F')[1:]); n = v.size; c = ndtr(v)
            D = max((np.arange(1, n+1)/n - c).max(), (c - np.arange(n)/n).max())*math.sqrt(n)
            if D > 3.3: env.fail('distribution', '%d values with seed %d are not standard normal (Kolmogorov distance %.2f)' % (n, s['seed'], D))
            if np.unique(v).size < 0.9*n: env.fail('distribution', 'only %d different values among %d' % (np.unique(v).size, n))
    live = []
    for i, q in enumerate(s['steps']):
        x = env.new(q['sh'], q['bt'], dt)
        if q['pre']: env.put(x, core.adata(i, 'normal', q['sh']))
        if q['other']: one(env, s, x, q['lo'], (q['par'] + 1) % 3, s['seed'] + 1 + i)
        one(env, s, x, q['lo'], q['par'], s['seed'], q['blk'])
        if q['twice']: one(env, s, x, q['lo'], q['par'], s['seed'])
        if q['load']:
            y = env.new(q['sh'], q['bt'], dt); env.nntile.tensor.copy_async(x, y); x.unregister(); x = y
        live.append((q, x))
    for q, x in live:
        got = env.get(x); ref = base[q['par']][tuple(slice(a, a+b) for a, b in zip(q['lo'], q['sh']))]
        if got.tobytes() != ref.tobytes():
            bad = ~((got == ref) | (np.isnan(got) & np.isnan(ref))); i = tuple(int(v[0]) for v in np.nonzero(bad)) if got.ndim else ()
            env.fail('position', 'sub-array %s at %s in tiles %s of an array %s with offset %s: element %s is %r, in the whole array it is %r' % (q['sh'], q['lo'], q['bt'], U, s['off'], i, float(got[i]), float(ref[i])))
        x.unregister()
def run(prop, spec, env):
    base = [] if 'net' in spec else {}
    for k in ([None] if not spec['again'] else [None, spec['k2']]):
        with env.sess(k) as s:
            s.start_runtime()
            (net_session if 'net' in spec else session)(env, spec, base)
            env.wait()
            if env.alive(): env.viol('leak', '%d data handles alive after everything was unregistered' % env.alive())
            s.stop_runtime()
