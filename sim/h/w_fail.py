"""C07: the runtime refuses tasks, data accesses or copies, or memory runs out, in the middle of operations."""
import numpy as np
import core, ops, nets, nets2, nets3, w_prog, w_ops, w_layers, w_optim, w_reject
from core import Skip
from ops import OPS
def warm(): w_layers.warm()
KINDS = [(5, w_layers.KINDS['C11']), (3, w_layers.KINDS['C12']), (2, w_layers.KINDS['C13']), (2, w_layers.KINDS['C17'])]
FK = ['submit', 'submit', 'submit', 'alloc', 'alloc', 'malloc', 'acquire', 'copy']
MOVES = ['copy', 'scatter', 'gather', 'copy_intersection', 'randn', 'flash_maxsumexp', 'flash_softmax_gemm', 'flash_softmax_gemm_backward']
def one_op(rng, prop):
    while True:
        c = w_ops.one(rng, prop)
        if c['op'] not in ('half', 'gemm_half'): return c # sequences of operations
def gen(prop, rng, tier):
    k = rng.choices(['op', 'prog', 'scn', 'optim', 'init', 'host', 'gpu'], [16, 12, 8, 6, 2, 4, 1])[0]
    s = dict(k=k, steps=[])
    if k == 'prog':
        s.update(w_prog.gen('C07', rng, tier))
        for c in s['steps']:
            if c['k'] in ('op', 'write', 'read') and rng.random() < 0.25: c['f'] = [rng.choice(FK if c['k'] == 'op' else ['submit', 'acquire', 'acquire', 'copy', 'alloc']), rng.choice([0, 0, 1, 1, 2, 3, 5, 9, 17]), rng.choice([1, 1, 1, 2, 1000])]
        return s
    for _ in range(dict(op=5, scn=1, optim=2, init=1, host=4, gpu=4)[k]):
        f = dict(fk=rng.choice(FK), at=rng.random(), n=rng.choice([1, 1, 1, 2, 1000]), blk=int(rng.random() < 0.2), paused=int(rng.random() < 0.15))
        if k == 'op':
            if rng.random() < 0.2:
                o = w_reject.FL[rng.choice(MOVES)]; c = o.gen(rng); f['fk'] = rng.choice(['submit', 'submit', 'alloc', 'malloc', 'copy'])
            else: c = one_op(rng, rng.choice(['C02', 'C04']))
            s['steps'].append(dict(f, c=c, seed=rng.getrandbits(31)))
        elif k == 'scn':
            c = w_layers.one(rng, rng.choices([x for w, x in KINDS], [w for w, x in KINDS])[0])
            for r in c['rounds']: r['blk'] = 0
            s['steps'].append(dict(f, c=c))
        elif k == 'optim':
            c = w_optim.gen_case('C14', rng); c['obs'] = []; s['steps'].append(dict(f, c=c, step=rng.randrange(c['n'])))
        elif k == 'gpu': s['steps'].append(dict(f, g=rng.choice(GPU), ds=[list(d) for d in ops.dims(rng)] or [[2, 1]], n=[rng.randint(1, 4) for _ in range(3)], tile=rng.randint(1, 4), fk='gpu', seed=rng.getrandbits(31)))
        elif k == 'host': s['steps'].append(dict(f, ds=[list(d) for d in ops.dims(rng, 1)], dt=rng.choice(['fp32', 'fp64', 'int64', 'bool']), dir=rng.choice(['from', 'to', 'create']), seed=rng.getrandbits(31), fk=rng.choice(['acquire', 'acquire', 'alloc', 'submit', 'copy'])))
        else: s['steps'].append(dict(f, c=one_op(rng, 'C02'), again=rng.choice([1, 1, 2, 3])))
    return s
def label(prop, spec): return ','.join([spec['k'] + '/' + s['fk'] for s in spec['steps']] if spec['k'] != 'prog' else ['prog'])
def shrink(spec):
    import runner
    for d in runner.default_shrink(spec): yield d
    st = spec['steps']
    for i, c in enumerate(st):
        if c.get('f') and len([1 for q in st if q.get('f')]) > 1: yield dict(spec, steps=st[:i] + [{k: v for k, v in c.items() if k != 'f'}] + st[i+1:])
        if spec['k'] == 'scn':
            for d in w_layers.shrink(dict(steps=[c['c']])): yield dict(spec, steps=st[:i] + [dict(c, c=d['steps'][0])] + st[i+1:])
        if c.get('n', 1) != 1: yield dict(spec, steps=st[:i] + [dict(c, n=1)] + st[i+1:])

def faulty(env, kind, ks, f):
    """runs f with these occurrences failing: (did a fault fire?, exception)"""
    h = env.hits(); env.arm(kind, ks); exc = None
    try: f()
    except core.Violation: raise
    except Exception as e: exc = e.with_traceback(None) # the traceback would keep operands alive
    finally: env.disarm()
    return env.hits() > h, exc
def verdict(env, what, kind, fired, exc):
    if fired and exc is None: env.fail('lost-failure:%s' % what, '%s reported success although a %s failed' % (what, kind))
    if exc is not None and not fired: raise exc
    if exc is not None and isinstance(exc, (SystemError, RecursionError, AttributeError, UnboundLocalError, NameError, TypeError)): env.fail('wrong-exception:%s' % what, '%s raised %r when a %s failed' % (what, exc, kind))
    env.note('failed_' + kind if fired else 'not_reached_' + kind)
def measured(env, kind, f):
    env.window(kind in ('alloc', 'malloc')); n = env.count(kind)
    try: f()
    finally: env.window(0)
    return env.count(kind) - n
def places(s, n):
    k = min(n-1, int(s['at']*n)); return list(range(k, min(n, k + s['n'])))

def op_step(env, s):
    c = s['c']; op = c['op']; o = w_reject.op_of(op); known = op in OPS and op not in w_reject.FL
    A = ops.operands(c, core.adata) if known else {d['n']: np.asarray(w_reject.content(s, d, d.get('dt', c['dt']))) for d in c['T']}
    t = {}
    for d in c['T']: t[d['n']] = env.new(d['shape'], d['bt'], d.get('dt', c['dt']))
    def fill():
        for d in c['T']: env.put(t[d['n']], A[d['n']] if known or d['mode'] != 'w' else A[d['n']])
    fill(); o.prepare(c, t)
    blk = s['blk'] and known
    def call(): (o.call_blocking if blk else o.call)(env, c, t)
    n = measured(env, s['fk'], call)
    if not n:
        env.note('no_site'); env.wait()
        for x in t.values(): x.unregister()
        return
    fill(); env.wait(); alive = env.alive()
    pause = s['paused'] and not blk and op != 'nrm2'
    if pause: env.nntile.starpu.pause()
    fired, exc = faulty(env, s['fk'], places(s, n), call)
    if pause: env.nntile.starpu.resume()
    verdict(env, op, s['fk'], fired, exc)
    env.wait()
    if env.alive() != alive: env.fail('failure-leak:%s' % op, '%d data handles more after %s failed (%s)' % (env.alive() - alive, op, s['fk']))
    for d in c['T']:
        if d['mode'] == 'r' and not d.get('tmp'):
            g = env.get(t[d['n']]); a = np.asarray(A[d['n']]).astype(g.dtype)
            if not np.array_equal(g, a.reshape(g.shape, order='F'), equal_nan=g.dtype.kind == 'f'): env.fail('failure-changed:%s' % op, 'failed %s changed its input %s' % (op, d['n']))
    fill(); call()
    out = {d['n']: env.get(t[d['n']]) for d in c['T'] if not d.get('tmp')}
    if known: w_ops.judge(env, c, o, A, out)
    for x in t.values(): x.unregister()
def scn_step(env, s):
    c = s['c']; sc = w_layers.scenario(env, c); sc.create(); sc.fill()
    n = measured(env, s['fk'], sc.go)
    if not n: env.note('no_site')
    else:
        sc.fill(); env.wait(); alive = env.alive()
        fired, exc = faulty(env, s['fk'], places(s, n), sc.go)
        verdict(env, c['L'], s['fk'], fired, exc)
        env.wait()
        if env.alive() != alive: env.fail('failure-leak:%s' % c['L'], '%d data handles more after a pass of %s failed (%s)' % (env.alive() - alive, c['L'], s['fk']))
        if hasattr(sc, 'pv'):
            for k, m in sc.params.items():
                if not np.array_equal(env.get(m.value), np.asarray(sc.pv[k]).astype(env.NP[sc.dt]).reshape(m.value.shape)): env.fail('failure-changed:%s' % c['L'], 'a failed pass of %s changed parameter %s' % (c['L'], k))
        for (k, r), t in sc.stage.items():
            g = env.get(t)
            if not np.array_equal(g, np.asarray(sc.iv[k, r]).astype(g.dtype).reshape(g.shape)): env.fail('failure-changed:%s' % c['L'], 'a failed pass of %s changed its input' % c['L'])
        sc.fill(); sc.go()
        sc.check(sc.outs())
    sc.drop()
def optim_step(env, s):
    c = s['c']; ps = w_optim.start(c); o = w_optim.Opt(env, c, ps); r64, r32 = w_optim.Ref(c['opt'], ps, np.float64), w_optim.Ref(c['opt'], ps, np.float32)
    def state(): return [x for l in w_optim.lists(o.o) for x in l] if n else []
    for n in range(c['n']):
        g = w_optim.grads(c, n)
        if n == s['step']:
            v, m = o.values(), [env.get(x) for x in state()]
            for p, a in zip(o.P, g): env.put(p.grad, a)
            env.wait(); alive = env.alive()
            # the number of places is not known before: fail one that is probably reached
            ks = [int(s['at']*12)] if s['n'] == 1 else list(range(int(s['at']*12), int(s['at']*12) + s['n']))
            it = w_optim.count(o.o)
            fired, exc = faulty(env, s['fk'], ks, o.o.step)
            verdict(env, c['opt']['k'], s['fk'], fired, exc)
            env.wait()
            if env.alive() != alive: env.fail('failure-leak:%s' % c['opt']['k'], '%d data handles more after a failed step (%s)' % (env.alive() - alive, s['fk']))
            if exc is not None:
                if w_optim.count(o.o) != it: env.fail('failure-counted:%s' % c['opt']['k'], 'a failed step of %s was counted as done' % c['opt']['k'])
                for p, a in zip(o.P, v): env.put(p.value, a)
                for x, a in zip(state(), m): env.put(x, a)
                o.step(g)
        else: o.step(g)
        r64.step(g); r32.step(g)
    w_optim.compare(env, c, 'after-failure', o.values(), r64, r32, c['n'])
    o.drop()
def host_step(env, s):
    sh, bt, dt = [d[0] for d in s['ds']], [d[1] for d in s['ds']], s['dt']
    a = np.asfortranarray(np.asarray(w_reject.content(s, dict(n='x', shape=sh), dt)).astype(env.NP[dt])); b = np.asfortranarray(np.asarray(w_reject.content(s, dict(n='y', shape=sh), dt)).astype(env.NP[dt]))
    x = env.new(sh, bt, dt); env.put(x, a); env.wait(); alive = env.alive()
    r = np.zeros(sh, dtype=env.NP[dt], order='F')
    box = []
    if s['dir'] == 'create': f = lambda: box.append(env.new(sh, bt, dt))
    elif s['dir'] == 'from': f = lambda: x.from_array(b)
    else: f = lambda: x.to_array(r)
    n = measured(env, s['fk'], f)
    for y in box: y.unregister()
    del box[:]
    if not n: env.note('no_site')
    else:
        env.put(x, a); env.wait()
        fired, exc = faulty(env, s['fk'], places(s, n), f)
        for y in box: y.unregister()
        del box[:]
        verdict(env, s['dir'], s['fk'], fired, exc); env.wait()
        if env.alive() != alive: env.fail('failure-leak:%s' % s['dir'], '%d data handles more after %s_array failed (%s)' % (env.alive() - alive, s['dir'], s['fk']))
        if s['dir'] != 'from' and not np.array_equal(env.get(x), a): env.fail('failure-changed:%s' % s['dir'], 'the tensor changed when %s failed' % s['dir'])
    x.from_array(b)
    x.to_array(r)
    if not np.array_equal(r, b): env.fail('after-failure:host', 'host transfer after a failure gives wrong data')
    x.unregister()

GPU = ['gemm_ex', 'gemm_fp16', 'fp32_to_fp16', 'fp16_to_fp32', 'linear', 'linear16', 'flash_maxsumexp', 'layer16', 'layer32']
def gpu_step(env, s):
    """operations that exist on GPU workers only are refused, whole, in a session without such workers"""
    T = env.nntile.tensor; g = s['g']; a, b, c = s['n']; bt = lambda *x: [min(v, s['tile']) for v in x]
    X = []
    def mk(sh, dt='fp32', tile=None):
        x = env.new(sh, tile or bt(*sh), dt); v = np.asarray(w_reject.content(s, dict(n=str(len(X)), shape=list(sh)), dt)).astype(env.NP[dt]); dt == 'fp16' or env.put(x, v); X.append((x, None if dt == 'fp16' else v)); return x
    no = env.nntile.notrans
    mom = lambda sh, dt='fp32': T.TensorMoments(mk(sh, dt), mk(sh, dt), True)
    layer = None; sh, tl = [d[0] for d in s['ds']], [d[1] for d in s['ds']]
    if g == 'gemm_ex': A, B, C = mk([a, b]), mk([b, c]), mk([a, c]); f = lambda: T.gemm_ex_async(1.0, no, A, no, B, 0.0, C, 1, 0)
    elif g == 'gemm_fp16': A, B, C = mk([a, b], 'fp16'), mk([b, c], 'fp16'), mk([a, c], 'fp16'); f = lambda: T.gemm_async(1.0, no, A, no, B, 0.0, C, 1, 0)
    elif g == 'fp32_to_fp16': A, B = mk(sh, 'fp32', tl), mk(sh, 'fp16', tl); f = lambda: env.nntile.nntile_core.tensor.fp32_to_fp16_async(A, B)
    elif g == 'fp16_to_fp32': A, B = mk(sh, 'fp16', tl), mk(sh, 'fp32', tl); f = lambda: env.nntile.nntile_core.tensor.fp16_to_fp32_async(A, B)
    elif g in ('linear', 'linear16'):
        x = mom([a, b]); layer, env.tag = env.nntile.layer.Linear.generate_simple(x, 'R', no, 1, [c], bt(c), env.tag, bias=bool(a % 2), **{'fp32_fast_tf32' if g == 'linear' else 'fp32_convert_fp16': True})
        for p in layer.parameters: env.put(p.value, np.ones(p.value.shape))
        if b % 2: f = layer.forward_async
        else: env.put(layer.y.grad, np.ones(layer.y.grad.shape)); f = layer.backward_async
    elif g == 'flash_maxsumexp':
        h = 1; Q, K = mk([a, b, 1, h], tile=[a, 1, 1, 1]), mk([a, b, 1, h], tile=[a, 1, 1, 1]); M = mk([b, b], 'bool', [1, 1])
        ms, tmp = mk([2, b, 1, h], tile=[2, 1, 1, 1]), env.new([b, b, 1, h], [1, 1, 1, 1])
        f = lambda: T.flash_maxsumexp_async(Q, K, M, ms, tmp, 0, 1)
    else:
        x = mom(sh, 'fp32' if g == 'layer16' else 'fp16'); L = env.nntile.layer.FP32_to_FP16 if g == 'layer16' else env.nntile.layer.FP16_to_FP32
        layer, env.tag = L.generate_simple(x, env.tag); f = layer.forward_async
    env.wait(); alive = env.alive(); exc = None
    if s['paused']: env.nntile.starpu.pause()
    try: f()
    except Exception as e: exc = e.with_traceback(None)
    if s['paused']: env.nntile.starpu.resume()
    verdict(env, g, 'task', True, exc)
    env.note('refused_gpu')
    env.wait()
    if env.alive() != alive: env.fail('failure-leak:%s' % g, '%d data handles more after %s was refused' % (env.alive() - alive, g))
    for x, v in X:
        if v is not None and not np.array_equal(env.get(x), v.reshape(x.shape), equal_nan=v.dtype.kind == 'f'): env.fail('failure-changed:%s' % g, 'refused %s changed a tensor' % g)
    if layer is not None:
        layer.unregister()
        for m in layer.activations_output + layer.parameters: m.unregister()
    for x, v in X: x.unregister()
    if g == 'flash_maxsumexp': tmp.unregister()

class FProg(w_prog.Prog):
    def step(self, s):
        f = s.get('f')
        if not f: return super().step(s)
        env = self.env; k = s['k']; kind, at, n = f
        if k == 'op':
            if not self.runnable(s) or s['op'] == 'randn': return
            T, p, op = s['T'], s['p'], s['op']
            for t in T.values(): self.tensor(t)
            fired, exc = faulty(env, kind, range(at, at + min(n, 64)), lambda: self.call(op, T, p, s.get('b') and not self.paused))
            for t in self.temps: t.unregister()
            del self.temps[:]
            verdict(env, op, kind, fired, exc)
            if exc is None: self.apply_model(op, T, p)
            else: self.lost(T[w_prog.target(op)])
        elif k == 'write':
            if self.paused: return
            t = s['t']; x = self.tensor(t); a = core.adata(s['seed'], s['kind'], self.shapes(t)); dt = self.dt(t)
            v = np.asfortranarray(np.asarray(a).astype(env.NP[dt]).reshape(self.shapes(t) or [1], order='F'))
            fired, exc = faulty(env, kind, range(at, at + min(n, 64)), lambda: x.from_array(v))
            verdict(env, 'from_array', kind, fired, exc)
            if exc is None: self.write(t, a, 'array')
            else: self.lost(t)
        else:
            t = s['t']
            if t not in self.st or self.paused: return
            x = self.t[t]; r = np.zeros(list(x.shape) or [1], dtype=env.NP[self.dt(t)], order='F')
            fired, exc = faulty(env, kind, range(at, at + min(n, 64)), lambda: x.to_array(r))
            verdict(env, 'to_array', kind, fired, exc)
            if exc is None: self.compare(t, r.reshape(x.shape), 'read')
    def lost(self, t):
        """what the failed operation was writing is undefined now; everything else is not"""
        self.st.pop(t, None); self.env.note('lost_tensors')

def init_steps(env, spec):
    """the runtime refuses to start: a later start works"""
    for s in spec['steps']:
        with env.sess() as ses:
            for i in range(s['again']):
                fired, exc = faulty(env, 'init', [0], ses.start_runtime)
                verdict(env, 'init', 'init', fired, exc)
            ses.start_runtime()
            w_ops.step(env, s['c'])
            env.wait()
            if env.alive(): env.viol('leak', '%d data handles alive' % env.alive())
            ses.stop_runtime()
def run(prop, spec, env):
    k = spec['k']
    if k == 'init': init_steps(env, spec); return
    with env.sess() as s:
        s.start_runtime()
        if k == 'prog':
            P = FProg(env, spec)
            for st in spec['steps']: P.step(st)
            P.finish()
        else:
            for c in spec['steps']: dict(op=op_step, scn=scn_step, optim=optim_step, host=host_step, gpu=gpu_step)[k](env, c)
        env.wait()
        if env.alive(): env.viol('leak', '%d data handles alive after everything was unregistered' % env.alive())
        s.stop_runtime()
