"""Simulated session of NNTile: the environment every workload runs in."""
import ctypes, gc, hashlib, json, os, random, sys, traceback
import numpy as np

U64 = ctypes.c_uint64
S_NAMES = ['tasks', 'slices', 'preemptions', 'steps', 'stalls', 'relocations', 'redux_phases', 'redux_tasks', 'blocking_waits',
    'sleeps', 'simtime_us', 'data', 'alive', 'double_init', 'evhash', 'deepest', 'viol', 'poisoned', 'registered', 'unregistered',
    'pending', 'peak_pending', 'preempted_with_others_live', 'wont_use', 'eager_steps', 'late_calls', 'commits', 'starts', 'guard_pages', 'gpu_tasks', 'gpu_kernels', 'gpu_rejected_launches', 'gpu_barriers', 'gpu_threads']
S_IX = {n: i for i, n in enumerate(S_NAMES)}
F_NAMES = ['submit', 'acquire', 'copy', 'init', 'alloc', 'sigint', 'malloc']
F_IX = {n: i for i, n in enumerate(F_NAMES)}

class Violation(Exception):
    def __init__(self, sig, msg):
        super().__init__(sig + ': ' + msg)
        self.sig, self.msg = sig, msg

class Skip(Exception):
    pass

_sim = None
def sim():
    global _sim
    if _sim is None:
        s = ctypes.CDLL('libstarpu-1.4.so.4')
        s.sim_stat.restype = s.sim_fired.restype = s.sim_site.restype = U64
        s.sim_viol.restype = ctypes.c_char_p
        s.sim_block.restype = ctypes.c_char_p
        s.sim_rec.restype = ctypes.POINTER(ctypes.c_uint32)
        _sim = s
    return _sim

PLAIN = dict(seed=1, max_workers=1, eager=256, burst=1000000, preempt=0, fill=0, reloc=0, policy=2, stall=0)

def gen_knobs(rng):
    """Swarm-style choice of what the scheduler and the memory do in one run."""
    style = rng.random()
    k = dict(seed=rng.getrandbits(60), max_workers=rng.choice([1, 2, 2, 3, 4, 4, 6, 8]),
        eager=rng.choice([0, 4, 16, 64, 64, 128, 220]), burst=rng.choice([1, 2, 4, 16]),
        preempt=rng.choice([0, 0, 1, 2, 2, 3]), fill=rng.choice([0, 0, 0, 1, 2, 3]),
        reloc=rng.choice([0, 0, 40, 255]), policy=rng.choice([0, 0, 0, 1, 2, 3, 3]), stall=rng.choice([0, 0, 0, 4, 24]))
    if style < 0.08: # everything is late: nothing runs until somebody waits, newest first
        k.update(eager=0, policy=1)
    return k

class Session:
    """One runtime lifetime under the simulator."""
    def __init__(self, env, knobs, faults, ncpus=None):
        self.env, self.k, self.faults = env, dict(knobs), list(faults)
        self.ncpus = ncpus
    def __enter__(self):
        e = self.env; s = sim(); k = self.k
        self.idx = e.nsess; e.nsess += 1
        dec = None
        if e.decisions is not None and str(self.idx) in e.decisions:
            dec = e.decisions[str(self.idx)]
        self.replaying = dec is not None
        if dec is not None:
            s.sim_decisions(len(dec), (ctypes.c_uint32*max(1, len(dec)))(*dec))
        ks = (ctypes.c_int*max(1, len(self.faults)))(*[F_IX[f[0]] for f in self.faults])
        at = (ctypes.c_int*max(1, len(self.faults)))(*[int(f[1]) for f in self.faults])
        s.sim_begin(U64(k['seed']), k['max_workers'], k['eager'], k['burst'], k['preempt'], k['fill'], k['reloc'], k['policy'], k['stall'], 1 if dec is not None else 0)
        s.sim_faults(len(self.faults), ks, at)
        s.sim_vgpu(int(e.vgpu)); s.sim_gpus(e.gpus)
        e.session = self
        e.tag = 0
        self.ended = False
        e.on_session_begin(self)
        return self
    def start_runtime(self):
        nt = self.env.nntile
        self.cfg = nt.starpu.Config(self.ncpus if self.ncpus is not None else -1, self.env.gpus, int(self.env.gpus > 0))
        nt.starpu.init()
        if self.env.where: getattr(nt.starpu, self.env.where)()
        if self.env.on_start: self.env.on_start()
    def stop_runtime(self):
        self.cfg.shutdown()
        self.cfg = None
    def __exit__(self, et, ev, tb):
        s = sim(); e = self.env
        if et is None and e.prop in ('C07', 'C08') and not e.viols and not s.sim_inited():
            # what NNTile allocated for its tasks is released
            if s.sim_blocks() or s.sim_live_tasks(): gc.collect()
            if s.sim_blocks(): e.viol('host-leak', '%d blocks of host memory are never released, one of them %s' % (s.sim_blocks(), s.sim_block(0).decode()))
            elif s.sim_live_tasks(): e.viol('host-leak', '%d task structures are never released' % s.sim_live_tasks())
            e.note('leak-checks')
        self.collect()
        if et is not None and isinstance(ev, Exception):
            # unwinding: drop what the traceback keeps alive later
            pass
        s.sim_end()
        e.session = None
        self.cfg = None
        return False
    def collect(self):
        s = sim(); e = self.env
        st = {n: int(s.sim_stat(i)) for i, n in enumerate(S_NAMES)}
        for n, v in st.items():
            if n in ('evhash',):
                e.stats.setdefault('evhash', []).append(v)
            elif n == 'peak_pending':
                e.stats[n] = max(e.stats.get(n, 0), v)
            else:
                e.stats[n] = e.stats.get(n, 0) + v
        for i, n in enumerate(F_NAMES):
            e.fired[n] = e.fired.get(n, 0) + int(s.sim_fired(i))
            e.sites[n] = e.sites.get(n, 0) + int(s.sim_site(i))
        e.sess_sites.append({n: int(s.sim_site(i)) for i, n in enumerate(F_NAMES)})
        n = s.sim_nrec(); p = s.sim_rec()
        e.recorded[str(self.idx)] = p[:n] if n else []
        for i in range(s.sim_nviol()):
            e.viols.append(self.classify(s.sim_viol(i).decode()))
        s.sim_clear_viol()
    @staticmethod
    def classify(v):
        kind, _, msg = v.partition(': ')
        return [kind, msg]

class Env:
    def __init__(self, prop, knobs, decisions=None):
        import nntile
        self.nntile = nntile
        self.prop, self.knobs, self.decisions = prop, knobs, decisions
        self.nsess = 0; self.session = None
        self.stats = {}; self.fired = {}; self.sites = {}; self.recorded = {}; self.sess_sites = []
        self.viols = []; self.hash = hashlib.sha1(); self.tag = 0
        self.notes = {}
        self.gpus = 0; self.where = ''; self.on_start = None # simulated GPUs, restriction of tasks to kinds of workers
        self.vgpu = False # a virtual GPU runs the kernels that exist for GPU only
    def on_session_begin(self, s):
        pass
    def sess(self, knobs=None, faults=(), ncpus=None):
        return Session(self, knobs or self.knobs, faults, ncpus)
    def stat(self, name):
        return int(sim().sim_stat(S_IX[name]))
    def alive(self):
        return int(sim().sim_alive())
    def run_some(self, n):
        return sim().sim_run(n)
    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n
    def fail(self, sig, msg):
        raise Violation(sig, msg)
    def viol(self, sig, msg):
        self.viols.append([sig, msg])
    def obs(self, *a):
        for x in a:
            if isinstance(x, np.ndarray):
                self.hash.update(np.ascontiguousarray(x).tobytes())
            else:
                self.hash.update(repr(x).encode())
    # ---- faults
    def count(self, kind): return int(sim().sim_site(F_IX[kind]))
    def hits(self): return sum(int(sim().sim_fired(i)) for i in range(len(F_NAMES)))
    def arm(self, kind, ks):
        """the next occurrences number ks of this kind fail"""
        n = self.count(kind); s = sim(); m = len(ks)
        s.sim_faults(m, (ctypes.c_int*max(1, m))(*[F_IX[kind]]*m), (ctypes.c_int*max(1, m))(*[n + k for k in ks]))
        s.sim_alloc_window(int(kind in ('alloc', 'malloc')))
    def disarm(self):
        s = sim(); s.sim_alloc_window(0); s.sim_faults(0, (ctypes.c_int*1)(0), (ctypes.c_int*1)(0))
    def window(self, on): sim().sim_alloc_window(int(on))
    # ---- tensors
    def cls(self, dt):
        t = self.nntile.tensor
        return dict(fp32=t.Tensor_fp32, fp64=t.Tensor_fp64, int64=t.Tensor_int64, fp16=t.Tensor_fp16, bool=t.Tensor_bool)[dt]
    NP = dict(fp32=np.float32, fp64=np.float64, int64=np.int64, fp16=np.float16, bool=np.bool_)
    def new(self, shape, bt, dt='fp32'):
        tr = self.nntile.tensor.TensorTraits(list(shape), list(bt))
        x = self.cls(dt)(tr, [0]*tr.grid.nelems, self.tag)
        self.tag = x.next_tag
        return x
    def dt(self, x):
        n = type(x).__name__
        return n[len('Tensor_'):]
    def single(self, x):
        return list(x.basetile_shape) == list(x.shape)
    def put(self, x, a):
        dt = self.dt(x)
        a = np.asfortranarray(np.array(a, dtype=self.NP[dt]).reshape(list(x.shape) or [1], order='F'))
        if x.grid.nelems == 1:
            x.from_array(a)
            return
        y = self.new(x.shape, x.shape, dt)
        y.from_array(a)
        self.scatter(y, x)
        y.unregister()
    def scatter(self, y, x):
        dt = self.dt(x); ct = self.nntile.nntile_core.tensor
        getattr(ct, 'scatter_async_' + dt)(y, x)
    def gather(self, x, y):
        dt = self.dt(x); ct = self.nntile.nntile_core.tensor
        getattr(ct, 'gather_async_' + dt)(x, y)
    def get(self, x, observe=True):
        dt = self.dt(x)
        r = np.zeros(list(x.shape) or [1], dtype=self.NP[dt], order='F')
        if x.grid.nelems == 1:
            x.to_array(r)
        else:
            y = self.new(x.shape, x.shape, dt)
            self.gather(x, y)
            y.to_array(r)
            y.unregister()
        if observe:
            self.obs(r)
        return r.reshape(x.shape)
    def wait(self):
        self.nntile.starpu.wait_for_all()
    # ---- comparison
    def close(self, sig, got, ref, tol, scale=None, what=''):
        got64 = np.asarray(got, dtype=np.float64); ref = np.asarray(ref, dtype=np.float64)
        if got64.shape != ref.shape:
            self.fail(sig, '%s shape %s expected %s' % (what, got64.shape, ref.shape))
        if got64.size == 0:
            return
        sc = np.max(np.abs(ref[np.isfinite(ref)]), initial=0.0) if scale is None else scale
        err = np.abs(got64 - ref)
        same = (got64 == ref) | (np.isnan(got64) & np.isnan(ref))
        margin('close:' + sig, np.where(same, 0, got64), np.where(same, 0, ref), tol*(np.abs(ref) + sc) + 1e-300)
        bad = ~same & ~(err <= tol*(np.abs(ref) + sc) + 1e-300)
        if bad.any():
            i = tuple(int(v[0]) for v in np.nonzero(bad)) if bad.ndim else ()
            self.fail(sig, '%s wrong at %s: got %r expected %r (%d of %d elements)' % (what, i, float(got64[i]), float(ref[i]), int(bad.sum()), bad.size))

_margins = {}
def margin(key, got, ref, tol):
    """development aid: how much of its tolerance a comparison used"""
    if 'VERIF_MARGIN' not in os.environ: return
    with np.errstate(all='ignore'): r = np.nanmax(np.where(np.abs(np.asarray(got, dtype=float) - ref) == 0, 0, np.abs(np.asarray(got, dtype=float) - ref)/tol), initial=0)
    open(os.environ['VERIF_MARGIN'], 'a').write('%s %.3g\n' % (key, r))
def adata(seed, kind, shape, lo=0, hi=1):
    """Test data from a seed; 'shape' elements in Fortran order."""
    r = np.random.default_rng(seed)
    n = tuple(shape)
    if kind == 'normal': a = r.standard_normal(n)
    elif kind == 'eighth': a = r.integers(-16, 17, n)/8.0
    elif kind == 'int': a = r.integers(-3, 4, n).astype(float)
    elif kind == 'positive': a = r.random(n) + 0.25
    elif kind == 'unit': a = r.random(n)
    elif kind == 'large': a = r.standard_normal(n)*1e3
    elif kind == 'tiny': a = r.standard_normal(n)*1e-3
    elif kind == 'sparse': a = r.standard_normal(n)*(r.random(n) < 0.3)
    elif kind == 'zero': a = np.zeros(n)
    elif kind == 'label': a = r.integers(lo, hi, n)
    elif kind == 'bool': a = r.random(n) < 0.6
    elif kind == 'wide': a = r.standard_normal(n)*10.0**r.integers(-6, 7, n)
    else: raise ValueError(kind)
    return a
