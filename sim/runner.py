"""Seeded search: distributes runs over worker processes, gates, minimises and
reports violations, writes the evidence file."""
import copy, fnmatch, hashlib, json, os, queue, random, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, 'h'))
import build as B

PY = '/opt/nntile-venv/bin/python'

def worker_env(b):
    e = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'VERIF_DEBUG', 'VERIF_MARGIN')}
    e.update(LD_PRELOAD=b['sim'], PYTHONPATH=b['python'], OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
        PYTHONHASHSEED='0', STARPU_SILENT='1', GLIBC_TUNABLES='glibc.malloc.perturb=165', VERIF_SHIM=b['shim'],
        PYTHONDONTWRITEBYTECODE='1', HF_HUB_OFFLINE='1', TRANSFORMERS_OFFLINE='1', STARPU_HOME='/tmp')
    return e

class HarnessError(Exception):
    pass

class Worker:
    def __init__(self, b, modules):
        cmd = ['setarch', '-R', PY] if os.path.exists('/usr/bin/setarch') else [PY]
        try:
            if subprocess.run(['setarch', '-R', 'true'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: cmd = [PY]
        except OSError:
            cmd = [PY]
        err = None if os.environ.get('VERIF_DEBUG') else subprocess.PIPE
        self.p = subprocess.Popen(cmd + [os.path.join(HERE, 'h', 'worker.py'), ','.join(modules)], env=worker_env(b), cwd='/tmp',
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT if 0 else err, text=True)
        self.ready = False
    def wait_ready(self):
        if self.ready: return
        while True:
            l = self.p.stdout.readline()
            if not l:
                raise HarnessError('worker did not start: ' + (self.p.stderr.read()[-3000:] if self.p.stderr else ''))
            if l.startswith('{"ready"'):
                break
        self.ready = True
        if self.p.stderr: # drain
            threading.Thread(target=self.p.stderr.read, daemon=True).start()
    def ask(self, cmd):
        self.wait_ready()
        self.p.stdin.write(json.dumps(cmd) + '\n'); self.p.stdin.flush()
        while True:
            l = self.p.stdout.readline()
            if not l:
                raise HarnessError('worker died')
            if l.startswith('{'):
                return json.loads(l)
    def close(self):
        try:
            self.p.stdin.close(); self.p.wait(5)
        except Exception:
            self.p.kill()

def normalise(out):
    """Result of a 'one' command -> (list of [sig,msg], hash, recorded)."""
    if out.get('harness'):
        raise HarnessError(out['harness'])
    r = out['results'][0] if out['results'] else {}
    v = list(r.get('viols', []))
    rec = r.get('recorded', {})
    h = r.get('hash', '')
    if out.get('fatal'):
        f = out['fatal']
        v.append(['fatal:' + f['kind'], f['msg']])
        h = hashlib.sha1(json.dumps([f['kind'], f['msg'] if f['kind'] != 'hang' else '', f['decisions']]).encode()).hexdigest()
    return v, h, rec

class Search:
    def __init__(self, prop, module, title, tier, seed, runs, limit, batch, hang=60, components=None, faults_note='', rule='', assumptions=()):
        self.prop, self.module, self.title, self.tier, self.seed = prop, module, title, tier, seed
        self.runs, self.limit, self.batch, self.hang = runs, limit, batch, hang
        self.components = components; self.faults_note = faults_note; self.rule = rule; self.assumptions = list(assumptions)
        self.stats = {}; self.fired = {}; self.sites = {}; self.notes = {}; self.nruns = 0; self.hashes = set(); self.sched = set()
        self.labels = {}; self.samples = []; self.found = []; self.known_hits = {}; self.skipped = 0
        self.known = load_known(prop)
        self.lock = threading.Lock(); self.stop = False
    def one(self, w, spec, knobs, decisions=None, trace=None):
        c = dict(mode='one', module=self.module, prop=self.prop, spec=spec, knobs=knobs, hang=self.hang)
        if decisions is not None: c['decisions'] = decisions
        if trace: c['trace'] = trace
        return w.ask(c)
    def regen(self, seed):
        # spec and knobs of a seed, generated in a worker-independent way
        mod = __import__(self.module)
        from core import gen_knobs
        rng = random.Random('%s/%d' % (self.prop, seed))
        spec = mod.gen(self.prop, rng, self.tier)
        return spec, gen_knobs(rng)
    def run(self, b):
        t0 = time.monotonic(); self.t0 = t0
        n = int(os.environ.get('VERIF_JOBS', 0)) or min(8, os.cpu_count() or 4)
        ws = [Worker(b, [self.module]) for _ in range(n)]
        base = self.seed * 1000003
        q = queue.Queue()
        for i in range(0, self.runs, self.batch):
            q.put([base + j for j in range(i, min(self.runs, i + self.batch))])
        end = t0 + self.limit
        errs = []
        def loop(w):
            try:
                while not self.stop and time.monotonic() < end:
                    try: seeds = q.get_nowait()
                    except queue.Empty: return
                    left = end - time.monotonic()
                    out = w.ask(dict(mode='batch', module=self.module, prop=self.prop, tier=self.tier, seeds=seeds, hang=self.hang, limit=max(1, left)))
                    self.absorb(out, seeds)
            except Exception as e:
                errs.append(e); self.stop = True
        th = [threading.Thread(target=loop, args=(w,)) for w in ws]
        for t in th: t.start()
        for t in th: t.join()
        self.search_s = time.monotonic() - t0
        if errs: raise errs[0]
        viol = None
        if os.environ.get('VERIF_DEV'):
            seen = {}
            for f in self.found:
                for v in f[1]: seen.setdefault(v[0] + (v[1][:60] if v[0].startswith(('exc', 'fatal')) else ''), []).append((f[0], v[1]))
            for k, l in sorted(seen.items()):
                print('---- %s x%d seed %s: %s' % (k, len(l), l[0][0], l[0][1][:int(os.environ.get('VERIF_DEV'))]))
            self.found = []
        for f in self.found:
            viol = self.judge(ws, f)
            if viol: break
        for w in ws: w.close()
        return viol
    def absorb(self, out, seeds):
        with self.lock:
            if out.get('harness'):
                raise HarnessError(out['harness'])
            for r in out['results']:
                self.nruns += 1
                for k, v in r['stats'].items():
                    if k == 'evhash':
                        self.sched.add(tuple(v))
                    elif k == 'peak_pending': self.stats[k] = max(self.stats.get(k, 0), v)
                    else: self.stats[k] = self.stats.get(k, 0) + v
                for d, s in ((self.fired, r['fired']), (self.sites, r['sites']), (self.notes, r['notes'])):
                    for k, v in s.items(): d[k] = d.get(k, 0) + v
                if r['stats'].get('tasks', 0) >= 2: self.hashes.add(r['hash'])
                for l in (r.get('label') or '').split(','):
                    if l: self.labels[l] = self.labels.get(l, 0) + 1
                if r['viols']:
                    self.take(r['done'], r['viols'], seeds)
            if out.get('fatal'):
                self.take(out['cur'], [['fatal:' + out['fatal']['kind'], out['fatal']['msg']]], seeds)
    def take(self, seed, viols, seeds):
        new = [v for v in viols if not self.is_known(v)]
        for v in viols:
            k = self.is_known(v)
            if k: self.known_hits[k] = self.known_hits.get(k, 0) + 1
        if new:
            self.found.append((seed, new, seeds))
            self.stop = not os.environ.get('VERIF_DEV')
    def is_known(self, v):
        for k in self.known:
            if fnmatch.fnmatchcase(v[0] + ' ' + v[1], k): return k
        return None
    # ---------------------------------------------------------------- judging
    def judge(self, ws, f):
        seed, viols, seeds = f
        w = ws[0]
        spec, knobs = self.regen(seed)
        sig = viols[0][0]
        a = normalise(self.one(w, spec, knobs)); b = normalise(self.one(ws[-1], spec, knobs))
        if not any(x[0] == sig for x in a[0]) or not any(x[0] == sig for x in b[0]):
            if not a[0] and not b[0]:
                # not reproduced alone: the state left by earlier runs of the child matters
                out = w.ask(dict(mode='batch', module=self.module, prop=self.prop, tier=self.tier, seeds=seeds, hang=self.hang, limit=600))
                vs = [r['viols'] for r in out['results'] if r['viols']]
                if out.get('fatal'): vs.append([['fatal:' + out['fatal']['kind'], out['fatal']['msg']]])
                if vs:
                    return self.write(dict(kind='batch', seeds=seeds[:seeds.index(seed)+1], tier=self.tier), vs[0])
                raise HarnessError('violation of seed %d could not be repeated: %s' % (seed, viols))
            sig = (a[0] or b[0])[0][0]
            if not a[0] or not b[0]:
                # depends on real memory addresses or the like: judge by repeating
                hits = sum(1 for _ in range(6) if normalise(self.one(w, spec, knobs))[0])
                if hits < 1: raise HarnessError('violation of seed %d is not repeatable: %s' % (seed, viols))
        print('violation found with seed %d: %s: %s' % (seed, *viols[0]), flush=True)
        spec, knobs, dec, viol = self.minimise(ws, spec, knobs, sig, a[0] or b[0])
        rep = dict(kind='one', spec=spec, knobs=knobs, decisions=dec)
        x, y = normalise(self.one(w, spec, knobs, dec)), normalise(self.one(ws[-1], spec, knobs, dec))
        if not x[0] or not y[0]:
            spec, knobs = self.regen(seed); rep = dict(kind='one', spec=spec, knobs=knobs, decisions=None)
            x = normalise(self.one(w, spec, knobs)); y = normalise(self.one(ws[-1], spec, knobs))
        rep['hash'] = x[1]; rep['deterministic'] = x[1] == y[1]
        return self.write(rep, (x[0] or viol), seed)
    def minimise(self, ws, spec, knobs, sig, viol):
        t_end = time.monotonic() + (60 if self.tier == 'quick' else 300)
        best = [spec, knobs, viol]
        def bad(sp, kn, dec=None, w=ws[0]):
            try:
                v = normalise(self.one(w, sp, kn, dec))
            except HarnessError:
                return None
            m = [x for x in v[0] if x[0] == sig]
            return (m, v[2]) if m else None
        mod = __import__(self.module)
        shrink = getattr(mod, 'shrink', default_shrink)
        progress = True
        while progress and time.monotonic() < t_end:
            progress = False
            for cand in shrink(best[0]):
                if time.monotonic() > t_end: break
                for k in (best[1], dict(best[1], seed=best[1]['seed'] ^ 12345)):
                    r = bad(cand, k)
                    if r:
                        best = [cand, k, r[0]]; progress = True; break
                if progress: break
        from core import PLAIN
        for key, val in (('preempt', 0), ('stall', 0), ('reloc', 0), ('policy', 2), ('eager', 256), ('burst', 1000000), ('eager', 0), ('max_workers', 1), ('max_workers', 2), ('fill', 0)):
            if best[1][key] == val or time.monotonic() > t_end: continue
            k = dict(best[1], **{key: val}); r = bad(best[0], k)
            if r: best[1], best[2] = k, r[0]
        # the schedule itself: record, then cut and zero decisions
        out = self.one(ws[0], best[0], best[1]); v, h, rec = normalise(out)
        if out.get('fatal'):
            rec = dict(rec); n = len(rec); rec[str(n)] = out['fatal']['decisions']
        dec = {k: list(x) for k, x in rec.items()}
        if not bad(best[0], best[1], dec):
            return best[0], best[1], None, best[2]
        for k in sorted(dec):
            lo, hi = 0, len(dec[k])
            while lo < hi and time.monotonic() < t_end:
                mid = (lo+hi)//2
                if bad(best[0], best[1], dict(dec, **{k: dec[k][:mid]})): hi = mid
                else: lo = mid+1
            c = dict(dec, **{k: dec[k][:hi]})
            if bad(best[0], best[1], c): dec = c
            size = max(1, len(dec[k])//2)
            while size >= 1 and time.monotonic() < t_end:
                i = 0
                while i < len(dec[k]) and time.monotonic() < t_end:
                    if any(dec[k][i:i+size]):
                        c = dict(dec, **{k: dec[k][:i] + [0]*len(dec[k][i:i+size]) + dec[k][i+size:]})
                        if bad(best[0], best[1], c): dec = c
                    i += size
                if size == 1 or len(dec[k]) > 4000: break
                size //= 2
        r = bad(best[0], best[1], dec)
        return best[0], best[1], dec, (r[0] if r else best[2])
    def write(self, rep, viols, seed=None):
        rep = dict(property=self.prop, module=self.module, seed=seed, violation=viols[0], violations=viols, **rep)
        d = os.path.join(ROOT, 'replays'); os.makedirs(d, exist_ok=True)
        name = '%s-%s.json' % (self.prop, hashlib.sha1(json.dumps([viols[0][0], rep.get('spec')], sort_keys=True).encode()).hexdigest()[:10])
        p = os.path.join(d, name)
        json.dump(rep, open(p, 'w'), indent=1)
        return p, viols
    def evidence(self, wall, viol, build_s):
        hrs = max(1e-9, self.search_s/3600)
        mod = __import__(self.module)
        smp = []
        for i in range(3):
            sp, kn = self.regen(self.seed*1000003 + i)
            s = json.dumps(dict(seed=self.seed*1000003+i, knobs=kn, spec=sp))
            smp.append(s if len(s) < 3000 else s[:3000] + ' ...')
        st = self.stats
        cov = dict(evaluations=self.nruns, distinct_nontrivial=len(self.hashes), rule=self.rule or
            'one run = one seed: a generated program or operand set, knobs of the simulated scheduler and memory, and faults; distinct = distinct hash of all values the application observed and of the sequence of scheduling events; non-trivial = the runtime executed at least 2 tasks',
            samples=smp, runs_per_hour=int(self.nruns/hrs), seeds_per_hour=int(self.nruns/hrs), first_seed=self.seed*1000003,
            simulated_seconds=round(st.get('simtime_us', 0)/1e6, 3), distinct_schedules=len(self.sched),
            distinct_schedules_measure='hash of the sequence of submissions, task starts (task, worker), preemptions and completions of all runtime sessions of a run',
            tasks=st.get('tasks', 0), scheduling_steps=st.get('steps', 0), preemptions=st.get('preemptions', 0), preemptions_with_other_tasks_half_done=st.get('preempted_with_others_live', 0),
            data_relocations=st.get('relocations', 0), undefined_buffers_poisoned=st.get('poisoned', 0), parallel_reduction_phases=st.get('redux_phases', 0),
            blocking_waits=st.get('blocking_waits', 0), polling_sleeps=st.get('sleeps', 0), virtual_gpu_tasks=st.get('virtual_gpu_tasks', 0), **({k: st.get(k, 0) for k in ('gpu_tasks', 'gpu_kernels', 'gpu_rejected_launches', 'gpu_barriers', 'gpu_threads')} if st.get('gpu_tasks') else {}), most_unfinished_tasks=st.get('peak_pending', 0),
            faults_injected=dict(self.fired, worker_stalls=st.get('stalls', 0)), fault_sites_passed=self.sites, workloads=dict(sorted(self.labels.items())), notes=self.notes,
            components=self.components or dict(real=['libnntile (kernels, codelets, tile and tensor operations; basic-block instrumented)', 'nntile_core Python binding', 'nntile Python package'] + ['CUDA codelets and kernels (translated to C++)']*(st.get('gpu_tasks', 0) > 0), stub=['StarPU runtime: scheduler, data management and clock simulated'] + (['GPU kernels of the tensor-core and half-precision modes (stand-ins)']*(st.get('virtual_gpu_tasks', 0) > 0)) + ['CUDA runtime, device and cuBLAS: emulated']*(st.get('gpu_tasks', 0) > 0)),
            search_s=round(self.search_s, 2), build_s=round(build_s, 2), known_findings_seen=self.known_hits)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='exploration', coverage=cov,
            assumptions=['the simulated runtime keeps StarPU\'s documented contract (data coherence, implicit dependencies, reduction and scratch modes)', 'the compiler and the numpy/torch reference arithmetic are right'] + self.assumptions,
            wall_s=round(wall, 2), violations=1 if viol else 0)
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        p = os.path.join(ROOT, 'evidence', self.prop + '.json')
        json.dump(ev, open(p + '.tmp', 'w'), indent=1); os.replace(p + '.tmp', p)

def default_shrink(spec):
    st = spec.get('steps', [])
    if len(st) > 1:
        h = len(st)//2
        if h >= 1:
            yield dict(spec, steps=st[:h]); yield dict(spec, steps=st[h:])
        for i in range(len(st)):
            yield dict(spec, steps=st[:i] + st[i+1:])
    if spec.get('faults'):
        for i in range(len(spec['faults'])):
            yield dict(spec, faults=spec['faults'][:i] + spec['faults'][i+1:])

def load_known(prop):
    r = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING:') and ('property=%s ' % prop) in l:
                pat = l.split('match=', 1)[1].split(' :: ')[0] if 'match=' in l else None
                if pat: r.append(pat)
    return r
def known_lines(prop):
    p = os.path.join(ROOT, 'known_findings.txt')
    if not os.path.exists(p): return []
    return [l.strip() for l in open(p) if l.startswith('KNOWN-FINDING:') and ('property=%s ' % prop) in l]
