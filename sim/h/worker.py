"""Worker: a zygote that forks one child per batch of simulated runs.

Protocol (JSON lines): stdin {"id","mode":"batch"|"one",...}; stdout results.
Every run starts in a freshly forked child of the same warmed-up process (batch:
a child runs a list of seeds one after another), so a run can be repeated alone.
"""
import sys, os, json, time, random, select, signal, gc, traceback, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ctypes
import core
from core import Env, Violation, Skip, gen_knobs
os.environ.setdefault('TOKENIZERS_PARALLELISM', 'false')
import numpy as np
np.seterr(all='ignore')

def load(name):
    return __import__(name)

def known_exc(e):
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]

def execute(mod, prop, spec, knobs, decisions=None):
    """One simulated run in this process; returns a JSON-able result."""
    import nntile
    gc.collect(); gc.disable()
    env = Env(prop, knobs, decisions)
    env.vgpu = any(w in json.dumps(spec) for w in ('"tf32": 1', '"half": 1'))
    viols = []
    try:
        mod.run(prop, spec, env)
    except Violation as v:
        viols.append([v.sig, v.msg])
    except Skip:
        env.note('skipped')
    except MemoryError as e:
        viols.append(['exception:MemoryError', known_exc(e)])
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/nntile/' in f.filename] or tb[-1:]
        viols.append(['exception:%s' % type(e).__name__, '%s at %s:%s | %s' % (str(e)[:300], os.path.basename(where[-1].filename), where[-1].name, known_exc(e)[-700:])])
    if env.session is not None: # a violation unwound the session
        try:
            env.session.collect(); core.sim().sim_end()
        except Exception:
            pass
        env.session = None
    viols += env.viols
    gc.enable()
    env.hash.update(repr(env.stats.get('evhash')).encode())
    env.hash.update(repr(sorted(v[0] for v in viols)).encode())
    return dict(viols=viols[:5], hash=env.hash.hexdigest(), stats=env.stats, fired=env.fired, sites=env.sites, notes=env.notes, recorded=env.recorded)

def child(cmd, wfd):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 2)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    core.sim().sim_report_fd(wfd)
    out = os.fdopen(wfd, 'w', buffering=1)
    mod = load(cmd['module'])
    if cmd.get('trace'):
        core.sim().sim_trace(cmd['trace'].encode())
    def emit(o):
        out.write(json.dumps(o) + '\n'); out.flush()
    if cmd['mode'] == 'one':
        emit({'start': 0})
        r = execute(mod, cmd['prop'], cmd['spec'], cmd['knobs'], cmd.get('decisions'))
        r['done'] = 0
        emit(r)
    else:
        end = time.monotonic() + cmd.get('limit', 30)
        for seed in cmd['seeds']:
            if time.monotonic() > end:
                break
            emit({'start': seed})
            rng = random.Random('%s/%d' % (cmd['prop'], seed))
            t = time.monotonic()
            spec = mod.gen(cmd['prop'], rng, cmd['tier'])
            knobs = gen_knobs(rng)
            r = execute(mod, cmd['prop'], spec, knobs)
            del r['recorded']
            r['done'] = seed; r['t'] = time.monotonic() - t
            r['label'] = mod.label(cmd['prop'], spec) if hasattr(mod, 'label') else ''
            emit(r)
            if r['viols']:
                break
    os._exit(0)

def run_child(cmd):
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        try:
            child(cmd, wfd)
        except BaseException as e:
            try:
                os.write(wfd, ('\n' + json.dumps({'harness': traceback.format_exc()[-3000:]}) + '\n').encode())
            finally:
                os._exit(99)
    os.close(wfd)
    buf = b''; last = time.monotonic(); hang = False
    limit = cmd.get('hang', 60)
    cur = None
    while True:
        r, _, _ = select.select([rfd], [], [], 1.0)
        if r:
            d = os.read(rfd, 1 << 16)
            if not d:
                break
            buf += d; last = time.monotonic()
        elif time.monotonic() - last > limit:
            hang = True
            os.kill(pid, signal.SIGKILL)
            break
    os.close(rfd)
    _, st = os.waitpid(pid, 0)
    res, fatal, cur, harness = [], None, None, None
    for line in buf.decode(errors='replace').split('\n'):
        if line.startswith('FATAL '):
            kind, msg, dec = (line[6:].split(' | ') + ['', ''])[:3]
            fatal = dict(kind=kind, msg=msg, decisions=[int(x) for x in dec.strip().split(',') if x])
        elif line.startswith('{'):
            try:
                o = json.loads(line)
            except ValueError:
                continue
            if 'start' in o: cur = o['start']
            elif 'harness' in o: harness = o['harness']
            else: res.append(o); cur = None
    out = dict(results=res, cur=cur)
    if harness: out['harness'] = harness
    elif fatal: out['fatal'] = fatal
    elif hang: out['fatal'] = dict(kind='hang', msg='no progress for %d s of real time' % limit, decisions=[])
    elif st != 0: out['fatal'] = dict(kind='crash', msg='process ended with status %d' % st, decisions=[])
    return out

def main():
    import torch
    torch.set_num_threads(1)
    import nntile
    mods = sys.argv[1].split(',')
    for m in mods:
        load(m)
        if hasattr(load(m), 'warm'): load(m).warm()
    gc.collect(); gc.freeze()
    o = os.fdopen(os.dup(1), 'w', buffering=1)
    o.write(json.dumps({'ready': 1}) + '\n'); o.flush()
    for line in sys.stdin:
        cmd = json.loads(line)
        out = run_child(cmd)
        out['id'] = cmd.get('id')
        o.write(json.dumps(out) + '\n'); o.flush()

if __name__ == '__main__':
    main()
