#!/usr/bin/env python3
"""Builds what the checks need from /repo's current working tree.

Everything is compiled from the compile commands that the repository's own
CMake configuration yields (so files added to or removed from the build are
followed), with the optimisation level and instrumentation changed:
  - libnntile.so    real NNTile library, basic-block instrumented (preemption)
  - nntile_core.so  real Python binding
  - nntile/*.py     real Python package (copied by CMake's configure step)
  - libstarpu-1.4.so.4   the simulated runtime (simstarpu.cc)
  - libtileshim.so  C entry points to the tile level, which Python lacks
  - gpu/  (target gpu) the same library and binding built for CUDA, with the CUDA
    kernels compiled as C++ for the simulated GPU (sim/gpu)
Object files are reused when the command and every file it read are unchanged.
"""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, shlex, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(ROOT, '.build'))
PY = '/opt/nntile-venv/bin/python'
WRAP = ['pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_once', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', 'malloc', 'free']

class BuildError(Exception):
    pass

def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('command failed (%d): %s\n%s' % (p.returncode, ' '.join(cmd)[:600], p.stdout[-4000:]))
    return p.stdout

_h = {}
def fhash(path):
    try:
        st = os.stat(path)
    except OSError:
        return None
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _h:
        with open(path, 'rb') as f:
            _h[k] = hashlib.sha1(f.read()).hexdigest()
    return _h[k]

def compile_one(cmd, cwd, obj):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    dep = obj + '.d'; man = obj + '.json'
    key = hashlib.sha1('\0'.join(cmd).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(man):
        try:
            m = json.load(open(man))
            if m['key'] == key and all(fhash(f) == h for f, h in m['deps']):
                return False
        except (ValueError, KeyError):
            pass
    if os.path.exists(man):
        os.remove(man)
    run(cmd + ['-MD', '-MF', dep, '-o', obj], cwd)
    txt = open(dep).read().replace('\\\n', ' ')
    files = shlex.split(txt.split(':', 1)[1])
    files = [os.path.normpath(os.path.join(cwd, f)) for f in files]
    json.dump({'key': key, 'deps': [[f, fhash(f)] for f in files if not f.startswith('/usr/')]}, open(man, 'w'))
    return True

def configure(b):
    env = dict(os.environ)
    args = ['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
        '-DCMAKE_CXX_FLAGS=-Wno-error -include cmath', '-DBUILD_TESTS=OFF', '-DBUILD_EXAMPLES=OFF', '-DBUILD_DOCS=OFF',
        '-DUSE_CUDA=OFF', '-DPYTHON_EXECUTABLE=' + PY, '-DFETCHCONTENT_FULLY_DISCONNECTED=ON',
        '-DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON']
    p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if p.returncode and os.path.isdir(b): # a stale or broken cache
        shutil.rmtree(b)
        p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if p.returncode:
        raise BuildError('cmake failed\n' + p.stdout[-4000:])

def cu_sources():
    """sources that the library has only when it is built for CUDA"""
    txt = re.sub(r'#.*', '', open(os.path.join(REPO, 'src', 'CMakeLists.txt')).read())
    l = set(re.findall(r'[\w/]+\.cu\b', txt))
    for blk in re.findall(r'if\s*\(\s*NNTILE_USE_CUDA\s*\)(.*?)endif', txt, re.S): l |= set(re.findall(r'[\w/]+\.cc\b', blk))
    return [f for f in sorted(os.path.join(REPO, 'src', m) for m in l) if os.path.exists(f)]

def write_cu(f, dst, cu2cc):
    try: txt = '#line 1 "%s"\n' % f + cu2cc.transform(open(f).read())
    except Exception as e: raise BuildError('cannot transform %s: %r' % (f, e))
    if not os.path.exists(dst) or open(dst).read() != txt: open(dst, 'w').write(txt)

def build(verbose=False, target=None):
    t0 = time.time()
    b = os.path.join(BUILD, 'cm')
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    # CMake caches the source directory: start again if it differs
    cache = os.path.join(b, 'CMakeCache.txt')
    if os.path.exists(cache) and ('CMAKE_HOME_DIRECTORY:INTERNAL=%s\n' % REPO) not in open(cache).read():
        shutil.rmtree(b)
    pyold = os.path.join(b, 'wrappers', 'python', 'nntile')
    if os.path.isdir(pyold):
        shutil.rmtree(pyold)  # the package is copied afresh: nothing stale stays
    configure(b)
    cc = json.load(open(os.path.join(b, 'compile_commands.json')))
    obj = os.path.join(BUILD, 'obj'); out = os.path.join(BUILD, 'lib')
    os.makedirs(out, exist_ok=True)
    jobs, libobjs, coreobjs = [], [], []
    for c in cc:
        a = shlex.split(c['command'])
        a = [x for x in a if x not in ('-c',) and not re.match(r'-O[0-9s]$|-g\d?$|-fvisibility', x)]
        o = a.index('-o'); del a[o:o+2]
        core = c['file'].endswith('nntile_core.cc')
        a += ['-c', '-g0', '-w']
        if core:
            a += ['-O0', '-D_GLIBCXX_ASSERTIONS', '-fvisibility=hidden']
        else:
            a += ['-O1', '-fsanitize-coverage=trace-pc', '-D_GLIBCXX_ASSERTIONS']
        src = c['file']
        name = re.sub(r'[^A-Za-z0-9_.]', '_', os.path.relpath(src, '/')) + '.o'
        path = os.path.join(obj, name)
        (coreobjs if core else libobjs).append(path)
        jobs.append((0 if core else 2, a, c['directory'], path))
    inc = ['-I' + REPO + '/include', '-I' + b + '/include', '-I/usr/include/starpu/1.4']
    simo = os.path.join(obj, 'simstarpu.o'); shimo = os.path.join(obj, 'tileshim.o')
    jobs.append((1, ['g++', '-std=gnu++17', '-O2', '-g1', '-fPIC', '-w', '-c', '-I/usr/include/starpu/1.4', '-I' + os.path.join(HERE, 'gpu'), os.path.join(HERE, 'simstarpu.cc')], HERE, simo))
    shim = os.path.join(HERE, 'tileshim.cc')
    gdir = os.path.join(HERE, 'gpu'); glibobjs, gcoreobjs = [], []
    gdef = ['-DNNTILE_USE_CUDA', '-include', os.path.join(gdir, 'prelude.h'), '-I' + gdir]
    if target == 'gpu':
        sys.path.insert(0, gdir); import cu2cc
        for pr, a, d, path in list(jobs):
            if path not in libobjs and path not in coreobjs: continue
            o = os.path.join(BUILD, 'gpu', 'obj', os.path.basename(path))
            (gcoreobjs if path in coreobjs else glibobjs).append(o)
            jobs.append((pr, a[:1] + gdef + a[1:], d, o))
        tdir = os.path.join(BUILD, 'gpu', 'cu')
        os.makedirs(tdir, exist_ok=True)
        for f in cu_sources():
            flags = ['-fsanitize=thread', '--param', 'tsan-distinguish-volatile=1', '-I' + os.path.dirname(f)]
            dst = os.path.join(tdir, re.sub(r'[^A-Za-z0-9_.]', '_', os.path.relpath(f, os.path.join(REPO, 'src'))) + '.cc')
            if f.endswith('.cc'): dst, flags = f, ['-fsanitize-coverage=trace-pc']
            else: write_cu(f, dst, cu2cc)
            o = os.path.join(BUILD, 'gpu', 'obj', re.sub(r'[^A-Za-z0-9_.]', '_', os.path.relpath(dst, '/')) + '.o'); glibobjs.append(o)
            jobs.append((2, ['g++', '-std=gnu++17', '-O1', '-fPIC', '-w', '-g0'] + flags + gdef +
                ['-I' + REPO + '/include', '-I' + b + '/include', '-I/usr/include/starpu/1.4', '-c', dst], HERE, o))
    if target == 'shim':
        jobs.append((1, ['g++', '-std=gnu++17', '-O0', '-g0', '-fPIC', '-w', '-include', 'cmath', '-c'] + inc + [shim], HERE, shimo))
    jobs.sort(key=lambda j: j[0])
    n = 0
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        fs = [ex.submit(compile_one, a, d, p) for _, a, d, p in jobs]
        err = None
        for f in fs:
            try:
                n += f.result()
            except BuildError as e:
                err = err or e
        if err:
            raise err
    sim = os.path.join(out, 'libstarpu-1.4.so.4'); lib = os.path.join(out, 'libnntile.so')
    rsp = os.path.join(BUILD, 'link.rsp'); open(rsp, 'w').write('\n'.join(sorted(libobjs)))
    run(['g++', '-shared', '-Wl,-soname,libstarpu-1.4.so.4', '-o', sim, simo, '-ldl', '-lpthread'])
    run(['g++', '-shared', '-Wl,-soname,libnntile.so', '-o', lib, '@' + rsp] + ['-Wl,--wrap=' + w for w in WRAP] +
        ['-Wl,-rpath,' + out, sim, '-lpthread', '/usr/lib/x86_64-linux-gnu/libopenblas.so'])
    core = os.path.join(b, 'wrappers/python/nntile/nntile_core.so')
    run(['g++', '-shared', '-o', core] + coreobjs + ['-Wl,-rpath,' + out, lib, sim, '-lpthread'])
    if target == 'shim':
        run(['g++', '-shared', '-o', os.path.join(out, 'libtileshim.so'), shimo, '-Wl,-rpath,' + out, lib, sim])
    if target == 'gpu':
        gl = os.path.join(BUILD, 'gpu', 'lib'); gp = os.path.join(BUILD, 'gpu', 'python')
        os.makedirs(gl, exist_ok=True); glib = os.path.join(gl, 'libnntile.so')
        rsp = os.path.join(BUILD, 'gpu', 'link.rsp'); open(rsp, 'w').write('\n'.join(sorted(glibobjs)))
        run(['g++', '-shared', '-Wl,-soname,libnntile.so', '-o', glib, '@' + rsp] + ['-Wl,--wrap=' + w for w in WRAP] +
            ['-Wl,-rpath,' + out, sim, '-lpthread', '/usr/lib/x86_64-linux-gnu/libopenblas.so'])
        if os.path.isdir(gp): shutil.rmtree(gp)
        shutil.copytree(os.path.join(b, 'wrappers', 'python', 'nntile'), os.path.join(gp, 'nntile'), ignore=shutil.ignore_patterns('*.so', '__pycache__', 'CMakeFiles'))
        run(['g++', '-shared', '-o', os.path.join(gp, 'nntile', 'nntile_core.so')] + gcoreobjs + ['-Wl,-rpath,' + gl + ':' + out, glib, sim, '-lpthread'])
        lib = glib
    res = {'sim': sim, 'lib': lib, 'shim': os.path.join(out, 'libtileshim.so'), 'python': os.path.join(BUILD, 'gpu', 'python') if target == 'gpu' else os.path.join(b, 'wrappers/python'), 'compiled': n, 'wall_s': time.time()-t0}
    return res

if __name__ == '__main__':
    try:
        print(json.dumps(build(True)))
    except BuildError as e:
        print(e); sys.exit(2)
    for target in ('shim', 'gpu'):
        try:
            build(True, target)  # warms the cache; the checks that need it report a failure
        except BuildError as e:
            print(e)
