// The simulated GPU, part of simstarpu.cc: streams, kernel launches, thread
// blocks, barriers, shared memory, device memory and cuBLAS.
//
// Kernels are the repository's own, compiled as C++ (cu2cc.py). Threads of a
// block run on fibers that are switched at barriers and at volatile accesses
// in a seeded order; blocks run in a seeded order. All loads and stores of
// kernels are observed (-fsanitize=thread with the callbacks below): two
// accesses of one location from different threads, one of them a write, that
// no barrier, atomic or volatile access separates are a data race; accesses
// outside device memory, shared memory and the parameters are illegal.
#include <sys/mman.h>
#include "cublas_v2.h"
#undef threadIdx
#undef blockIdx
#undef blockDim
#undef gridDim

struct GOp { int kind; dim3 grid, block; size_t smem; void (*call)(void*); void (*drop)(void*); void *ctx; size_t n; const char *name; std::function<void()> f; };
struct SimGpuStream { Vec<GOp> q; };
struct SimCublas { SimGpuStream *s = nullptr; int mode = CUBLAS_POINTER_MODE_HOST; };
struct DevMem { char *map; size_t maplen; char *p; size_t n; char *host; };
struct Gpu { SimGpuStream stream; SimCublas blas; Vec<DevMem> mem; Vec<std::pair<char*, size_t>> pool; int err = 0; };
static Vec<Gpu*> gpus;      // by worker
static bool blas_on = false;
static const char *gtask() { return tls_worker && tls_worker->task ? tname(tls_worker->task) : "?"; }
static Gpu *mygpu(const char *who)
{
    if(!tls_worker || !tls_worker->gpu) fatal("gpu-call-outside-task", "%s called outside a GPU task (%s)", who, gtask());
    return gpus[tls_worker->id];
}

// ---- device memory
static void dev_protect(Gpu *g, bool open)
{
    for(auto &m : g->mem) mprotect(m.map + 4096, m.maplen - 8192, open ? PROT_READ|PROT_WRITE : PROT_NONE);
}
static char *dev_in(Gpu *g, char *host, size_t n)
{
    for(auto &m : g->mem) if(m.host == host) return m.p;
    size_t len = (n + 64 + 4095)/4096*4096 + 8192; char *map = nullptr;
    for(size_t i = 0; i < g->pool.size(); ++i) if(g->pool[i].second == len) { map = g->pool[i].first; g->pool.erase(g->pool.begin()+i); break; }
    if(!map)
    {
        map = (char*)mmap(nullptr, len, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
        if(map == MAP_FAILED) abort();
    }
    mprotect(map + 4096, len - 8192, PROT_READ|PROT_WRITE);
    char *lo = map + 4096, *hi = map + len - 4096, *p = hi - (n + 15)/16*16;
    memset(lo, 0x7f, hi - lo); memcpy(p, host, n);
    g->mem.push_back(DevMem{map, len, p, n, host});
    return p;
}
static void dev_out(Gpu *g)
{
    for(auto &m : g->mem)
    {
        char *lo = m.map + 4096, *hi = m.map + m.maplen - 4096;
        mprotect(lo, hi - lo, PROT_READ|PROT_WRITE);
        for(char *c = lo; c < hi; ++c) if((c < m.p || c >= m.p + m.n) && *c != 0x7f) { violation("buffer-overrun", "%s writes outside a buffer in device memory", gtask()); break; }
        memcpy(m.host, m.p, m.n);
        mprotect(lo, hi - lo, PROT_NONE);
        g->pool.push_back(std::make_pair(m.map, m.maplen));
    }
    g->mem.clear();
}
static bool on_dev(Gpu *g, const void *p, size_t n)
{
    for(auto &m : g->mem) if((char*)p >= m.p && (char*)p + n <= m.p + m.n) return true;
    return false;
}
static void need_dev(Gpu *g, const void *p, size_t n, const char *what)
{
    if(n && !on_dev(g, p, n)) fatal("gpu-illegal-access", "%s in %s uses memory that is not a buffer of the task in device memory", what, gtask());
}

// ---- fibers of GPU threads
extern "C" { SimGpuThread *simgpu_cur = nullptr; }
enum { GSTK = 32768, GMAX = 1024 };
static char *gstacks = nullptr;
struct GFiber { void *sp; bool made; };
static GFiber gfib[GMAX]; static void *gmain_sp; static int gcarrier;
extern "C" void simgpu_switch(void **save, void *to);
asm(".text\n.globl simgpu_switch\n.hidden simgpu_switch\nsimgpu_switch:\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n");
enum { G_NEW, G_READY, G_BARRIER, G_DONE };
struct GThread { SimGpuThread s; int st, carrier; };
static Vec<GThread> gthr; static int gnow = -1; // thread that runs
static bool gin = false; static u32 gepoch = 0, gblk = 0; static int gatomic = 0;
static u64 grng;
static void (*gcall)(void*); static void *gctx; static size_t gctxn; static const char *gname;
static u64 grnd() { grng += 0x9e3779b97f4a7c15ull; return mix(grng); }
static void gfiber_main()
{
    for(;;)
    {
        gcall(gctx);
        gthr[gnow].st = G_DONE;
        simgpu_switch(&gfib[gcarrier].sp, gmain_sp);
    }
}
static void gresume(int t)
{
    GThread &g = gthr[t];
    gnow = t; gcarrier = g.carrier; simgpu_cur = &g.s; gin = true;
    GFiber &f = gfib[g.carrier];
    if(!f.made)
    {
        f.made = true;
        void **sp = (void**)(gstacks + (size_t)(g.carrier+1)*GSTK - 64);
        *--sp = nullptr; *--sp = (void*)gfiber_main; for(int i = 0; i < 6; ++i) *--sp = nullptr;
        f.sp = sp;
    }
    simgpu_switch(&gmain_sp, f.sp);
    gin = false;
}
static void gpause(int st) { gthr[gnow].st = st; simgpu_switch(&gfib[gcarrier].sp, gmain_sp); }

// ---- shared memory of a block
static char *gsh; enum { GSH = 256 << 10 }; static size_t gsh_n; static char *gdyn; static size_t gdyn_n;
struct ShSlot { const void *key; char *p; size_t n; };
static Vec<ShSlot> gslots;
static void gshared_fill(char *p, size_t n) { u64 r = grnd(); for(size_t i = 0; i < n; ++i) p[i] = (r & 1) ? (char)0x7f : (char)(mix(r+i)); if(!(r & 1)) return; }
// ---- races
struct Sh { uintptr_t g; u32 gen; int wt, rt; u32 wb, we, rb, re; bool wrel, rrel; };
static Vec<Sh> gsh_tab; static u32 ggen = 0; static size_t gused = 0; static bool graced = false;
enum { MANY = -2, NONE = -1 };
static Sh *shadow(uintptr_t g)
{
    if(gsh_tab.empty()) gsh_tab.resize(1 << 14);
    if(gused*2 > gsh_tab.size())
    {
        Vec<Sh> o; o.swap(gsh_tab); gsh_tab.resize(o.size()*2);
        size_t m = gsh_tab.size()-1;
        for(auto &e : o) if(e.gen == ggen) { size_t i = mix(e.g) & m; while(gsh_tab[i].gen == ggen) i = (i+1) & m; gsh_tab[i] = e; }
    }
    size_t m = gsh_tab.size()-1, i = mix(g) & m;
    while(gsh_tab[i].gen == ggen) { if(gsh_tab[i].g == g) return &gsh_tab[i]; i = (i+1) & m; }
    ++gused; gsh_tab[i] = Sh{g, ggen, NONE, NONE, 0, 0, 0, 0, false, false};
    return &gsh_tab[i];
}
static void race(const char *what, const void *p)
{
    if(graced) return;
    graced = true;
    violation("gpu-race", "%s: threads of kernel '%s' access one location of %s memory, one writes, nothing orders them (%s)", gtask(), gname, (char*)p >= gsh && (char*)p < gsh + GSH ? "shared" : "device", what);
}
static bool within_lib(const void *p)
{
    if(!lib_hi) dl_iterate_phdr(find_lib, nullptr);
    return (uintptr_t)p >= lib_lo && (uintptr_t)p < lib_hi;
}
static void gaccess(const void *p, size_t n, bool wr, bool vol)
{
    char *c = (char*)p;
    if(c >= gstacks && c < gstacks + (size_t)GMAX*GSTK) return;
    if(c == (char*)&simgpu_cur || (c >= (char*)gthr.data() && c < (char*)(gthr.data() + gthr.size()))) return;
    bool rel = vol || gatomic;
    if(c >= (char*)gctx && c < (char*)gctx + gctxn)
    {
        if(wr) race("the parameters are written", p);
        return;
    }
    bool sh = c >= gsh && c < gsh + GSH;
    if(!sh)
    {
        if(!on_dev(gpus[tls_worker->id], p, n))
        {
            if(!wr && within_lib(p)) return; // constants
            gin = false; fatal("gpu-illegal-access", "kernel '%s' of %s %s memory that is neither a buffer of the task nor shared", gname, gtask(), wr ? "writes" : "reads");
        }
    }
    for(uintptr_t g = (uintptr_t)c >> 1; g <= ((uintptr_t)c + n - 1) >> 1; ++g)
    {
        Sh *e = shadow(g);
        if(sh && ((e->wt != NONE && e->wb != gblk) || (e->rt != NONE && e->rb != gblk))) *e = Sh{g, ggen, NONE, NONE, 0, 0, 0, 0, false, false}; // the shared memory of another block
        auto ordered = [&](int t, u32 b, u32 ep) { return t == NONE || (t == gnow && b == gblk) || (t != MANY && b == gblk && ep < gepoch) || (t == MANY && b == gblk && ep < gepoch); };
        if(!(e->wrel && rel) && !ordered(e->wt, e->wb, e->we)) race(wr ? "two writes" : "a read after a write", p);
        if(wr)
        {
            if(!(e->rrel && rel) && !ordered(e->rt, e->rb, e->re)) race("a write after a read", p);
            e->wt = gnow; e->wb = gblk; e->we = gepoch; e->wrel = rel;
            if(e->rt != NONE && e->rb == gblk && e->re < gepoch) e->rt = NONE;
        }
        else
        {
            if(e->rt == NONE || (e->rb == gblk && e->re < gepoch)) { e->rt = gnow; e->rb = gblk; e->re = gepoch; e->rrel = rel; }
            else if(e->rb != gblk) { e->rt = MANY; e->rb = 0xffffffffu; e->rrel &= rel; }
            else { if(e->rt != gnow) e->rt = MANY; e->rrel &= rel; }
        }
    }
    if(vol && !gatomic) gpause(G_READY);
}
extern "C" {
void simgpu_barrier(void)
{
    if(!gin) fatal("gpu-barrier", "barrier outside a kernel");
    gpause(G_BARRIER);
}
void *simgpu_shared(const void *key, size_t n)
{
    for(auto &s : gslots) if(s.key == key) return s.p;
    gsh_n = (gsh_n + 15)/16*16;
    if(gsh_n + n > GSH) fatal("gpu-launch", "kernel '%s' of %s uses too much shared memory", gname, gtask());
    char *p = gsh + gsh_n; gsh_n += n; gslots.push_back(ShSlot{key, p, n}); gshared_fill(p, n);
    return p;
}
void *simgpu_dynamic(void)
{
    if(!gdyn) fatal("gpu-illegal-access", "kernel '%s' of %s uses dynamic shared memory without any", gname, gtask());
    return gdyn;
}
void simgpu_atomic(const void *p, size_t) { gatomic = p != nullptr; }
cudaStream_t simgpu_stream(void) { return &mygpu("a launch on the default stream")->stream; }
void simgpu_launch(dim3 g, dim3 b, size_t smem, cudaStream_t s, void (*call)(void*), void (*drop)(void*), void *ctx, size_t n, const char *name)
{
    Gpu *me = mygpu("a kernel launch");
    if(s != &me->stream) fatal("gpu-stream", "%s launches a kernel on a stream that is not its worker's", gtask());
    GOp o; o.kind = 0; o.grid = g; o.block = b; o.smem = smem; o.call = call; o.drop = drop; o.ctx = ctx; o.n = n; o.name = name;
    if(!g.x || !g.y || !g.z || g.y > 65535 || g.z > 65535 || g.x > 0x7fffffffu || !b.x || !b.y || !b.z || (u64)b.x*b.y*b.z > 1024 || b.z > 64 || smem > 48 << 10)
    {
        ++S[S_GPU_BADLAUNCH]; me->err = cudaErrorInvalidConfiguration; drop(ctx); return; // as on the device: nothing runs
    }
    s->q.push_back(o);
}
int simgpu_error(void) { Gpu *me = mygpu("cudaGetLastError"); int e = me->err; me->err = 0; return e; }
}
static void gop(cudaStream_t s, std::function<void()> f) { GOp o; o.kind = 1; o.f = std::move(f); s->q.push_back(o); }
static void run_kernel(GOp &o)
{
    ++S[S_GPU_KERNELS];
    if(!gstacks)
    {
        gstacks = (char*)mmap(nullptr, (size_t)GMAX*GSTK, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
        gsh = (char*)mmap(nullptr, GSH, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    }
    u32 T = o.block.x*o.block.y*o.block.z; u64 NB = (u64)o.grid.x*o.grid.y*o.grid.z;
    u32 mode = choose(4); grng = mix(C.seed ^ (mode ? choose(1 << 16) : 0));
    gcall = o.call; gctx = o.ctx; gctxn = o.n; gname = o.name; graced = false;
    if(++ggen == 0) ++ggen;
    gused = 0;
    Vec<u32> border; bool shuffle = mode == 2 || mode == 3;
    u64 mul = 1, add = 0;
    if(shuffle && NB > 1) { mul = (grnd() | 1) % NB; while(std::__gcd(mul ? mul : NB, NB) != 1) mul = (mul + 1) % NB; add = grnd() % NB; }
    for(u64 i = 0; i < NB; ++i)
    {
        u64 k = mode == 1 ? NB-1-i : shuffle ? (u64)(((unsigned __int128)i*mul + add) % NB) : i;
        gblk = (u32)k; gepoch = 0; gslots.clear(); gsh_n = o.smem; gdyn = o.smem ? gsh : nullptr; gdyn_n = o.smem;
        if(o.smem) gshared_fill(gdyn, o.smem);
        gthr.resize(T); Vec<int> free; u32 W = (T + 31)/32; Vec<u32> run; // warps with threads that can run
        for(u32 t = 0; t < T; ++t)
        {
            GThread &g = gthr[t]; g.st = G_NEW; g.carrier = -1;
            g.s.tid = uint3{t % o.block.x, t/o.block.x % o.block.y, t/o.block.x/o.block.y};
            g.s.bid = uint3{(unsigned)(k % o.grid.x), (unsigned)(k/o.grid.x % o.grid.y), (unsigned)(k/o.grid.x/o.grid.y)};
            g.s.bdim = o.block; g.s.gdim = o.grid;
        }
        for(int c = GMAX-1; c >= 0; --c) free.push_back(c);
        for(u32 w = 0; w < W; ++w) run.push_back(w);
        u64 rounds = 0;
        while(!run.empty())
        {
            // the threads of a warp advance together from one volatile access to the next
            size_t j = mode == 0 ? 0 : mode == 1 ? run.size()-1 : grnd() % run.size();
            u32 w = run[j], n = std::min(T - w*32, 32u), r0 = mode < 2 ? 0 : grnd() % n; bool more = false;
            for(u32 x = 0; x < n; ++x)
            {
                int t = (int)(w*32 + (mode == 1 ? n-1-x : (x + r0) % n));
                if(gthr[t].st != G_NEW && gthr[t].st != G_READY) continue;
                if(gthr[t].carrier < 0) { gthr[t].carrier = free.back(); free.pop_back(); }
                gresume(t);
                if(gthr[t].st == G_DONE) { free.push_back(gthr[t].carrier); gthr[t].carrier = -1; }
                else if(gthr[t].st == G_READY) more = true;
            }
            if(!more) run.erase(run.begin()+j);
            else if(mode == 0 && run.size() > 1) { run.erase(run.begin()); run.push_back(w); }
            if(++rounds > 1000000) fatal("gpu-no-progress", "kernel '%s' of %s does not end", gname, gtask());
            if(run.empty())
            {
                ++gepoch; int prev = -1;
                for(u32 x = 0; x < T; ++x) if(gthr[x].st == G_BARRIER) { gthr[x].st = G_READY; if((int)(x/32) != prev) run.push_back(prev = x/32); }
                if(!run.empty()) ++S[S_GPU_BARRIERS];
            }
        }
        S[S_GPU_THREADS] += T;
    }
    simgpu_cur = nullptr; gnow = -1;
    gthr.clear();
}
static void run_stream(Gpu *g)
{
    if(g->stream.q.empty()) return;
    dev_protect(g, true);
    ++tls_nopreempt;
    Vec<GOp> q; q.swap(g->stream.q);
    for(auto &o : q) if(o.kind == 0) { run_kernel(o); o.drop(o.ctx); } else o.f();
    --tls_nopreempt;
    dev_protect(g, false);
}
extern "C" {
int simgpu_sync(cudaStream_t s)
{
    Gpu *me = mygpu("cudaStreamSynchronize");
    if(s != &me->stream) fatal("gpu-stream", "%s waits for a stream that is not its worker's", gtask());
    run_stream(me); return 0;
}
int simgpu_memcpy(void *d, const void *s, size_t n, int kind, cudaStream_t st)
{
    Gpu *me = mygpu("cudaMemcpyAsync"); if(st != &me->stream) fatal("gpu-stream", "%s copies on a stream that is not its worker's", gtask());
    if(kind == cudaMemcpyHostToDevice) { Vec<char> c((const char*)s, (const char*)s + n); gop(st, [=]() { need_dev(me, d, n, "a copy"); memcpy(d, c.data(), n); }); }
    else if(kind == cudaMemcpyDeviceToHost) gop(st, [=]() { need_dev(me, s, n, "a copy"); memcpy(d, s, n); });
    else gop(st, [=]() { need_dev(me, d, n, "a copy"); need_dev(me, s, n, "a copy"); if((char*)d < (char*)s + n && (char*)s < (char*)d + n && d != s) violation("gpu-overlap", "%s copies overlapping memory", gtask()); memmove(d, s, n); });
    return 0;
}
int simgpu_memset(void *d, int v, size_t n, cudaStream_t st)
{
    Gpu *me = mygpu("cudaMemsetAsync"); if(st != &me->stream) fatal("gpu-stream", "%s fills on a stream that is not its worker's", gtask());
    gop(st, [=]() { need_dev(me, d, n, "a fill"); memset(d, v, n); });
    return 0;
}
cudaStream_t starpu_cuda_get_local_stream(void) { return &mygpu("starpu_cuda_get_local_stream")->stream; }
cublasHandle_t starpu_cublas_get_local_handle(void)
{
    Gpu *g = mygpu("starpu_cublas_get_local_handle");
    if(!blas_on) fatal("cublas-not-initialised", "%s uses cuBLAS, which was not initialised", gtask());
    return &g->blas;
}
void starpu_cublas_init(void) { check_thread("starpu_cublas_init"); blas_on = true; for(auto g : gpus) if(g) g->blas = SimCublas(); }
void starpu_cublas_shutdown(void) { if(!active) return; check_thread("starpu_cublas_shutdown"); blas_on = false; }
// ---- cuBLAS
int simblas_stream(cublasHandle_t h, cudaStream_t s) { h->s = s; return 0; }
int simblas_mode(cublasHandle_t h, cublasPointerMode_t m) { h->mode = m; return 0; }
}
static size_t tsize(int t) { return t == 0 ? 4 : t == 1 ? 8 : 2; }
static double tget(int t, const void *p, long i) { return t == 0 ? ((const float*)p)[i] : t == 1 ? ((const double*)p)[i] : (double)((const _Float16*)p)[i]; }
static void tput(int t, void *p, long i, double v) { if(t == 0) ((float*)p)[i] = (float)v; else if(t == 1) ((double*)p)[i] = v; else ((_Float16*)p)[i] = (_Float16)(float)v; }
static Gpu *bgpu(cublasHandle_t h)
{
    Gpu *me = mygpu("cuBLAS");
    if(h != &me->blas || h->s != &me->stream) fatal("gpu-stream", "%s uses cuBLAS with a stream or handle that is not its worker's", gtask());
    return me;
}
// scalars: read at the call when on the host, at execution when on the device
static std::function<double()> scalar(Gpu *g, cublasHandle_t h, int t, const void *p)
{
    if(h->mode == CUBLAS_POINTER_MODE_HOST)
    {
        if(on_dev(g, p, 1)) fatal("gpu-illegal-access", "%s passes a scalar in device memory to cuBLAS, which expects it on the host", gtask());
        double v = tget(t, p, 0); return [v]() { return v; };
    }
    return [=]() { need_dev(g, p, tsize(t), "a scalar of cuBLAS"); return tget(t, p, 0); };
}
extern "C" {
int simblas_gemm(cublasHandle_t h, int t, int ts, int ta, int tb, long m, long n, long k, const void *al, const void *A, long lda, long long sa, const void *B, long ldb, long long sb, const void *be, void *Cp, long ldc, long long sc, long batch)
{
    Gpu *g = bgpu(h);
    long ra = ta ? k : m, ca = ta ? m : k, rb = tb ? n : k, cb = tb ? k : n;
    if(m < 0 || n < 0 || k < 0 || batch < 0 || lda < std::max(1L, ra) || ldb < std::max(1L, rb) || ldc < std::max(1L, m)) { ++S[S_GPU_BADLAUNCH]; return 7; }
    auto fa = scalar(g, h, ts, al), fb = scalar(g, h, ts, be);
    gop(h->s, [=]()
    {
        ++S[S_GPU_KERNELS];
        double alpha = fa(), beta = fb(); size_t z = tsize(t);
        if(!m || !n || !batch) return;
        need_dev(g, Cp, z*((batch-1)*sc + (n-1)*ldc + m), "cuBLAS gemm");
        if(k) { need_dev(g, A, z*((batch-1)*sa + (ca-1)*lda + ra), "cuBLAS gemm"); need_dev(g, B, z*((batch-1)*sb + (cb-1)*ldb + rb), "cuBLAS gemm"); }
        bool forth = C.seed & 64; // order of summation: the same shape is computed the same way every time, as with cuBLAS
        for(long b = 0; b < batch; ++b) for(long j = 0; j < n; ++j) for(long i = 0; i < m; ++i)
        {
            double s = 0;
            for(long q = 0; q < k; ++q)
            {
                long l = forth ? q : k-1-q;
                s += tget(t, A, b*sa + (ta ? i*lda + l : l*lda + i))*tget(t, B, b*sb + (tb ? l*ldb + j : j*ldb + l));
                if(t == 0) s = (float)s;
            }
            s *= alpha;
            if(beta != 0) s += beta*tget(t, Cp, b*sc + j*ldc + i);
            tput(t, Cp, b*sc + j*ldc + i, s);
        }
    });
    return 0;
}
int simblas_axpy(cublasHandle_t h, int t, long n, const void *al, const void *x, long ix, void *y, long iy)
{
    Gpu *g = bgpu(h); auto fa = scalar(g, h, t, al);
    gop(h->s, [=]()
    {
        ++S[S_GPU_KERNELS];
        if(n <= 0) return;
        need_dev(g, x, tsize(t)*((n-1)*ix+1), "cuBLAS axpy"); need_dev(g, y, tsize(t)*((n-1)*iy+1), "cuBLAS axpy");
        double a = fa(); for(long i = 0; i < n; ++i) tput(t, y, i*iy, tget(t, y, i*iy) + a*tget(t, x, i*ix));
    });
    return 0;
}
int simblas_scal(cublasHandle_t h, int t, long n, const void *al, void *x, long ix)
{
    Gpu *g = bgpu(h); auto fa = scalar(g, h, t, al);
    gop(h->s, [=]()
    {
        ++S[S_GPU_KERNELS];
        if(n <= 0) return;
        need_dev(g, x, tsize(t)*((n-1)*ix+1), "cuBLAS scal"); double a = fa();
        for(long i = 0; i < n; ++i) tput(t, x, i*ix, a*tget(t, x, i*ix));
    });
    return 0;
}
int simblas_nrm2(cublasHandle_t h, int t, long n, const void *x, long ix, void *r)
{
    Gpu *g = bgpu(h); bool dev = h->mode == CUBLAS_POINTER_MODE_DEVICE;
    auto f = [=]()
    {
        ++S[S_GPU_KERNELS];
        if(n > 0) need_dev(g, x, tsize(t)*((n-1)*ix+1), "cuBLAS nrm2");
        if(dev) need_dev(g, r, tsize(t), "cuBLAS nrm2");
        double m = 0, s = 0; bool bad = false;
        for(long i = 0; i < n; ++i) { double v = std::fabs(tget(t, x, i*ix)); if(v != v) bad = true; if(v > m) m = v; }
        if(m > 0 && m < INFINITY) for(long i = 0; i < n; ++i) { double v = tget(t, x, i*ix)/m; s += v*v; }
        tput(t, r, 0, bad ? NAN : m < INFINITY ? m*std::sqrt(s) : m);
    };
    gop(h->s, f);
    if(!dev) run_stream(g);
    return 0;
}
// ---- observed accesses
#define SEEN(n) \
void __tsan_read##n(void *p) { if(gin) gaccess(p, n, false, false); } void __tsan_write##n(void *p) { if(gin) gaccess(p, n, true, false); } \
void __tsan_volatile_read##n(void *p) { if(gin) gaccess(p, n, false, true); } void __tsan_volatile_write##n(void *p) { if(gin) gaccess(p, n, true, true); }
SEEN(1) SEEN(2) SEEN(4) SEEN(8) SEEN(16)
#define SEENU(n) \
void __tsan_unaligned_read##n(void *p) { if(gin) gaccess(p, n, false, false); } void __tsan_unaligned_write##n(void *p) { if(gin) gaccess(p, n, true, false); } \
void __tsan_unaligned_volatile_read##n(void *p) { if(gin) gaccess(p, n, false, true); } void __tsan_unaligned_volatile_write##n(void *p) { if(gin) gaccess(p, n, true, true); }
SEENU(2) SEENU(4) SEENU(8) SEENU(16)
void __tsan_read_range(void *p, size_t n) { if(gin && n) gaccess(p, n, false, false); }
void __tsan_write_range(void *p, size_t n) { if(gin && n) gaccess(p, n, true, false); }
void __tsan_init(void) {} void __tsan_func_entry(void *) {} void __tsan_func_exit(void) {} void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
}
// A task function on a GPU worker: buffers move to device memory, which the
// host cannot touch; work that the function leaves in the stream is done when
// the task ends, provided that the codelet says so.
static void gpu_call(struct starpu_codelet *cl, int impl, void **bufs, int nb, void *arg)
{
    Gpu *g = gpus[tls_worker->id];
    Vec<struct starpu_variable_interface> vi(nb); Vec<void*> bp(nb);
    for(int i = 0; i < nb; ++i)
    {
        vi[i] = *(struct starpu_variable_interface*)bufs[i];
        vi[i].ptr = vi[i].dev_handle = (uintptr_t)dev_in(g, (char*)vi[i].ptr, vi[i].elemsize); bp[i] = &vi[i];
    }
    ++S[S_VGPU];
    dev_protect(g, false);
    cl->cuda_funcs[impl](bp.data(), arg);
    if(!g->stream.q.empty() && !(cl->cuda_flags[impl] & STARPU_CUDA_ASYNC))
        violation("gpu-async", "%s ends while its work on the GPU is unfinished", gtask());
    run_stream(g);
    dev_out(g);
}
static void gpus_stop() { for(auto g : gpus) if(g) { for(auto &m : g->pool) munmap(m.first, m.second); del(g); } gpus.clear(); blas_on = false; }
