// Deterministic simulation of the StarPU runtime used by NNTile.
//
// This library carries the SONAME of the real StarPU and implements the part
// of its API that NNTile uses, against the real StarPU headers.  NNTile's own
// code (library, kernels, codelets, Python binding, Python package) is real;
// everything that is nondeterministic or can fail around it is decided here by
// one recorded stream of choices:
//   - which ready task starts, when, on which (simulated) worker, and which
//     worker runs next: workers are OS threads parked and released one at a
//     time; running kernels are preempted at basic-block boundaries
//     (-fsanitize-coverage=trace-pc)
//   - the clock (sleeps advance simulated time), worker stalls
//   - memory: every task sees private copies of its buffers, surrounded by
//     red zones; buffers whose contents are undefined are filled with poison;
//     data move between memory locations
//   - reduction trees (STARPU_REDUX), commuting tasks
//   - failures: task submission (-ENODEV), data acquisition, data copy,
//     runtime initialisation, C++ allocation failure, SIGINT while polling
#include <starpu.h>
#undef starpu_task_insert
#undef starpu_task_build
#undef starpu_task_set
#undef starpu_insert_task
#undef starpu_task_submit
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <errno.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#include <link.h>
#include <unwind.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <algorithm>
#include <atomic>
#include <cxxabi.h>
#include <cmath>
#include <deque>
#include <functional>
#include <map>
#include <new>
#include <string>
#include <unordered_set>
#include <vector>

typedef uint64_t u64;
typedef uint32_t u32;

// ---------------------------------------------------------------- allocation
// Internal allocations never go through the replaced operator new.
template<typename T> struct MA
{
    typedef T value_type;
    MA() {}
    template<typename U> MA(const MA<U>&) {}
    T *allocate(size_t n) { void *p = malloc(n*sizeof(T)+1); if(!p) abort(); return (T*)p; }
    void deallocate(T *p, size_t) { free(p); }
    template<typename U> bool operator==(const MA<U>&) const { return true; }
    template<typename U> bool operator!=(const MA<U>&) const { return false; }
};
template<typename T> using Vec = std::vector<T, MA<T>>;
typedef std::basic_string<char, std::char_traits<char>, MA<char>> Str;
template<typename T> static T *mk() { void *p = malloc(sizeof(T)); if(!p) abort(); return new(p) T(); }
template<typename T> static void del(T *p) { p->~T(); free(p); }

// ---------------------------------------------------------------- structures
static void check_thread(const char *who);
enum { RZ = 512 };
struct Buf          // private buffer with red zones
{
    char *base = nullptr; size_t size = 0, off = 0, tot = 0; bool paged = false;
    char *ptr() const { return base + off; }
};
struct Task;
struct Data
{
    int id; size_t size; char *home; Buf node; bool initialized = false;
    bool dead = false, closed = false;
    Vec<Task*> writers;     // the tasks that wrote last (several after a commutative phase)
    Vec<Task*> readers, base, phase;   // base: deps of a redux/commute phase
    Vec<Task*> scratch;                // tasks using it as scratch memory
    bool in_redux = false, in_commute = false;
    Task *commute_busy = nullptr;
    // without sequential consistency accesses are only mutually exclusive
    bool seq = true, loose = false; int run_r = 0, run_w = 0;
    Vec<Task*> loose_tasks;
    struct starpu_codelet *redux_cl = nullptr, *init_cl = nullptr;
    std::map<int, Buf, std::less<int>, MA<std::pair<const int, Buf>>> rep;
    Task *held = nullptr;   // acquired by the application
    u64 held_hash = 0;
    char *cur() { return node.base ? node.ptr() : home; }
    bool has() { return home || node.base; }
};
enum Kind { USER, CPY, REDUCE, ACQ, ACQCB, UNREG, INVAL };
enum State { BUILT, WAITING, READY, RUNNING, HELD, DONE };
struct Acc { Data *d; int mode; };
struct Task
{
    int id; Kind kind; State st = BUILT; int ndeps = 0; int worker = -1;
    struct starpu_task *t = nullptr; bool own_t = false;
    Vec<Acc> acc;           // unique data with merged modes
    Vec<int> slot;          // buffer argument -> index into acc
    Vec<Task*> succ;
    Vec<Buf> bufs; Vec<u64> hash;
    void (*cb)(void*) = nullptr; void *cbarg = nullptr;
    int where = 0; // kinds of workers that can run it: 1 CPU, 2 GPU
    int impl = 0; u64 prio = 0; bool commute = false;
    bool seq = true, counted = false; Vec<char> hseq;
    int slices = 0;
};
struct Worker
{
    pthread_t th; sem_t sem; int id; bool quit = false; Task *task = nullptr;
    bool started = false, gpu = false; int stall = 0;
};

struct Cfg
{
    u64 seed; int max_workers, eager, burst, preempt, fill, reloc, policy, stall;
    int replay, guard;
};
static Cfg C = {1, 4, 64, 4, 0, 0, 0, 0, 0, 0, 0};
struct Fault { int kind; int at; };
enum { F_SUBMIT, F_ACQUIRE, F_CPY, F_INIT, F_NEW, F_SIGINT, F_MALLOC, F_NKINDS };
enum { S_TASKS, S_SLICES, S_PREEMPT, S_STEPS, S_STALLS, S_RELOC, S_REDUX_PHASES,
    S_REDUX_TASKS, S_BLOCKING, S_SLEEPS, S_SIMTIME_US, S_NDATA, S_ALIVE, S_DOUBLE,
    S_EVHASH, S_DEEPEST, S_VIOL, S_POISONED, S_REGISTERED, S_UNREGISTERED, S_PENDING,
    S_PEAK, S_PREEMPT_LIVE, S_EVICT, S_EAGER, S_LATE, S_COMMITS, S_STARTS, S_GUARDED, S_VGPU,
    S_GPU_KERNELS, S_GPU_BADLAUNCH, S_GPU_BARRIERS, S_GPU_THREADS, S_N };
static u64 S[S_N];
static u64 site[F_NKINDS], fired[F_NKINDS];
static Vec<Fault> faults;
static unsigned default_seq = 1;
static bool active = false;      // between sim_begin and sim_end
static bool inited = false;      // between starpu_init and starpu_shutdown
static bool alloc_window = false;
static int pause_count = 0;
static int nworkers = 0, ncpu = 0, gpu_max = 0; // all workers, CPU workers, GPUs of the machine
static pthread_t app_thread; static bool app_set = false;
static sem_t app_sem;
static Vec<Worker*> workers;
static Vec<Data*> datas;
static Vec<Task*> tasks, ready;
static int npending = 0, wait_n = 0;
static Vec<u32> dec_rec, dec_in; static size_t dec_pos = 0;
static u64 rng_s = 1, aux_s = 1;
static Vec<Str> viol;
static int report_fd = -1; static FILE *trace = nullptr;
static int polls = 0, polls_idle = 0;
static u64 last_switch_reason = 0;
static int in_sched = 0;
static Vec<u32> sched_log;

static __thread Worker *tls_worker = nullptr;
static __thread long tls_budget = 0;
static __thread int tls_nopreempt = 0;

static u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x^(x>>30))*0xbf58476d1ce4e5b9ull; x = (x^(x>>27))*0x94d049bb133111ebull; return x^(x>>31); }
static u64 rnd() { rng_s += 0x9e3779b97f4a7c15ull; return mix(rng_s); }
static u64 aux() { aux_s += 0x9e3779b97f4a7c15ull; return mix(aux_s^0x5555); }
static u32 rec(u32 v) { dec_rec.push_back(v); return v; }
// A recorded choice among n options; 0 is the plainest one.
static bool dec_from_list(u32 n, u32 &v)
{
    if(!C.replay) return false;
    v = dec_pos < dec_in.size() ? dec_in[dec_pos] % n : 0; ++dec_pos;
    return true;
}
static u32 choose(u32 n)
{
    u32 v; if(n <= 1) return 0;
    if(!dec_from_list(n, v)) v = rnd() % n;
    return rec(v);
}
static bool chance(int p256) // recorded: 1 with probability p/256
{
    if(p256 <= 0) return false;
    u32 v; if(!dec_from_list(2, v)) v = (int)(rnd() % 256) < p256;
    return rec(v) != 0;
}
static u32 choose_biased(u32 n, u32 v0) // record a value decided by a policy
{
    if(n <= 1) return 0;
    u32 v; if(!dec_from_list(n, v)) v = v0;
    return rec(v);
}
static u64 fnv(const void *p, size_t n)
{
    const unsigned char *c = (const unsigned char*)p; u64 h = 1469598103934665603ull;
    size_t i = 0;
    for(; i+8 <= n; i += 8) { u64 w; memcpy(&w, c+i, 8); h = (h ^ w) * 1099511628211ull; h ^= h >> 29; }
    for(; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
static void ev(u32 what, u32 a, u32 b)
{
    S[S_EVHASH] = mix(S[S_EVHASH] ^ ((u64)what << 56) ^ ((u64)a << 24) ^ b);
}
static void tr(const char *fmt, ...)
{
    if(!trace) return;
    va_list ap; va_start(ap, fmt); fprintf(trace, "[%8llu] ", (unsigned long long)S[S_STEPS]);
    vfprintf(trace, fmt, ap); fputc('\n', trace); va_end(ap); fflush(trace);
}
static void wr(const char *s, size_t n) { if(report_fd >= 0) { ssize_t r = write(report_fd, s, n); (void)r; } }
static void dump(const char *kind, const char *msg)
{
    char b[512]; int n = snprintf(b, sizeof b, "\nFATAL %s | %s | ", kind, msg); wr(b, n);
    for(size_t i = 0; i < dec_rec.size(); ++i)
    {
        n = snprintf(b, sizeof b, i ? ",%u" : "%u", dec_rec[i]); wr(b, n);
    }
    wr("\n", 1);
}
[[noreturn]] static void fatal(const char *kind, const char *fmt, ...)
{
    char m[400]; va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
    tr("FATAL %s %s", kind, m);
    dump(kind, m); _exit(70);
}
static void crash(int sig, siginfo_t *, void *)
{
    static int once = 0; if(once++) _exit(72);
    char m[64]; snprintf(m, sizeof m, "signal %d", sig);
    const char *who = tls_worker && tls_worker->task && tls_worker->task->t && tls_worker->task->t->cl
        && tls_worker->task->t->cl->name ? tls_worker->task->t->cl->name : "application";
    char mm[256]; snprintf(mm, sizeof mm, "%s in %s", m, who);
    dump("crash", mm); _exit(71);
}
static void violation(const char *kind, const char *fmt, ...)
{
    char m[400]; int n = snprintf(m, sizeof m, "%s: ", kind);
    va_list ap; va_start(ap, fmt); vsnprintf(m+n, sizeof m - n, fmt, ap); va_end(ap);
    tr("VIOLATION %s", m);
    if(viol.size() < 50) viol.push_back(m);
    ++S[S_VIOL];
}
static bool fault_here(int kind)
{
    if(!active) return false;
    u64 n = site[kind]++;
    for(auto &f : faults) if(f.kind == kind && (u64)f.at == n) { ++fired[kind]; tr("fault kind=%d at=%llu", kind, (unsigned long long)n); return true; }
    return false;
}
// error reported by an injected failure: the documented one in most cases, any
// other one in the rest
static int fault_code(int kind, int usual)
{
    u64 h = (C.seed ^ 0x9e3779b97f4a7c15ull)*0xbf58476d1ce4e5b9ull + site[kind]*0x94d049bb133111ebull; h ^= h >> 29;
    static const int other[] = {-EINVAL, -EDEADLK, -ENODEV, -ENOMEM, -EIO};
    return h % 3 ? usual : other[(h >> 8) % 5];
}
static const char *tname(Task *t)
{
    static const char *k[] = {"task", "cpy", "reduce", "acquire", "acquire_cb", "unregister", "invalidate"};
    return t->t && t->t->cl && t->t->cl->name ? t->t->cl->name : k[t->kind];
}

static void untrack(void *p); static void mark_arg(void *p);
static int live_tasks; // task structures that NNTile has and the runtime has not released
// ------------------------------------------------------------------- buffers
static void poison(char *p, size_t n)
{
    ++S[S_POISONED];
    u64 k = aux();
    switch(C.fill)
    {
        case 1: // plausible but wrong finite numbers
            for(size_t i = 0; i < n; ++i) p[i] = (char)((i & 3) == 3 ? 0x3f : (k >> (8*(i&7))));
            break;
        case 2: memset(p, 0, n); break;
        case 3: // huge values
            for(size_t i = 0; i < n; ++i) p[i] = (char)((i & 3) == 3 ? 0x7e : 0x11 + (i & 7));
            break;
        default: // NaN for 16, 32 and 64 bit floats, absurd for integers
            for(size_t i = 0; i < n; ++i) p[i] = (char)((i & 1) ? 0x7f : 0xf5);
    }
}
// The bytes around a buffer: a pattern that no value of a computation equals, zeroes, or (guard pages) nothing that
// could be touched at all; chosen by the seed of the run.
static inline char zone(size_t i) { return C.guard == 1 ? 0 : (char)((i & 1) ? 0x7f : 0xf3); }
enum { PG = 4096 };
static Buf balloc(size_t n)
{
    Buf b; b.size = n; u64 k = aux();
    if(C.guard == 2)
    {
        ++S[S_GUARDED];
        size_t body = (n + PG-1) / PG * PG; if(!body) body = PG;
        b.tot = body + 2*PG;
        b.base = (char*)mmap(nullptr, b.tot, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
        if(b.base == (char*)MAP_FAILED || mprotect(b.base + PG, body, PROT_READ|PROT_WRITE)) abort();
        b.off = PG + (k & 3 ? (body - n) / 16 * 16 : 0); b.paged = true; // aligned as malloc aligns
        for(size_t i = PG; i < b.off; ++i) b.base[i] = zone(i);
        for(size_t i = b.off + n; i < PG + body; ++i) b.base[i] = zone(i);
        return b;
    }
    b.off = RZ + 16 * (k % 8);
    b.tot = b.off + n + RZ;
    b.base = (char*)malloc(b.tot); if(!b.base) abort();
    for(size_t i = 0; i < b.off; ++i) b.base[i] = zone(i);
    for(size_t i = b.off + n; i < b.tot; ++i) b.base[i] = zone(i);
    return b;
}
static bool bcheck(const Buf &b)
{
    size_t lo = b.paged ? PG : 0, hi = b.paged ? b.tot - PG : b.tot;
    for(size_t i = lo; i < b.off; ++i) if(b.base[i] != zone(i)) return false;
    for(size_t i = b.off + b.size; i < hi; ++i) if(b.base[i] != zone(i)) return false;
    return true;
}
static void bfree(Buf &b)
{
    if(!b.base) return;
    if(b.paged) munmap(b.base, b.tot);
    else { memset(b.base, 0xfd, b.tot); free(b.base); }
    b.base = nullptr;
}
static void relocate(Data *d)
{
    if(!d->has() || d->held) return;
    Buf n = balloc(d->size); memcpy(n.ptr(), d->cur(), d->size);
    if(d->node.base)
    {
        if(!bcheck(d->node)) violation("buffer-overrun", "data %d damaged around its main copy", d->id);
        bfree(d->node);
    }
    d->node = n; ++S[S_RELOC];
}
// the user memory of registered data is only up to date after this
static void flush_home(Data *d)
{
    if(!d->home || !d->node.base) return;
    if(!bcheck(d->node)) violation("buffer-overrun", "data %d damaged around its main copy", d->id);
    memcpy(d->home, d->node.ptr(), d->size); bfree(d->node);
}

// --------------------------------------------------------------- task graph
static void make_ready(Task *t) { t->st = READY; ready.push_back(t); }
static void dep(Task *t, Task *on)
{
    if(!on || on == t || on->st == DONE) return;
    on->succ.push_back(t); ++t->ndeps;
}
static void finish(Task *t);
static Task *new_task(Kind k)
{
    Task *t = mk<Task>(); t->id = (int)tasks.size(); t->kind = k; t->prio = aux(); tasks.push_back(t); return t;
}
static void end_phase(Data *d);
static void add_access(Task *t, Data *d, int mode)
{
    int m = mode & (STARPU_R|STARPU_W|STARPU_SCRATCH|STARPU_REDUX);
    bool comm = (mode & STARPU_COMMUTE) && (m & STARPU_W);
    if(m == STARPU_SCRATCH) { d->scratch.push_back(t); return; }
    if(m & STARPU_REDUX)
    {
        if(d->in_commute) end_phase(d);
        if(!d->in_redux)
        {
            d->in_redux = true; ++S[S_REDUX_PHASES]; d->base.clear();
            for(auto w : d->writers) d->base.push_back(w);
            for(auto r : d->readers) d->base.push_back(r);
            d->phase.clear();
        }
        for(auto b : d->base) dep(t, b);
        d->phase.push_back(t); ++S[S_REDUX_TASKS];
        return;
    }
    if(comm)
    {
        if(d->in_redux) end_phase(d);
        if(!d->in_commute)
        {
            d->in_commute = true; d->base.clear();
            for(auto w : d->writers) d->base.push_back(w);
            for(auto r : d->readers) d->base.push_back(r);
            d->phase.clear();
        }
        for(auto b : d->base) dep(t, b);
        d->phase.push_back(t); t->commute = true;
        return;
    }
    if(d->in_redux || d->in_commute) end_phase(d);
    if(m == STARPU_R) { for(auto w : d->writers) dep(t, w); d->readers.push_back(t); }
    else
    {
        for(auto w : d->writers) dep(t, w);
        for(auto r : d->readers) dep(t, r);
        d->readers.clear(); d->writers.clear(); d->writers.push_back(t);
    }
}
static void launch(Task *t)
{
    t->st = WAITING; if(t->kind != ACQ) ++npending; ++S[S_TASKS];
    if((u64)npending > S[S_PEAK]) S[S_PEAK] = npending;
    for(size_t i = 0; i < t->acc.size(); ++i)
    {
        Acc &a = t->acc[i];
        bool seq = t->seq && a.d->seq && (t->hseq.empty() || t->hseq[i]);
        if(seq || (a.mode & (STARPU_SCRATCH|STARPU_REDUX))) add_access(t, a.d, a.mode);
        else { a.d->loose = true; a.d->loose_tasks.push_back(t); }
    }
    ev(1, t->id, t->kind);
    if(t->ndeps == 0) make_ready(t);
}
static void end_phase(Data *d)
{
    if(d->in_commute)
    {
        // every later access depends on all tasks of the phase
        d->in_commute = false; d->readers.clear(); d->writers = d->phase;
        d->phase.clear();
        return;
    }
    d->in_redux = false;
    Task *t = new_task(REDUCE); t->acc.push_back(Acc{d, STARPU_RW}); t->slot.push_back(0);
    for(auto p : d->phase) dep(t, p);
    for(auto p : d->base) dep(t, p);
    d->phase.clear(); d->readers.clear(); d->writers.clear(); d->writers.push_back(t);
    t->st = WAITING; ++npending; ++S[S_TASKS]; ev(1, t->id, t->kind);
    if(t->ndeps == 0) make_ready(t);
}
static void free_data(Data *d)
{
    if(d->dead) return;
    if(d->node.base)
    {
        if(!bcheck(d->node)) violation("buffer-overrun", "data %d damaged around its main copy", d->id);
        bfree(d->node);
    }
    for(auto &r : d->rep) bfree(r.second);
    d->rep.clear();
    d->dead = true; ++S[S_UNREGISTERED]; --S[S_ALIVE];
    tr("data %d unregistered", d->id);
}
static void finish(Task *t)
{
    t->st = DONE; if(t->kind != ACQ) --npending; ev(3, t->id, t->worker+1);
    for(auto &a : t->acc) if(a.d->commute_busy == t) a.d->commute_busy = nullptr;
    if(t->counted) for(auto &a : t->acc) --((a.mode & STARPU_W) ? a.d->run_w : a.d->run_r);
    Vec<Task*> su; su.swap(t->succ);
    for(auto s : su) if(--s->ndeps == 0) make_ready(s);
    if(t->t && t->own_t)
    {
        if(t->t->cl_arg && t->t->cl_arg_free)
        {
            memset(t->t->cl_arg, 0xdb, t->t->cl_arg_size); untrack(t->t->cl_arg); free(t->t->cl_arg);
        }
        if(t->t->dyn_handles) free(t->t->dyn_handles);
        if(t->t->dyn_modes) free(t->t->dyn_modes);
        free(t->t); t->t = nullptr; --live_tasks;
    }
}

// ---------------------------------------------------------- execution (tasks)
static void need_init(Task *t, Data *d)
{
    if(!d->initialized)
        fatal("undefined-read", "%s reads data %d that was never written", tname(t), d->id);
}
static void prepare(Task *t) // on the scheduler side, just before the task starts
{
    t->bufs.resize(t->acc.size()); t->hash.resize(t->acc.size());
    t->counted = true; for(auto &a : t->acc) ++((a.mode & STARPU_W) ? a.d->run_w : a.d->run_r);
    for(size_t i = 0; i < t->acc.size(); ++i)
    {
        Data *d = t->acc[i].d; int m = t->acc[i].mode;
        if(d->dead) fatal("use-after-unregister", "%s uses data %d after it was unregistered", tname(t), d->id);
        if(m & STARPU_REDUX) continue; // per-worker replicate, set up by the worker
        Buf b = balloc(d->size);
        if((m & STARPU_R) && !(m & STARPU_SCRATCH))
        {
            need_init(t, d); memcpy(b.ptr(), d->cur(), d->size);
            t->hash[i] = fnv(b.ptr(), d->size);
        }
        else poison(b.ptr(), d->size);
        t->bufs[i] = b;
        if(t->commute && (m & STARPU_COMMUTE)) d->commute_busy = t;
    }
}
static void commit(Task *t) // after the task returned
{
    if(t->kind == REDUCE) { Data *d = t->acc[0].d; ++S[S_COMMITS]; if(C.reloc && (int)(aux() & 255) < C.reloc) relocate(d); return; }
    if(t->kind != USER && t->kind != CPY) return;
    for(size_t i = 0; i < t->acc.size(); ++i)
    {
        Data *d = t->acc[i].d; int m = t->acc[i].mode;
        if(m & STARPU_REDUX)
        {
            auto it = d->rep.find(t->worker);
            if(it != d->rep.end() && !bcheck(it->second))
                violation("buffer-overrun", "%s writes outside data %d (reduction copy)", tname(t), d->id);
            continue;
        }
        Buf &b = t->bufs[i];
        if(!bcheck(b)) violation("buffer-overrun", "%s writes outside data %d (%zu bytes)", tname(t), d->id, d->size);
        if(m & STARPU_W)
        {
            if(d->has()) memcpy(d->cur(), b.ptr(), d->size);
            else { d->node = balloc(d->size); memcpy(d->node.ptr(), b.ptr(), d->size); }
            d->initialized = true; ++S[S_COMMITS];
            if(C.reloc && (int)(aux() & 255) < C.reloc) relocate(d);
        }
        else if(m == STARPU_R && fnv(b.ptr(), d->size) != t->hash[i])
            violation("read-only-modified", "%s modifies data %d that it declared read-only", tname(t), d->id);
        bfree(b);
    }
}
// A virtual device: stand-ins for the kernels that exist for GPU only (matrix
// products in tensor-core mode and in half precision, conversions to and from
// half precision). They follow the definition, so that everything around them
// (layers, tensor operations, task submission) runs as on a machine with a GPU.
static int vgpu = 0;
static const char *vp(void **bufs, int i) { return (const char*)((struct starpu_variable_interface*)bufs[i])->ptr; }
struct GemmArgs { int ta, tb; long m, n, k, batch; float alpha, beta; };
template<typename T> static void vgemm(void **bufs, void *arg, int ta, int tb)
{
    GemmArgs *g = (GemmArgs*)arg;
    const T *A = (const T*)vp(bufs, 0), *B = (const T*)vp(bufs, 1); T *Cc = (T*)vp(bufs, 2);
    for(long b = 0; b < g->batch; ++b, A += g->m*g->k, B += g->k*g->n, Cc += g->m*g->n)
        for(long j = 0; j < g->n; ++j) for(long i = 0; i < g->m; ++i)
        {
            double s = 0;
            for(long l = 0; l < g->k; ++l) s += (double)A[ta ? i*g->k+l : l*g->m+i]*(double)B[tb ? l*g->n+j : j*g->k+l];
            T &c = Cc[j*g->m+i];
            s *= g->alpha;
            if(g->beta != 0) s += (double)g->beta*(double)c;
            c = (T)(float)s;
        }
}
template<typename T, int ta, int tb> static void vgemm(void **bufs, void *arg) { vgemm<T>(bufs, arg, ta, tb); }
template<typename S, typename D> static void vconv(void **bufs, void *arg)
{
    long n = *(long*)arg; const S *s = (const S*)vp(bufs, 0); D *d = (D*)vp(bufs, 1);
    for(long i = 0; i < n; ++i) d[i] = (D)s[i];
}
typedef void (*VFunc)(void**, void*);
static VFunc vfunc(struct starpu_codelet *cl)
{
    if(!vgpu || !cl->name) return nullptr;
    static const struct { const char *n; VFunc f; } tab[] = {
        {"nntile_gemm_ex_NN_fp32_fast_tf32", vgemm<float, 0, 0>}, {"nntile_gemm_ex_NT_fp32_fast_tf32", vgemm<float, 0, 1>},
        {"nntile_gemm_ex_TN_fp32_fast_tf32", vgemm<float, 1, 0>}, {"nntile_gemm_ex_TT_fp32_fast_tf32", vgemm<float, 1, 1>},
        {"nntile_gemm_NN_fp16", vgemm<_Float16, 0, 0>}, {"nntile_gemm_NT_fp16", vgemm<_Float16, 0, 1>},
        {"nntile_gemm_TN_fp16", vgemm<_Float16, 1, 0>}, {"nntile_gemm_TT_fp16", vgemm<_Float16, 1, 1>},
        {"nntile_fp32_to_fp16", vconv<float, _Float16>}, {"nntile_fp16_to_fp32", vconv<_Float16, float>}};
    for(auto &e : tab) if(!strcmp(e.n, cl->name)) return e.f;
    // tensor-core modes of other operations: as precise as single precision
    static struct { const char *n; VFunc f; } cache[16]; static int ncache = 0;
    for(int i = 0; i < ncache; ++i) if(cache[i].n == cl->name) return cache[i].f;
    size_t l = strlen(cl->name); VFunc f = nullptr;
    if(!strncmp(cl->name, "nntile_", 7) && l > 22 && !strcmp(cl->name+l-15, "_fp32_fast_tf32"))
    {
        char sym[200]; snprintf(sym, sizeof sym, "_ZN6nntile6starpu%d%.*s12codelet_fp32E", (int)l-22, (int)l-22, cl->name+7);
        Dl_info di; void *lib = dladdr(cl, &di) ? dlopen(di.dli_fname, RTLD_LAZY|RTLD_NOLOAD) : nullptr;
        auto *c = lib ? (struct starpu_codelet*)dlsym(lib, sym) : nullptr;
        if(c) f = c->cpu_funcs[0];
    }
    if(ncache < 16) { cache[ncache].n = cl->name; cache[ncache++].f = f; }
    return f;
}
static bool has_func(struct starpu_codelet *cl, int i) { return cl->cpu_funcs[i] || (i == 0 && vfunc(cl)); }
static uintptr_t lib_lo, lib_hi;
static int find_lib(struct dl_phdr_info *i, size_t, void *)
{
    if(!i->dlpi_name || !strstr(i->dlpi_name, "libnntile.so")) return 0;
    for(int k = 0; k < i->dlpi_phnum; ++k)
    {
        auto &h = i->dlpi_phdr[k];
        if(h.p_type != PT_LOAD) continue;
        uintptr_t a = i->dlpi_addr + h.p_vaddr, b = a + h.p_memsz;
        if(!lib_lo || a < lib_lo) lib_lo = a;
        if(b > lib_hi) lib_hi = b;
    }
    return 1;
}
#include "gpu/emu.cc"
// kinds of workers (1 CPU, 2 GPU) that exist and have a function of the codelet
static int archs(struct starpu_codelet *cl)
{
    int r = 0; bool gpu = nworkers > ncpu, cpu = ncpu > 0;
    for(int i = 0; i < STARPU_MAXIMPLEMENTATIONS; ++i)
    {
        if(cpu && cl->cpu_funcs[i] && (cl->where & STARPU_CPU)) r |= 1;
        if(gpu && cl->cuda_funcs[i] && (cl->where & STARPU_CUDA)) r |= 2;
    }
    if(cpu && vfunc(cl)) r |= 1;
    return r;
}
static bool can_run(Task *t, Worker *w)
{
    int me = w->gpu ? 2 : 1;
    if(t->kind == USER) return t->where & me;
    if(t->kind == REDUCE) return archs(t->acc[0].d->redux_cl) & me;
    return true;
}
static void call_cl(struct starpu_codelet *cl, int impl, void **bufs, int nb, void *arg)
{
    if(tls_worker->gpu)
    {
        if(!cl->cuda_funcs[impl]) fatal("no-function", "%s has no function for GPU workers", cl->name ? cl->name : "?");
        gpu_call(cl, impl, bufs, nb, arg);
    }
    else if(!cl->cpu_funcs[impl]) { ++S[S_VGPU]; vfunc(cl)(bufs, arg); }
    else cl->cpu_funcs[impl](bufs, arg);
}
static struct starpu_variable_interface vif(char *p, size_t n)
{
    struct starpu_variable_interface v; memset(&v, 0, sizeof v);
    v.id = STARPU_VARIABLE_INTERFACE_ID; v.ptr = (uintptr_t)p; v.dev_handle = (uintptr_t)p; v.elemsize = n;
    return v;
}
static void exec(Task *t) // on a worker thread
{
    if(t->kind == ACQCB) { t->cb(t->cbarg); return; }
    if(t->kind == CPY) { memcpy(t->bufs[t->slot[0]].ptr(), t->bufs[t->slot[1]].ptr(), t->acc[t->slot[0]].d->size); return; }
    if(t->kind == REDUCE)
    {
        Data *d = t->acc[0].d;
        Vec<Buf> rs; for(auto &r : d->rep) rs.push_back(r.second);
        d->rep.clear();
        // pairwise, in an arbitrary tree; the initial value, if any, comes last
        while(rs.size() > 1)
        {
            size_t i = choose(rs.size()); Buf a = rs[i]; rs.erase(rs.begin()+i);
            size_t j = choose(rs.size()); Buf b = rs[j];
            auto va = vif(b.ptr(), d->size), vb = vif(a.ptr(), d->size); void *bb[2] = {&va, &vb};
            u64 h = fnv(a.ptr(), d->size);
            call_cl(d->redux_cl, 0, bb, 2, nullptr);
            if(!bcheck(a) || !bcheck(b)) violation("buffer-overrun", "reduction of data %d", d->id);
            if(fnv(a.ptr(), d->size) != h) violation("read-only-modified", "reduction of data %d modifies a contribution", d->id);
            bfree(a);
        }
        if(rs.size() == 1)
        {
            if(!d->initialized)
            {
                if(!d->has()) d->node = balloc(d->size);
                memcpy(d->cur(), rs[0].ptr(), d->size); d->initialized = true;
            }
            else
            {
                Buf m = balloc(d->size); memcpy(m.ptr(), d->cur(), d->size);
                auto va = vif(m.ptr(), d->size), vb = vif(rs[0].ptr(), d->size); void *bb[2] = {&va, &vb};
                u64 h = fnv(rs[0].ptr(), d->size);
                call_cl(d->redux_cl, 0, bb, 2, nullptr);
                if(!bcheck(m)) violation("buffer-overrun", "reduction of data %d", d->id);
                if(fnv(rs[0].ptr(), d->size) != h) violation("read-only-modified", "reduction of data %d modifies a contribution", d->id);
                memcpy(d->cur(), m.ptr(), d->size); bfree(m);
            }
            bfree(rs[0]);
        }
        return;
    }
    // user task
    Vec<struct starpu_variable_interface> vi(t->slot.size());
    Vec<void*> bp(t->slot.size());
    for(size_t i = 0; i < t->slot.size(); ++i)
    {
        Acc &a = t->acc[t->slot[i]]; char *p;
        if(a.mode & STARPU_REDUX)
        {
            auto it = a.d->rep.find(t->worker);
            if(it == a.d->rep.end())
            {
                Buf b = balloc(a.d->size); poison(b.ptr(), b.size);
                auto v = vif(b.ptr(), b.size); void *bb[1] = {&v};
                call_cl(a.d->init_cl, 0, bb, 1, nullptr);
                if(!bcheck(b)) violation("buffer-overrun", "reduction init of data %d", a.d->id);
                it = a.d->rep.insert(std::make_pair(t->worker, b)).first;
            }
            p = it->second.ptr();
        }
        else p = t->bufs[t->slot[i]].ptr();
        vi[i] = vif(p, a.d->size); bp[i] = &vi[i];
    }
    call_cl(t->t->cl, t->impl, bp.data(), (int)bp.size(), t->t->cl_arg);
}
// The budget is thread-local: the scheduler hands it over through this.
static long handed_budget = 0;
static void yield_to_sched(Worker *w)
{
    sem_post(&app_sem);
    while(sem_wait(&w->sem)) {}
}
extern "C" void __sanitizer_cov_trace_pc(void)
{
    if(__builtin_expect(tls_budget <= 0, 1)) return;
    if(--tls_budget > 0) return;
    if(tls_nopreempt > 0 || !tls_worker || !tls_worker->task) { tls_budget = 1; return; }
    ++S[S_PREEMPT];
    yield_to_sched(tls_worker);
    tls_budget = handed_budget;
}
static void set_budget(Task *t)
{
    // called on the scheduler side before resuming: number of basic blocks
    // until the next preemption (0: run to completion)
    static const long scale[] = {0, 400, 40, 6};
    last_switch_reason = 0;
    int p = C.preempt;
    if(p <= 0 || t->slices > 24) { last_switch_reason = 0; return; }
    u32 v; 
    if(!dec_from_list(1u<<20, v)) v = (rnd() & 3) == 0 ? 0 : 1 + (u32)(rnd() % (u64)(scale[p > 3 ? 3 : p]*2));
    last_switch_reason = rec(v);
}
static void *worker_main(void *p)
{
    Worker *w = (Worker*)p; tls_worker = w;
    for(;;)
    {
        while(sem_wait(&w->sem)) {}
        if(w->quit) return nullptr;
        tls_budget = handed_budget;
        exec(w->task);
        tls_budget = 0; tls_nopreempt = 0;
        w->started = false;
        sem_post(&app_sem);
    }
}
static void run_slice(Worker *w)
{
    Task *t = w->task;
    set_budget(t); handed_budget = (long)last_switch_reason;
    ++t->slices; ++S[S_SLICES];
    bool was = w->started; w->started = true; (void)was;
    sem_post(&w->sem);
    while(sem_wait(&app_sem)) {}
    if(w->started) // preempted
    {
        ev(4, t->id, w->id);
        int live = 0; for(auto x : workers) if(x->task) ++live;
        if(live > 1) ++S[S_PREEMPT_LIVE];
        return;
    }
    w->task = nullptr;
    tr("finish %s #%d worker %d", tname(t), t->id, w->id);
    commit(t);
    S[S_SIMTIME_US] += 1 + mix(C.seed ^ t->id) % 500;
    if(t->kind == ACQCB)
    {
        // finished when the data are released, which the callback must have done
        for(auto &a : t->acc) if(a.d->held == t) { violation("not-released", "callback of data %d did not release it", a.d->id); a.d->held = nullptr; }
    }
    if(t->kind == UNREG) { Data *d = t->acc[0].d; finish(t); free_data(d); return; }
    if(t->kind == INVAL) t->acc[0].d->initialized = false;
    finish(t);
}
static bool startable(Task *t)
{
    for(auto &a : t->acc) if(a.d->loose && !(a.mode & (STARPU_SCRATCH|STARPU_REDUX)))
    {
        bool hw = a.d->held && (a.d->held->acc[0].mode & STARPU_W);
        if(a.d->run_w || hw || ((a.mode & STARPU_W) && (a.d->run_r || a.d->held))) return false;
    }
    if(t->kind == ACQ) return true; // granted to the application, no worker needed
    if(pause_count > 0) return false;
    if(t->commute) for(auto &a : t->acc) if((a.mode & STARPU_COMMUTE) && a.d->commute_busy) return false;
    return true;
}
static Data *H(starpu_data_handle_t h, const char *who);
static void grant(Task *t)
{
    Data *d = t->acc[0].d; int m = t->acc[0].mode;
    if(d->dead) fatal("use-after-unregister", "acquire of data %d after it was unregistered", d->id);
    if(m & STARPU_R) need_init(t, d);
    if(!d->has()) d->node = balloc(d->size);
    if(d->home) flush_home(d);
    if(!(m & STARPU_R)) poison(d->cur(), d->size);
    if(!d->home && C.reloc && (int)(aux() & 255) < C.reloc) relocate(d);
    d->held = t; d->held_hash = fnv(d->cur(), d->size);
    t->st = HELD;
}
// One scheduling step.  Returns false when nothing can run.
static bool step()
{
    if(in_sched) fatal("internal", "scheduler re-entered");
    if(++S[S_STEPS] > 3000000) fatal("no-progress", "more than 3000000 scheduling steps in one run");
    // acquire requests of the application are granted at once
    for(size_t i = 0; i < ready.size(); ++i) if(ready[i]->kind == ACQ && startable(ready[i]))
    {
        Task *t = ready[i]; ready.erase(ready.begin()+i); grant(t); return true;
    }
    if(C.stall && !workers.empty() && chance(C.stall))
    {
        u32 w = choose(workers.size()); workers[w]->stall = 1 + choose(40); ++S[S_STALLS];
    }
    for(int attempt = 0; attempt < 2; ++attempt)
    {
        Vec<int> busy, idle;
        for(auto w : workers)
        {
            if(w->stall > 0) { --w->stall; continue; }
            (w->task ? busy : idle).push_back(w->id);
        }
        Vec<size_t> can;
        if(!idle.empty()) for(size_t i = 0; i < ready.size(); ++i) if(startable(ready[i]))
            for(auto w : idle) if(can_run(ready[i], workers[w])) { can.push_back(i); break; }
        u32 nopt = busy.size() + (can.empty() ? 0 : 1);
        if(nopt == 0)
        {
            for(auto w : workers) w->stall = 0; // time passes
            continue;
        }
        u32 o;
        if(!busy.empty() && !can.empty() && C.preempt) // prefer to open new tasks while others are half done
        {
            u64 r = C.replay ? 0 : rnd(); o = choose_biased(nopt, (r & 3) ? (u32)busy.size() : (u32)((r >> 8) % nopt));
        }
        else o = choose(nopt);
        if(o < busy.size())
        {
            Worker *w = workers[busy[o]];
            run_slice(w);
            return true;
        }
        u32 k = 0, n = can.size();
        switch(C.policy)
        {
            case 1: k = n-1; break;
            case 2: k = 0; break;
            case 3: { for(u32 i = 1; i < n; ++i) if(ready[can[i]]->prio > ready[can[k]]->prio) k = i; break; }
            default: k = C.replay ? 0 : rnd() % n;
        }
        k = choose_biased(n, k);
        Task *t = ready[can[k]];
        for(size_t i = idle.size(); i-- > 0;) if(!can_run(t, workers[idle[i]])) idle.erase(idle.begin()+i);
        u32 wi = choose(idle.size());
        ready.erase(ready.begin()+can[k]);
        Worker *w = workers[idle[wi]];
        t->worker = w->id; t->st = RUNNING; w->task = t;
        ev(2, t->id, w->id); ++S[S_STARTS];
        tr("start %s #%d worker %d (of %u ready)", tname(t), t->id, w->id, n);
        if(t->kind == USER)
        {
            int impls[STARPU_MAXIMPLEMENTATIONS], ni = 0;
            for(int i = 0; i < STARPU_MAXIMPLEMENTATIONS; ++i) if(w->gpu ? t->t->cl->cuda_funcs[i] != nullptr : has_func(t->t->cl, i)) impls[ni++] = i;
            t->impl = impls[choose(ni)];
        }
        if(t->kind == ACQCB)
        {
            Data *d = t->acc[0].d;
            if(d->dead) fatal("use-after-unregister", "acquire of data %d after it was unregistered", d->id);
            if(t->acc[0].mode & STARPU_R) need_init(t, d);
            if(!d->has()) d->node = balloc(d->size);
            d->held = t; d->held_hash = fnv(d->cur(), d->size);
        }
        else if(t->kind == REDUCE || t->kind == UNREG || t->kind == INVAL) {}
        else prepare(t);
        if(t->kind == UNREG || t->kind == INVAL)
        {
            w->task = nullptr; Data *d = t->acc[0].d;
            if(t->kind == INVAL) d->initialized = false;
            finish(t); if(t->kind == UNREG) free_data(d);
            return true;
        }
        run_slice(w);
        return true;
    }
    return false;
}
static void block(const char *why, bool (*cond)(void*), void *arg)
{
    if(tls_worker) fatal("blocking-call-in-task", "%s called from a task", why);
    if(cond(arg)) return;
    ++S[S_BLOCKING];
    while(!cond(arg))
    {
        if(!step())
        {
            if(pause_count > 0) fatal("blocked-while-paused", "%s cannot return while the workers are paused", why);
            fatal("deadlock", "%s: %d unfinished tasks, none can run", why, npending);
        }
    }
}
// Called at each API call of the application: other workers may run now.
static void maybe_run()
{
    if(!inited || tls_worker || !active) return;
    if(C.eager <= 0) return;
    for(int i = 0; i < C.burst; ++i)
    {
        if(!chance(C.eager)) return;
        if(!step()) return;
        ++S[S_EAGER];
    }
}
static void check_thread(const char *who)
{
    if(!active) fatal("harness", "%s called outside a simulated run", who);
    if(!inited) fatal("not-initialised", "%s called while the runtime is not initialised", who);
}
static Data *H(starpu_data_handle_t h, const char *who)
{
    if(!h) fatal("invalid-handle", "%s: null handle", who);
    Data *d = (Data*)h;
    bool ok = false; for(auto x : datas) if(x == d) { ok = true; break; }
    if(!ok) fatal("invalid-handle", "%s: unknown handle", who);
    if(d->dead || d->closed) fatal("use-after-unregister", "%s: data %d was already unregistered", who, d->id);
    return d;
}

// ------------------------------------------------------------ the StarPU API
extern "C" {

int starpu_conf_init(struct starpu_conf *c) { if(!c) return -EINVAL; memset(c, 0, sizeof *c); c->ncpus = -1; c->ncuda = -1; c->nopencl = -1; return 0; }
int starpu_conf_noworker(struct starpu_conf *c) { c->ncpus = 0; c->ncuda = 0; return 0; }
int starpu_initialize(struct starpu_conf *c, int *, char ***) ;
int starpu_init(struct starpu_conf *c)
{
    if(!active) fatal("harness", "starpu_init outside a simulated run");
    if(fault_here(F_INIT)) return -ENODEV;
    if(inited) { ++S[S_DOUBLE]; return 0; }
    app_thread = pthread_self(); app_set = true;
    ncpu = C.max_workers;
    if(c && c->ncpus >= 0 && c->ncpus < ncpu) ncpu = c->ncpus;
    int ng = gpu_max;
    if(c && c->ncuda >= 0 && c->ncuda < ng) ng = c->ncuda;
    nworkers = ncpu + ng;
    if(nworkers <= 0) return -ENODEV;
    for(int i = 0; i < nworkers; ++i)
    {
        Worker *w = mk<Worker>(); w->id = i; w->gpu = i >= ncpu; sem_init(&w->sem, 0, 0); workers.push_back(w);
        gpus.push_back(w->gpu ? mk<Gpu>() : nullptr);
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 8<<20);
        if(pthread_create(&w->th, &a, worker_main, w)) abort();
        pthread_attr_destroy(&a);
    }
    inited = true; pause_count = 0;
    ev(9, nworkers, 0);
    return 0;
}
int starpu_initialize(struct starpu_conf *c, int *, char ***) { return starpu_init(c); }
int starpu_is_initialized(void) { return inited; }
static bool c_none(void*) { return npending == 0; }
void starpu_shutdown(void)
{
    if(!active) return;
    if(!inited) { ++S[S_LATE]; violation("extra-shutdown", "starpu_shutdown called more often than starpu_init: the runtime aborts the process"); return; }
    if(pause_count > 0) pause_count = 0;
    block("starpu_shutdown", c_none, nullptr);
    for(auto w : workers) { w->quit = true; sem_post(&w->sem); pthread_join(w->th, nullptr); sem_destroy(&w->sem); del(w); }
    workers.clear(); gpus_stop(); inited = false;
    ev(10, 0, 0);
}
void starpu_pause(void) { check_thread("starpu_pause"); ++pause_count; tr("pause"); }
void starpu_resume(void) { check_thread("starpu_resume"); if(pause_count > 0) --pause_count; tr("resume"); }
int starpu_is_paused(void) { return pause_count > 0; }
unsigned starpu_worker_get_count(void) { return nworkers; }
int starpu_worker_get_count_by_type(enum starpu_worker_archtype t) { return t == STARPU_ANY_WORKER ? nworkers : t == STARPU_CPU_WORKER ? ncpu : t == STARPU_CUDA_WORKER ? nworkers-ncpu : 0; }
unsigned starpu_cpu_worker_get_count(void) { return ncpu; }
unsigned starpu_cuda_worker_get_count(void) { return nworkers-ncpu; }
int starpu_worker_get_id(void) { return tls_worker ? tls_worker->id : -1; }
unsigned _starpu_worker_get_id_check(const char *, int) { return tls_worker ? tls_worker->id : 0; }
enum starpu_worker_archtype starpu_worker_get_type(int i) { return i >= ncpu ? STARPU_CUDA_WORKER : STARPU_CPU_WORKER; }
unsigned starpu_worker_get_memory_node(unsigned) { return 0; }
void starpu_fxt_autostart_profiling(int) {}
void starpu_fxt_start_profiling(void) {}
void starpu_fxt_stop_profiling(void) {}
int starpu_profiling_status_set(int) { return 0; }
void starpu_profiling_init(void) {}
double starpu_timing_now(void) { return (double)S[S_SIMTIME_US]; }
uint32_t starpu_hash_crc32c_be_n(const void *p, size_t n, uint32_t in) { return (uint32_t)(fnv(p, n) ^ in * 2654435761u); }
uint32_t starpu_hash_crc32c_be(uint32_t v, uint32_t in) { return starpu_hash_crc32c_be_n(&v, 4, in); }
uint32_t starpu_hash_crc32c_string(const char *s, uint32_t in) { return starpu_hash_crc32c_be_n(s, strlen(s), in); }
uint32_t starpu_hash_crc32c_be_ptr(void *p, uint32_t in) { (void)p; return in; }

void starpu_variable_data_register(starpu_data_handle_t *h, int home_node, uintptr_t ptr, size_t size)
{
    check_thread("starpu_variable_data_register");
    Data *d = mk<Data>(); d->id = (int)datas.size(); d->size = size;
    d->seq = default_seq != 0; d->home = home_node >= 0 ? (char*)ptr : nullptr; d->initialized = home_node >= 0;
    datas.push_back(d); ++S[S_NDATA]; ++S[S_ALIVE]; ++S[S_REGISTERED];
    *h = (starpu_data_handle_t)d;
    if(d->home && C.reloc) relocate(d);
    ev(5, d->id, (u32)size);
    tr("register data %d size %zu%s", d->id, size, d->home ? " (user memory)" : "");
    maybe_run();
}
void starpu_vector_data_register(starpu_data_handle_t *h, int home_node, uintptr_t ptr, uint32_t nx, size_t es)
{ starpu_variable_data_register(h, home_node, ptr, (size_t)nx*es); }
size_t starpu_variable_get_elemsize(starpu_data_handle_t h) { return H(h, "starpu_variable_get_elemsize")->size; }
size_t starpu_data_get_size(starpu_data_handle_t h) { return H(h, "starpu_data_get_size")->size; }
void starpu_data_set_name(starpu_data_handle_t, const char *) {}
void starpu_data_set_user_data(starpu_data_handle_t, void *) {}
void starpu_data_set_sequential_consistency_flag(starpu_data_handle_t h, unsigned f) { H(h, "starpu_data_set_sequential_consistency_flag")->seq = f != 0; }
unsigned starpu_data_get_sequential_consistency_flag(starpu_data_handle_t h) { return H(h, "starpu_data_get_sequential_consistency_flag")->seq; }
void starpu_data_set_default_sequential_consistency_flag(unsigned f) { default_seq = f; }
unsigned starpu_data_get_default_sequential_consistency_flag(void) { return default_seq; }
void starpu_data_set_reduction_methods(starpu_data_handle_t h, struct starpu_codelet *r, struct starpu_codelet *i)
{
    Data *d = H(h, "starpu_data_set_reduction_methods"); d->redux_cl = r; d->init_cl = i;
    // what the real runtime asserts
    if(r && r->nbuffers != 2) fatal("reduction-methods", "the reduction method %s takes %d buffers in place of two", r->name ? r->name : "?", r->nbuffers);
    if(r) r->modes[0] = (enum starpu_data_access_mode)(r->modes[0] | STARPU_COMMUTE);
    if(r && (r->modes[0] != (STARPU_RW|STARPU_COMMUTE) || r->modes[1] != STARPU_R)) fatal("reduction-methods", "the reduction method %s has access modes %d and %d", r->name ? r->name : "?", r->modes[0], r->modes[1]);
    if(i && (i->nbuffers != 1 || i->modes[0] != STARPU_W)) fatal("reduction-methods", "the initialisation method %s must take one buffer that it writes", i->name ? i->name : "?");
}
static bool c_idle(void *p) { Task *t = (Task*)p; return t->st == HELD; }
static void finish_held(Data *d) { Task *t = d->held; d->held = nullptr; finish(t); }
static Task *acq(Data *d, int mode, bool last = false)
{
    Task *t = new_task(ACQ); if(last) { for(auto x : d->scratch) dep(t, x); for(auto x : d->loose_tasks) dep(t, x); } t->acc.push_back(Acc{d, mode}); t->slot.push_back(0); launch(t); return t;
}
static void unregister(starpu_data_handle_t h, const char *who, bool coherent)
{
    if(!active) return;
    if(!inited) { ++S[S_LATE]; violation("late-unregister", "data are unregistered after the runtime was shut down: the runtime aborts the process"); return; }
    check_thread(who);
    Data *d = H(h, who);
    if(tls_worker) fatal("blocking-call-in-task", "%s called from a task", who);
    if(d->held) fatal("unregister-while-acquired", "%s: data %d is still acquired", who, d->id);
    maybe_run();
    // wait for all uses: an acquisition for writing
    Task *t = acq(d, STARPU_W, true);
    // W would poison: only wait for the dependencies
    struct L { static bool c(void *p) { Task *t = (Task*)p; return t->ndeps == 0; } };
    block(who, L::c, t);
    for(size_t i = 0; i < ready.size(); ++i) if(ready[i] == t) { ready.erase(ready.begin()+i); break; }
    d->held = nullptr; finish(t);
    if(coherent) flush_home(d);
    else if(d->home && d->node.base && fnv(d->home, d->size) != fnv(d->node.ptr(), d->size)) violation("stale-user-memory", "data %d unregistered without writing it back", d->id);
    d->closed = true; free_data(d);
}
void starpu_data_unregister(starpu_data_handle_t h) { unregister(h, "starpu_data_unregister", true); }
void starpu_data_unregister_no_coherency(starpu_data_handle_t h) { unregister(h, "starpu_data_unregister_no_coherency", false); }
void starpu_data_unregister_submit(starpu_data_handle_t h)
{
    if(!active) return;
    if(!inited) { ++S[S_LATE]; violation("late-unregister", "data are unregistered after the runtime was shut down: the runtime aborts the process"); return; }
    check_thread("starpu_data_unregister_submit");
    Data *d = H(h, "starpu_data_unregister_submit");
    Task *t = new_task(UNREG); t->acc.push_back(Acc{d, STARPU_W}); t->slot.push_back(0);
    for(auto x : d->scratch) dep(t, x);
    for(auto x : d->loose_tasks) dep(t, x);
    d->closed = true; launch(t); maybe_run();
}
void starpu_data_invalidate_submit(starpu_data_handle_t h)
{
    check_thread("starpu_data_invalidate_submit");
    Data *d = H(h, "starpu_data_invalidate_submit");
    Task *t = new_task(INVAL); t->acc.push_back(Acc{d, STARPU_W}); t->slot.push_back(0); launch(t); maybe_run();
}
void starpu_data_invalidate(starpu_data_handle_t h)
{
    starpu_data_invalidate_submit(h); Task *t = tasks.back();
    struct L { static bool c(void *p) { return ((Task*)p)->st == DONE; } };
    block("starpu_data_invalidate", L::c, t);
}
void starpu_data_deinitialize_submit(starpu_data_handle_t h) { starpu_data_invalidate_submit(h); }
void starpu_data_wont_use(starpu_data_handle_t h) { Data *d = H(h, "starpu_data_wont_use"); (void)d; ++S[S_EVICT]; maybe_run(); }
int starpu_data_idle_prefetch_on_node(starpu_data_handle_t, unsigned, unsigned) { return 0; }
int starpu_data_prefetch_on_node(starpu_data_handle_t, unsigned, unsigned) { return 0; }
int starpu_data_fetch_on_node(starpu_data_handle_t, unsigned, unsigned) { return 0; }
int starpu_data_acquire(starpu_data_handle_t h, enum starpu_data_access_mode mode)
{
    check_thread("starpu_data_acquire");
    Data *d = H(h, "starpu_data_acquire");
    if(tls_worker) fatal("blocking-call-in-task", "starpu_data_acquire called from a task");
    if(d->held) fatal("deadlock", "data %d acquired twice by the application", d->id);
    if(fault_here(F_ACQUIRE)) return fault_code(F_ACQUIRE, -EINVAL);
    maybe_run();
    Task *t = acq(d, mode & (STARPU_R|STARPU_W));
    block("starpu_data_acquire", c_idle, t);
    tr("acquired data %d mode %d", d->id, (int)mode);
    return 0;
}
int starpu_data_acquire_try(starpu_data_handle_t h, enum starpu_data_access_mode mode)
{
    check_thread("starpu_data_acquire_try");
    Data *d = H(h, "starpu_data_acquire_try"); bool busy = d->in_redux || d->in_commute || d->run_w;
    for(auto x : d->writers) if(x->st != DONE) busy = true;
    if(mode & STARPU_W) { if(d->run_r) busy = true; for(auto x : d->readers) if(x->st != DONE) busy = true; }
    if(busy) { if(!step()) maybe_run(); return -EAGAIN; }
    return starpu_data_acquire(h, mode);
}
int starpu_data_acquire_on_node_try(starpu_data_handle_t h, int, enum starpu_data_access_mode mode) { return starpu_data_acquire_try(h, mode); }
int starpu_data_acquire_on_node(starpu_data_handle_t h, int, enum starpu_data_access_mode mode) { return starpu_data_acquire(h, mode); }
int starpu_data_acquire_cb(starpu_data_handle_t h, enum starpu_data_access_mode mode, void (*cb)(void*), void *arg)
{
    check_thread("starpu_data_acquire_cb");
    Data *d = H(h, "starpu_data_acquire_cb");
    if(fault_here(F_ACQUIRE)) return fault_code(F_ACQUIRE, -EINVAL);
    Task *t = new_task(ACQCB); t->cb = cb; t->cbarg = arg;
    t->acc.push_back(Acc{d, (int)(mode & (STARPU_R|STARPU_W))}); t->slot.push_back(0);
    t->bufs.resize(1); launch(t); maybe_run();
    return 0;
}
static void release(Data *d)
{
    Task *t = d->held; if(!t) fatal("release-without-acquire", "data %d", d->id);
    int m = t->acc[0].mode;
    if(d->node.base && !bcheck(d->node)) violation("buffer-overrun", "application writes outside data %d", d->id);
    if(m & STARPU_W) { d->initialized = true; }
    else if(fnv(d->cur(), d->size) != d->held_hash) violation("read-only-modified", "application modifies data %d acquired for reading", d->id);
    if(t->kind == ACQ) { finish_held(d); if(C.reloc) relocate(d); }
    else d->held = nullptr;
}
void starpu_data_release(starpu_data_handle_t h)
{
    if(!active) return;
    if(!inited) { ++S[S_LATE]; violation("late-release", "data are released after the runtime was shut down"); return; }
    check_thread("starpu_data_release");
    Data *d = H(h, "starpu_data_release");
    release(d); tr("released data %d", d->id);
    maybe_run();
}
void starpu_data_release_on_node(starpu_data_handle_t h, int) { starpu_data_release(h); }
void *starpu_data_get_local_ptr(starpu_data_handle_t h)
{
    Data *d = H(h, "starpu_data_get_local_ptr");
    if(!d->held) fatal("local-pointer-without-acquire", "data %d", d->id);
    return d->cur();
}
void *starpu_data_handle_to_pointer(starpu_data_handle_t h, unsigned) { return starpu_data_get_local_ptr(h); }
uintptr_t starpu_variable_get_local_ptr(starpu_data_handle_t h) { return (uintptr_t)starpu_data_get_local_ptr(h); }

int starpu_data_cpy(starpu_data_handle_t dst, starpu_data_handle_t src, int async, void (*cb)(void*), void *arg)
{
    check_thread("starpu_data_cpy");
    Data *a = H(dst, "starpu_data_cpy"), *b = H(src, "starpu_data_cpy");
    if(fault_here(F_CPY)) return fault_code(F_CPY, -ENODEV);
    if(a->size != b->size) fatal("size-mismatch", "starpu_data_cpy between data of %zu and %zu bytes", b->size, a->size);
    Task *t = new_task(CPY);
    if(a == b) { t->acc.push_back(Acc{a, STARPU_RW}); t->slot.push_back(0); t->slot.push_back(0); }
    else { t->acc.push_back(Acc{a, STARPU_W}); t->acc.push_back(Acc{b, STARPU_R}); t->slot.push_back(0); t->slot.push_back(1); }
    launch(t); maybe_run();
    if(!async)
    {
        struct L { static bool c(void *p) { return ((Task*)p)->st == DONE; } };
        block("starpu_data_cpy", L::c, t);
    }
    if(cb) cb(arg);
    return 0;
}
int starpu_data_cpy_priority(starpu_data_handle_t dst, starpu_data_handle_t src, int async, void (*cb)(void*), void *arg, int) { return starpu_data_cpy(dst, src, async, cb, arg); }
int starpu_data_dup_ro(starpu_data_handle_t *dst, starpu_data_handle_t src, int async)
{
    Data *d = H(src, "starpu_data_dup_ro"); starpu_variable_data_register(dst, -1, 0, d->size);
    return starpu_data_cpy(*dst, src, async, nullptr, nullptr);
}

// -- tasks
void starpu_task_init(struct starpu_task *t)
{
    memset(t, 0, sizeof *t); t->where = -1; t->destroy = 0; t->sequential_consistency = 1; t->detach = 1; t->magic = 42;
}
struct starpu_task *starpu_task_create(void)
{
    struct starpu_task *t = (struct starpu_task*)calloc(1, sizeof *t); starpu_task_init(t); t->destroy = 1; ++live_tasks; return t;
}
void starpu_task_clean(struct starpu_task *) {}
static void destroy_task(struct starpu_task *t)
{
    if(t->cl_arg && t->cl_arg_free) { memset(t->cl_arg, 0xdb, t->cl_arg_size); untrack(t->cl_arg); free(t->cl_arg); }
    free(t->dyn_handles); free(t->dyn_modes); free(t); --live_tasks;
}
void starpu_task_destroy(struct starpu_task *t)
{
    if(t->destroy && t->detach) fatal("invalid-task", "starpu_task_destroy called for a detached task that destroys itself");
    destroy_task(t);
}
int starpu_task_submit(struct starpu_task *st)
{
    check_thread("starpu_task_submit");
    if(tls_worker) fatal("submit-in-task", "task submitted from a task");
    struct starpu_codelet *cl = st->cl;
    if(!cl) fatal("invalid-task", "task without codelet");
    mark_arg(st->cl_arg);
    int where = archs(cl);
    if(st->where != -1) where &= (st->where & STARPU_CPU ? 1 : 0) | (st->where & STARPU_CUDA ? 2 : 0);
    if(!where) return -ENODEV;
    if(fault_here(F_SUBMIT)) return fault_code(F_SUBMIT, -ENODEV);
    int nb = cl->nbuffers == STARPU_VARIABLE_NBUFFERS ? st->nbuffers : cl->nbuffers;
    starpu_data_handle_t *hs = st->dyn_handles ? st->dyn_handles : st->handles;
    Task *t = new_task(USER); t->t = st; t->own_t = true; t->where = where;
    for(int i = 0; i < nb; ++i)
    {
        Data *d = H(hs[i], cl->name ? cl->name : "task");
        int m;
        if(cl->nbuffers == STARPU_VARIABLE_NBUFFERS) m = st->dyn_modes ? st->dyn_modes[i] : st->modes[i];
        else m = cl->dyn_modes ? cl->dyn_modes[i] : cl->modes[i];
        if((m & STARPU_REDUX) && (!d->redux_cl || !d->init_cl))
            fatal("redux-without-methods", "%s accesses data %d in reduction mode without reduction methods", tname(t), d->id);
        size_t k = 0; for(; k < t->acc.size(); ++k) if(t->acc[k].d == d) break;
        if(k == t->acc.size()) t->acc.push_back(Acc{d, m});
        else
        {
            int o = t->acc[k].mode;
            if((o | m) & (STARPU_REDUX|STARPU_SCRATCH)) { if((o & ~STARPU_COMMUTE) != (m & ~STARPU_COMMUTE)) fatal("invalid-task", "%s uses data %d in reduction or scratch mode and another mode", tname(t), d->id); }
            t->acc[k].mode = o | m;
        }
        t->slot.push_back((int)k);
        if(st->handles_sequential_consistency) { t->hseq.resize(t->acc.size(), 1); if(!st->handles_sequential_consistency[i]) t->hseq[k] = 0; }
    }
    t->seq = st->sequential_consistency != 0;
    // StarPU evaluates the performance model footprint of every task
    if(cl->model && cl->model->footprint) cl->model->footprint(st);
    tr("submit %s #%d%s", tname(t), t->id, "");
    if(trace) for(auto &a : t->acc) tr("   data %d mode %d", a.d->id, a.mode);
    launch(t);
    if(st->synchronous)
    {
        struct L { static bool c(void *p) { return ((Task*)p)->st == DONE; } };
        block("starpu_task_submit", L::c, t);
    }
    else maybe_run();
    return 0;
}
static struct starpu_task *build(struct starpu_codelet *cl, va_list ap)
{
    struct starpu_task *t = starpu_task_create(); t->cl = cl;
    Vec<starpu_data_handle_t> hs; Vec<int> ms;
    Vec<char> pack; int npack = 0;
    for(;;)
    {
        int a = va_arg(ap, int);
        if(a == 0) break;
        if(a < (1 << STARPU_MODE_SHIFT))
        {
            starpu_data_handle_t h = va_arg(ap, starpu_data_handle_t); hs.push_back(h); ms.push_back(a); continue;
        }
        int id = a & ~((1 << STARPU_MODE_SHIFT) - 1);
        switch(id)
        {
            case STARPU_VALUE:
            {
                void *p = va_arg(ap, void*); size_t n = va_arg(ap, size_t);
                const char *q = (const char*)&n; pack.insert(pack.end(), q, q+sizeof n);
                pack.insert(pack.end(), (char*)p, (char*)p+n); ++npack; break;
            }
            case STARPU_CL_ARGS: t->cl_arg = va_arg(ap, void*); mark_arg(t->cl_arg); t->cl_arg_size = va_arg(ap, size_t); t->cl_arg_free = 1; break;
            case STARPU_CL_ARGS_NFREE: t->cl_arg = va_arg(ap, void*); mark_arg(t->cl_arg); t->cl_arg_size = va_arg(ap, size_t); t->cl_arg_free = 0; break;
            case STARPU_DATA_ARRAY:
            {
                starpu_data_handle_t *h = va_arg(ap, starpu_data_handle_t*); int n = va_arg(ap, int);
                for(int i = 0; i < n; ++i) { hs.push_back(h[i]); ms.push_back(cl->modes[ms.size()]); } break;
            }
            case STARPU_DATA_MODE_ARRAY:
            {
                struct starpu_data_descr *h = va_arg(ap, struct starpu_data_descr*); int n = va_arg(ap, int);
                for(int i = 0; i < n; ++i) { hs.push_back(h[i].handle); ms.push_back(h[i].mode); } break;
            }
            case STARPU_FLOPS: t->flops = va_arg(ap, double); break;
            case STARPU_TAG: case STARPU_TAG_ONLY: (void)va_arg(ap, starpu_tag_t); break;
            case STARPU_NAME: t->name = va_arg(ap, const char*); break;
            case STARPU_CALLBACK: t->callback_func = va_arg(ap, void(*)(void*)); break;
            case STARPU_CALLBACK_WITH_ARG: case STARPU_CALLBACK_WITH_ARG_NFREE: t->callback_func = va_arg(ap, void(*)(void*)); t->callback_arg = va_arg(ap, void*); break;
            case STARPU_CALLBACK_ARG: case STARPU_CALLBACK_ARG_NFREE: t->callback_arg = va_arg(ap, void*); break;
            case STARPU_TASK_SYNCHRONOUS: t->synchronous = va_arg(ap, int); break;
            case STARPU_SEQUENTIAL_CONSISTENCY: t->sequential_consistency = va_arg(ap, unsigned); break;
            case STARPU_EXECUTE_WHERE: t->where = (int)va_arg(ap, unsigned long long); break;
            case STARPU_TASK_DEPS_ARRAY: case STARPU_TASK_END_DEPS_ARRAY: case STARPU_TASK_WORKERIDS: (void)va_arg(ap, unsigned); (void)va_arg(ap, void*); break;
            case STARPU_HANDLES_SEQUENTIAL_CONSISTENCY: t->handles_sequential_consistency = va_arg(ap, unsigned char*); break;
            case STARPU_EXECUTE_ON_DATA: case STARPU_TASK_FILE:
            case STARPU_PROLOGUE_CALLBACK: case STARPU_PROLOGUE_CALLBACK_ARG: case STARPU_PROLOGUE_CALLBACK_POP:
            case STARPU_PROLOGUE_CALLBACK_POP_ARG: case STARPU_TASK_PROFILING_INFO: case STARPU_TASK_SCHED_DATA:
            case STARPU_TRANSACTION: case STARPU_EPILOGUE_CALLBACK: case STARPU_EPILOGUE_CALLBACK_ARG:
                (void)va_arg(ap, void*); break;
            case STARPU_TASK_LINE: case STARPU_PRIORITY: case STARPU_EXECUTE_ON_NODE: case STARPU_HYPERVISOR_TAG:
            case STARPU_SCHED_CTX: case STARPU_EXECUTE_ON_WORKER: case STARPU_POSSIBLY_PARALLEL: case STARPU_WORKER_ORDER:
            case STARPU_NODE_SELECTION_POLICY: case STARPU_TASK_COLOR: case STARPU_TASK_END_DEP: case STARPU_TASK_NO_SUBMITORDER:
                (void)va_arg(ap, int); break;
            default: fatal("invalid-task", "unknown argument %d in starpu_task_insert", id >> STARPU_MODE_SHIFT);
        }
    }
    if(npack)
    {
        size_t n = sizeof(int) + pack.size(); char *p = (char*)malloc(n);
        memcpy(p, &npack, sizeof(int)); memcpy(p+sizeof(int), pack.data(), pack.size());
        t->cl_arg = p; t->cl_arg_size = n; t->cl_arg_free = 1;
    }
    t->nbuffers = (int)hs.size();
    t->dyn_handles = (starpu_data_handle_t*)malloc(sizeof(*t->dyn_handles)*(hs.size()+1));
    t->dyn_modes = (enum starpu_data_access_mode*)malloc(sizeof(*t->dyn_modes)*(hs.size()+1));
    for(size_t i = 0; i < hs.size(); ++i) { t->dyn_handles[i] = hs[i]; t->dyn_modes[i] = (enum starpu_data_access_mode)ms[i]; }
    if(cl && cl->nbuffers != STARPU_VARIABLE_NBUFFERS && cl->nbuffers != (int)hs.size())
        fatal("invalid-task", "%s: %d buffers given, %d expected", cl->name ? cl->name : "?", (int)hs.size(), cl->nbuffers);
    if(cl && cl->nbuffers != STARPU_VARIABLE_NBUFFERS && !cl->dyn_modes) for(size_t i = 0; i < hs.size(); ++i)
        if(cl->modes[i] && cl->modes[i] != ms[i]) fatal("invalid-task", "%s: access mode %d given for buffer %d, its codelet declares %d", cl->name ? cl->name : "?", ms[i], (int)i, (int)cl->modes[i]);
    return t;
}
struct starpu_task *starpu_task_build(struct starpu_codelet *cl, ...)
{ va_list ap; va_start(ap, cl); struct starpu_task *t = build(cl, ap); va_end(ap); return t; }
int starpu_task_insert(struct starpu_codelet *cl, ...)
{
    check_thread("starpu_task_insert");
    va_list ap; va_start(ap, cl); struct starpu_task *t = build(cl, ap); va_end(ap);
    int r = starpu_task_submit(t);
    if(r != 0) destroy_task(t);
    return r;
}
int starpu_insert_task(struct starpu_codelet *cl, ...)
{
    check_thread("starpu_insert_task");
    va_list ap; va_start(ap, cl); struct starpu_task *t = build(cl, ap); va_end(ap);
    int r = starpu_task_submit(t);
    if(r != 0) destroy_task(t);
    return r;
}
void starpu_codelet_init(struct starpu_codelet *cl) { memset(cl, 0, sizeof *cl); }
static void unpack(void *arg, va_list ap)
{
    char *p = (char*)arg; int n; memcpy(&n, p, sizeof n); p += sizeof n;
    for(int i = 0; i < n; ++i)
    {
        size_t s; memcpy(&s, p, sizeof s); p += sizeof s; void *o = va_arg(ap, void*);
        if(!o) break; memcpy(o, p, s); p += s;
    }
}
void starpu_codelet_unpack_args(void *arg, ...) { va_list ap; va_start(ap, arg); unpack(arg, ap); va_end(ap); }
int starpu_task_wait_for_all(void)
{
    if(!active || !inited) { ++S[S_LATE]; return 0; }
    check_thread("starpu_task_wait_for_all");
    maybe_run();
    block("starpu_task_wait_for_all", c_none, nullptr);
    return 0;
}
int starpu_task_wait_for_no_ready(void) { return starpu_task_wait_for_all(); }
int starpu_task_wait_for_n_submitted(unsigned n)
{
    wait_n = (int)n; struct L { static bool c(void*) { return npending <= wait_n; } };
    block("starpu_task_wait_for_n_submitted", L::c, nullptr); return 0;
}
int starpu_task_nsubmitted(void) { maybe_run(); return npending; }
int starpu_task_nready(void) { int n = (int)ready.size(); for(auto w : workers) if(w->task) ++n; return n; }
void starpu_do_schedule(void) {}
struct starpu_task *starpu_task_get_current(void) { return tls_worker && tls_worker->task ? tls_worker->task->t : nullptr; }
void starpu_iteration_push(unsigned long) {}
void starpu_iteration_pop(void) {}
int starpu_malloc(void **p, size_t n) { *p = malloc(n); return *p ? 0 : -ENOMEM; }
int starpu_free_noflag(void *p, size_t) { free(p); return 0; }
int starpu_free(void *p) { free(p); return 0; }
int starpu_memory_pin(void *, size_t) { return 0; }
int starpu_memory_unpin(void *, size_t) { return 0; }

// ------------------------------------------------------------ other seams
int __real_pthread_mutex_lock(pthread_mutex_t *m) __attribute__((weak));
static bool sim_thread() { return active && inited && (tls_worker || (app_set && pthread_equal(pthread_self(), app_thread))); }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if(!sim_thread()) return pthread_mutex_lock(m);
    for(long n = 0;; ++n)
    {
        int r = pthread_mutex_trylock(m);
        if(r != EBUSY) return r;
        if(tls_worker) { yield_to_sched(tls_worker); tls_budget = handed_budget; }
        else if(!step()) fatal("deadlock", "application waits for a mutex nobody releases");
    }
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return pthread_mutex_unlock(m); }
int __cxa_guard_acquire(void *) __attribute__((weak));
void __cxa_guard_release(void *) __attribute__((weak));
void __cxa_guard_abort(void *) __attribute__((weak));
// No preemption while a function-local static is being initialised: the other
// threads would really block on the guard.
int __wrap___cxa_guard_acquire(void *g) { ++tls_nopreempt; int r = __cxa_guard_acquire(g); if(!r) --tls_nopreempt; return r; }
void __wrap___cxa_guard_release(void *g) { __cxa_guard_release(g); --tls_nopreempt; }
void __wrap___cxa_guard_abort(void *g) { __cxa_guard_abort(g); --tls_nopreempt; }
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) { ++tls_nopreempt; int r = pthread_once(o, f); --tls_nopreempt; return r; }

static bool sim_sleep(const struct timespec *ts)
{
    if(!active || !inited || tls_worker || !app_set || !pthread_equal(pthread_self(), app_thread)) return false;
    ++S[S_SLEEPS]; S[S_SIMTIME_US] += (u64)ts->tv_sec*1000000 + ts->tv_nsec/1000;
    ++polls;
    if(fault_here(F_SIGINT)) { raise(SIGINT); return true; }
    int n = 1 + choose(8); bool any = false;
    for(int i = 0; i < n; ++i) any = step() || any;
    if(!any && npending > 0)
    {
        if(++polls_idle > 2000)
        {
            if(pause_count > 0) fatal("blocked-while-paused", "polling wait while the workers are paused");
            fatal("deadlock", "polling wait: %d unfinished tasks, none can run", npending);
        }
    }
    else polls_idle = 0;
    if(polls > 200000) fatal("no-progress", "polling wait does not end");
    return true;
}
typedef int (*ns_t)(const struct timespec*, struct timespec*);
typedef int (*cns_t)(clockid_t, int, const struct timespec*, struct timespec*);
int nanosleep(const struct timespec *a, struct timespec *b)
{
    if(sim_sleep(a)) { if(b) b->tv_sec = b->tv_nsec = 0; return 0; }
    static ns_t f = (ns_t)dlsym(RTLD_NEXT, "nanosleep"); return f(a, b);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b)
{
    if(!(fl & TIMER_ABSTIME) && sim_sleep(a)) { if(b) b->tv_sec = b->tv_nsec = 0; return 0; }
    static cns_t f = (cns_t)dlsym(RTLD_NEXT, "clock_nanosleep"); return f(c, fl, a, b);
}
int usleep(useconds_t u) { struct timespec t = {(time_t)(u/1000000), (long)(u%1000000)*1000}; return nanosleep(&t, nullptr); }

// ------------------------------------------------------------ control (ctypes)
void sim_forget_blocks(void);
void sim_vgpu(int on) { vgpu = on; }
void sim_gpus(int n) { gpu_max = n; }
void sim_begin(u64 seed, int max_workers, int eager, int burst, int preempt, int fill, int reloc, int policy, int stall, int replay)
{
    C = Cfg{seed, max_workers, eager, burst, preempt, fill, reloc, policy, stall, replay};
    { u64 g = mix(seed ^ 0x67756172) % 8; C.guard = g < 3 ? 0 : g < 5 ? 1 : 2; }
    rng_s = mix(seed); aux_s = mix(seed ^ 0xabcdef);
    memset(S, 0, sizeof S); memset(site, 0, sizeof site); memset(fired, 0, sizeof fired);
    dec_rec.clear(); dec_pos = 0; viol.clear(); polls = polls_idle = 0; npending = 0;
    pause_count = 0;
    static bool once = false;
    if(!once)
    {
        once = true; sem_init(&app_sem, 0, 0);
        static char st[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = st; ss.ss_size = sizeof st; sigaltstack(&ss, nullptr);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = crash; sa.sa_flags = SA_SIGINFO|SA_ONSTACK;
        int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
        for(int s : sg) sigaction(s, &sa, nullptr);
    }
    active = true; default_seq = 1; live_tasks = 0; sim_forget_blocks();
}
void sim_faults(int n, const int *kinds, const int *ats) { faults.clear(); for(int i = 0; i < n; ++i) faults.push_back(Fault{kinds[i], ats[i]}); }
void sim_decisions(int n, const u32 *v) { dec_in.assign(v, v+n); dec_pos = 0; }
void sim_report_fd(int fd) { report_fd = fd; }
void sim_trace(const char *path) { if(trace) fclose(trace); trace = path && *path ? fopen(path, "w") : nullptr; }
void sim_alloc_window(int on) { alloc_window = on; }
u64 sim_stat(int i) { if(i == S_PENDING) return npending; return i >= 0 && i < S_N ? S[i] : 0; }
u64 sim_fired(int k) { return fired[k]; }
u64 sim_site(int k) { return site[k]; }
int sim_nviol(void) { return (int)viol.size(); }
const char *sim_viol(int i) { return viol[i].c_str(); }
void sim_clear_viol(void) { viol.clear(); }
int sim_nrec(void) { return (int)dec_rec.size(); }
const u32 *sim_rec(void) { return dec_rec.data(); }
int sim_live_tasks(void) { return live_tasks; }
int sim_inited(void) { return inited; }
// let the workers run for a while (n steps at most); returns steps taken
int sim_run(int n) { int k = 0; while(k < n && inited && step()) ++k; return k; }
// number of live (registered) data and of tasks using them
int sim_alive(void) { int n = 0; for(auto d : datas) if(!d->dead) ++n; return n; }
void sim_end(void)
{
    if(inited) { pause_count = 0; starpu_shutdown(); }
    for(auto t : tasks) { if(t->t && t->own_t) {} del(t); }
    for(auto d : datas) { bfree(d->node); for(auto &r : d->rep) bfree(r.second); del(d); }
    tasks.clear(); datas.clear(); ready.clear(); faults.clear(); npending = 0;
    active = false; alloc_window = false;
}
} // extern "C"

// ------------------------------------------------------------ C++ allocation
static bool in_window() { return __builtin_expect(alloc_window, 0) && active && !tls_worker && app_set && pthread_equal(pthread_self(), app_thread); }
// An allocation made by the Python binding library itself is not NNTile's: it counts only beneath a frame of libnntile.so.
static _Unwind_Reason_Code see_frame(struct _Unwind_Context *c, void *r)
{
    uintptr_t a = _Unwind_GetIP(c);
    if(a >= lib_lo && a < lib_hi) { *(bool *)r = true; return _URC_END_OF_STACK; }
    return _URC_NO_REASON;
}
static bool within_nntile()
{
    if(!lib_hi) dl_iterate_phdr(find_lib, nullptr);
    bool r = false;
    _Unwind_Backtrace(see_frame, &r);
    return r;
}
// Blocks that NNTile itself allocated during a session and nobody has released.
struct Block { size_t size; uintptr_t site; bool arg; };
static std::map<void*, Block, std::less<void*>, MA<std::pair<void *const, Block>>> blocks;
static std::atomic_flag blocks_lock = ATOMIC_FLAG_INIT;
struct BL { BL() { while(blocks_lock.test_and_set()); } ~BL() { blocks_lock.clear(); } };
static void track(void *p, size_t n, void *site)
{
    if(!active || !p) return;
    uintptr_t a = (uintptr_t)site;
    if(!lib_hi) dl_iterate_phdr(find_lib, nullptr);
    if(a < lib_lo || a >= lib_hi) return;
    BL l; blocks[p] = Block{n, a - lib_lo, false};
}
static void untrack(void *p)
{
    if(!active || !p) return;
    BL l; if(!blocks.empty()) blocks.erase(p);
}
static void mark_arg(void *p) { if(!p) return; BL l; auto it = blocks.find(p); if(it != blocks.end()) it->second.arg = true; }
// blocks that were arguments of tasks, and blocks of places that left at least 4 of them
static int leaked(int i, Block *out)
{
    BL l; std::map<uintptr_t, int, std::less<uintptr_t>, MA<std::pair<const uintptr_t, int>>> n; int k = 0;
    for(auto &b : blocks) ++n[b.second.site];
    for(auto &b : blocks) if(b.second.arg || n[b.second.site] >= 4) { if(k == i) *out = b.second; ++k; }
    return k;
}
static void forget() { BL l; blocks.clear(); }
extern "C" void sim_forget_blocks(void) { forget(); }
extern "C" int sim_blocks(void) { Block b; return leaked(-1, &b); }
extern "C" const char *sim_block(int i) // description of a block that is still allocated
{
    static char m[400]; Block b{0, 0, false};
    if(leaked(i, &b) <= i) return "";
    Dl_info d; const char *f = dladdr((void*)(lib_lo + b.site), &d) && d.dli_sname ? d.dli_sname : "?";
    int st; char *q = abi::__cxa_demangle(f, nullptr, nullptr, &st);
    snprintf(m, sizeof m, "%zu bytes allocated in %.300s", b.size, q ? q : f); free(q);
    return m;
}
extern "C" void *__wrap_malloc(size_t n) // malloc called by NNTile itself
{
    if(in_window() && fault_here(F_MALLOC)) return nullptr;
    void *p = malloc(n); track(p, n, __builtin_return_address(0)); return p;
}
extern "C" void __wrap_free(void *p) { untrack(p); free(p); }
static void *sim_new(size_t n)
{
    if(in_window() && within_nntile() && fault_here(F_NEW)) return nullptr;
    return malloc(n ? n : 1);
}
#define SITE __builtin_return_address(0)
void *operator new(size_t n) { void *p = sim_new(n); if(!p) throw std::bad_alloc(); track(p, n, SITE); return p; }
void *operator new[](size_t n) { void *p = sim_new(n); if(!p) throw std::bad_alloc(); track(p, n, SITE); return p; }
void *operator new(size_t n, const std::nothrow_t&) noexcept { void *p = sim_new(n); track(p, n, SITE); return p; }
void *operator new[](size_t n, const std::nothrow_t&) noexcept { void *p = sim_new(n); track(p, n, SITE); return p; }
void operator delete(void *p) noexcept { untrack(p); free(p); }
void operator delete[](void *p) noexcept { untrack(p); free(p); }
void operator delete(void *p, size_t) noexcept { untrack(p); free(p); }
void operator delete[](void *p, size_t) noexcept { untrack(p); free(p); }
