// C entry points to the C++ tile interface of NNTile, which has no Python wrapper.
// Number types: 0 fp32, 1 fp64, 2 int64 (Index), 3 bool, 4 fp16.
#include <nntile/base_types.hh>
#include <nntile/constants.hh>
#include <nntile/starpu.hh>
#include <nntile/tile.hh>
#include <cstring>
#include <string>
#include <vector>
#include <new>
using namespace nntile;
typedef std::vector<Index> V;

struct Box { int dt; void *p; };
template<typename F> static int guarded(char *err, int n, F f)
{
    try { f(); return 0; }
    catch(const std::bad_alloc &) { snprintf(err, n, "bad_alloc"); return 2; }
    catch(const std::exception &e) { snprintf(err, n, "%s", e.what()); return 1; }
}
template<typename F> static void by_type(int dt, F f)
{
    switch(dt)
    {
        case 0: f((fp32_t *)nullptr); break;
        case 1: f((fp64_t *)nullptr); break;
        case 2: f((Index *)nullptr); break;
        case 3: f((bool_t *)nullptr); break;
        case 4: f((fp16_t *)nullptr); break;
    }
}
extern "C" {
//! A tile of its own memory, or over memory of the caller
Box *tile_new(int dt, int nd, const long *shape, void *mem, long mem_nelems, char *err, int en)
{
    Box *b = nullptr;
    guarded(err, en, [&]{ by_type(dt, [&](auto *q) {
        typedef std::remove_pointer_t<decltype(q)> T;
        V s(shape, shape+nd);
        auto t = mem ? new tile::Tile<T>(s, (T *)mem, mem_nelems) : new tile::Tile<T>(s);
        b = new Box{dt, t}; }); });
    return b;
}
int tile_del(Box *b, int unregister, char *err, int en)
{
    return guarded(err, en, [&]{ by_type(b->dt, [&](auto *q) {
        typedef std::remove_pointer_t<decltype(q)> T;
        auto t = (tile::Tile<T> *)b->p;
        if(unregister) t->unregister();
        delete t; delete b; }); });
}
//! mode 0: read, 1: write, 2: read and write (adds nothing: writes what it read)
int tile_io(Box *b, int mode, void *buf, int release, char *err, int en)
{
    return guarded(err, en, [&]{ by_type(b->dt, [&](auto *q) {
        typedef std::remove_pointer_t<decltype(q)> T;
        auto t = (tile::Tile<T> *)b->p;
        auto l = t->acquire(mode == 0 ? STARPU_R : mode == 1 ? STARPU_W : STARPU_RW);
        size_t n = t->nelems*sizeof(T);
        if(mode == 1) memcpy(l.get_ptr(), buf, n); else memcpy(buf, l.get_ptr(), n);
        if(release) l.release(); }); });
}
long tile_nelems(int nd, const long *shape)
{ return tile::TileTraits(V(shape, shape+nd)).nelems; }
long tile_linear(int nd, const long *shape, const long *index, char *err, int en)
{ long r = -1; if(guarded(err, en, [&]{ r = tile::TileTraits(V(shape, shape+nd)).index_to_linear(V(index, index+nd)); })) return -1; return r; }
}

struct Call
{
    const char *op; bool blk; Box **t; int nt; const double *s; const long *i;
    bool is(const char *n) const { return !strcmp(op, n); }
};
template<typename T> static const tile::Tile<T> &X(const Call &c, int k)
{
    const int dt = std::is_same_v<T, fp32_t> ? 0 : std::is_same_v<T, fp64_t> ? 1 : std::is_same_v<T, Index> ? 2 : std::is_same_v<T, bool_t> ? 3 : 4;
    if(k >= c.nt || c.t[k]->dt != dt) { fprintf(stderr, "tileshim: operand %d of %s has a wrong type\n", k, c.op); abort(); }
    return *(tile::Tile<T> *)c.t[k]->p;
}
#define OP(name, ...) if(c.is(#name)) { if(c.blk) tile::name<T>(__VA_ARGS__); else tile::name##_async<T>(__VA_ARGS__); return true; }
#define x(k) X<T>(c, k)
#define ix(k) X<Index>(c, k)
#define mx(k) X<bool_t>(c, k)
#define s(k) T(c.s[k])
#define n(k) Index(c.i[k])
template<typename T> static bool floats(const Call &c)
{
    OP(adam_step, n(0), s(0), s(1), s(2), s(3), s(4), x(0), x(1), x(2), x(3))
    OP(adamw_step, n(0), s(0), s(1), s(2), s(3), s(4), x(0), x(1), x(2), x(3))
    OP(add, s(0), x(0), s(1), x(1))
    OP(add_fiber, s(0), x(0), s(1), x(1), n(0), n(1))
    OP(add_scalar, s(0), s(1), x(0))
    OP(add_slice, s(0), x(0), s(1), x(1), n(0))
    OP(add_slice3, s(0), x(0), s(1), x(1), x(2), n(0))
    OP(addcdiv, s(0), s(1), x(0), x(1), x(2))
    if(c.is("axpy"))
    {
        if(c.nt == 3) { if(c.blk) tile::axpy<T>(x(0), x(1), x(2)); else tile::axpy_async<T>(x(0), x(1), x(2)); }
        else { if(c.blk) tile::axpy<T>(s(0), x(0), x(1)); else tile::axpy_async<T>(s(0), x(0), x(1)); }
        return true;
    }
    OP(clear, x(0))
    OP(copy, x(0), x(1))
    OP(dgelu, x(0)) OP(dgelutanh, x(0)) OP(drelu, x(0))
    OP(fill, s(0), x(0))
    OP(gelu, x(0))
    OP(gelu_backward, x(0), x(1), x(2))
    OP(gelutanh, x(0), x(1))
    OP(gelutanh_backward, x(0), x(1), x(2))
    OP(gelutanh_inplace, x(0))
    if(c.is("gemm"))
    {
        TransOp ta(n(0) ? TransOp::Trans : TransOp::NoTrans), tb(n(1) ? TransOp::Trans : TransOp::NoTrans);
        if(c.blk) tile::gemm<T, T>(s(0), ta, x(0), tb, x(1), s(1), x(2), n(2), n(3));
        else tile::gemm_async<T, T>(s(0), ta, x(0), tb, x(1), s(1), x(2), n(2), n(3));
        return true;
    }
    OP(hypot, s(0), x(0), s(1), x(1))
    OP(logsumexp, x(0), x(1))
    OP(mask_scalar, mx(0), s(0), x(1))
    OP(maximum, x(0), x(1))
    OP(maxsumexp, x(0), x(1), n(0))
    OP(norm_slice, s(0), x(0), s(1), x(1), n(0))
    OP(normalize, x(0), x(1), x(2), n(0), s(0), n(1))
    OP(nrm2, s(0), x(0), s(1), x(1), x(2))
    OP(pow, s(0), s(1), x(0))
    OP(prod, x(0), x(1))
    OP(prod_fiber, x(0), s(0), x(1), n(0))
    OP(prod_fiber3, x(0), s(0), x(1), x(2), n(0))
    OP(prod_slice, x(0), s(0), x(1), n(0))
    if(c.is("randn"))
    {
        // ints: seed, number of starts, starts..., number of extents, extents...
        const long *q = c.i+2; V st(q, q+c.i[1]); q += c.i[1]; V un(q+1, q+1+q[0]);
        if(c.blk) tile::randn<T>(x(0), st, un, (unsigned long long)c.i[0], s(0), s(1));
        else tile::randn_async<T>(x(0), st, un, (unsigned long long)c.i[0], s(0), s(1));
        return true;
    }
    OP(relu, x(0))
    OP(relu_backward, x(0), x(1), x(2))
    OP(relu_forward, x(0), x(1))
    OP(scal, s(0), x(0), x(1))
    OP(scal_inplace, s(0), x(0))
    OP(softmax, x(0), x(1), s(0), x(2), n(0))
    OP(softmax_inplace, x(0), s(0), x(1), n(0))
    OP(sqrt, x(0), x(1))
    OP(sqrt_inplace, x(0))
    OP(subtract_indexed_outputs, s(0), ix(0), x(1))
    OP(sum_fiber, s(0), x(0), s(1), x(1), n(0), n(1))
    OP(sum_slice, s(0), x(0), s(1), x(1), n(0))
    OP(sumnorm, x(0), x(1), n(0))
    OP(sumprod_fiber, s(0), x(0), x(1), s(1), x(2), n(0))
    OP(sumprod_slice, s(0), x(0), x(1), s(1), x(2), n(0))
    OP(total_sum_accum, s(0), x(0), x(1), ix(2), x(3))
    return false;
}
template<typename T> static bool moves(const Call &c)
{
    OP(copy, x(0), x(1))
    if(c.is("copy_intersection"))
    {
        // ints: number of source offsets, offsets..., number of destination offsets, offsets...
        const long *q = c.i+1; V so(q, q+c.i[0]); q += c.i[0]; V d(q+1, q+1+q[0]);
        if(c.blk) tile::copy_intersection<T>(x(0), so, x(1), d, ix(2));
        else tile::copy_intersection_async<T>(x(0), so, x(1), d, ix(2));
        return true;
    }
    return false;
}
//! 0: done, 1: rejected with an exception, 2: out of memory, -1: no such operation
extern "C" int tile_call(const char *op, int dt, int blocking, Box **t, int nt, const double *sc, const long *in, char *err, int en)
{
    Call c{op, blocking != 0, t, nt, sc, in};
    bool ok = false;
    int r = guarded(err, en, [&]{
        if(c.is("copy_intersection") || (c.is("copy") && dt == 2))
            ok = dt == 0 ? moves<fp32_t>(c) : dt == 1 ? moves<fp64_t>(c) : moves<Index>(c);
        else if(c.is("fp32_to_fp16"))
        { ok = true; if(c.blk) tile::fp32_to_fp16(X<fp32_t>(c, 0), X<fp16_t>(c, 1)); else tile::fp32_to_fp16_async(X<fp32_t>(c, 0), X<fp16_t>(c, 1)); }
        else if(c.is("fp16_to_fp32"))
        { ok = true; if(c.blk) tile::fp16_to_fp32(X<fp16_t>(c, 0), X<fp32_t>(c, 1)); else tile::fp16_to_fp32_async(X<fp16_t>(c, 0), X<fp32_t>(c, 1)); }
        else ok = dt == 0 ? floats<fp32_t>(c) : floats<fp64_t>(c); });
    return r ? r : ok ? 0 : -1;
}
