// CUDA as far as NNTile uses it, for the simulated GPU (emu.cc).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <math.h> // with the overloads of the global namespace, which CUDA has
#include <tuple>
#include <type_traits>
#include <utility>
#define __global__
#define __device__
#define __host__
#define __forceinline__ inline
#define __constant__ const
#define __restrict__ __restrict
#define __launch_bounds__(...)
struct uint3 { unsigned x, y, z; };
struct dim3
{
    unsigned x, y, z;
    constexpr dim3(unsigned x_ = 1, unsigned y_ = 1, unsigned z_ = 1): x(x_), y(y_), z(z_) {}
};
struct SimGpuThread { uint3 tid, bid; dim3 bdim, gdim; };
extern "C" SimGpuThread *simgpu_cur;
#define threadIdx (simgpu_cur->tid)
#define blockIdx (simgpu_cur->bid)
#define blockDim (simgpu_cur->bdim)
#define gridDim (simgpu_cur->gdim)
#define warpSize 32
typedef struct SimGpuStream *cudaStream_t;
typedef int cudaError_t;
enum { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorInvalidConfiguration = 9 };
enum cudaMemcpyKind { cudaMemcpyHostToHost, cudaMemcpyHostToDevice, cudaMemcpyDeviceToHost, cudaMemcpyDeviceToDevice, cudaMemcpyDefault };
extern "C" {
void simgpu_barrier(void);
void *simgpu_shared(const void *key, size_t size);
void *simgpu_dynamic(void);
void simgpu_atomic(const void *p, size_t n);
void simgpu_launch(dim3 grid, dim3 block, size_t smem, cudaStream_t s, void (*call)(void *), void (*drop)(void *), void *ctx, size_t n, const char *name);
cudaStream_t simgpu_stream(void);
int simgpu_memcpy(void *d, const void *s, size_t n, int kind, cudaStream_t st);
int simgpu_memset(void *d, int v, size_t n, cudaStream_t st);
int simgpu_sync(cudaStream_t s);
int simgpu_error(void);
}
#define cudaMemcpyAsync simgpu_memcpy
static inline int simgpu_memset_default(void *d, int v, size_t n) { return simgpu_memset(d, v, n, simgpu_stream()); }
#define cudaMemsetAsync simgpu_memset
#define cudaStreamSynchronize simgpu_sync
#define cudaGetLastError simgpu_error
#define cudaPeekAtLastError simgpu_error
#define __syncthreads simgpu_barrier
static inline int simgpu_device_sync() { return simgpu_sync(simgpu_stream()); }
#define cudaDeviceSynchronize simgpu_device_sync
template<typename T> T *simgpu_sh(const void *key) { return (T*)simgpu_shared(key, sizeof(T)); }
template<typename T, typename U> static inline T atomicAdd(T *p, U v)
{
    simgpu_atomic(p, sizeof(T)); volatile T *q = p; T o = *q; *q = (T)(o + v); simgpu_atomic(nullptr, 0); return o;
}
template<typename T, typename U> static inline T atomicMax(T *p, U v)
{
    simgpu_atomic(p, sizeof(T)); volatile T *q = p; T o = *q; if(o < (T)v) *q = (T)v; simgpu_atomic(nullptr, 0); return o;
}
template<typename T, typename U> static inline T atomicExch(T *p, U v)
{
    simgpu_atomic(p, sizeof(T)); volatile T *q = p; T o = *q; *q = (T)v; simgpu_atomic(nullptr, 0); return o;
}
template<typename F> static inline void simgpu_go(dim3 g, dim3 b, size_t smem, cudaStream_t s, const char *name, F f)
{
    F *h = new F(std::move(f));
    simgpu_launch(g, b, smem, s, [](void *p) { (*(F*)p)(); }, [](void *p) { delete (F*)p; }, h, sizeof(F), name);
}
// arguments are evaluated when the kernel is launched
template<typename F, typename... A> static inline auto simgpu_bind(F f, A... a) { return [f, t = std::make_tuple(a...)]() { std::apply(f, t); }; }
// the stream may be left out
template<typename F> static inline void simgpu_go(dim3 g, dim3 b, const char *name, F f) { simgpu_go(g, b, 0, simgpu_stream(), name, std::move(f)); }
template<typename F> static inline void simgpu_go(dim3 g, dim3 b, size_t smem, const char *name, F f) { simgpu_go(g, b, smem, simgpu_stream(), name, std::move(f)); }
static inline float rsqrtf(float x) { return 1.0f/sqrtf(x); }
static inline double rsqrt(double x) { return 1.0/::sqrt(x); }
static inline float rsqrt(float x) { return 1.0f/sqrtf(x); }
#define __expf expf
static inline float __fdividef(float a, float b) { return a/b; }
