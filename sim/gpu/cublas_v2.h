#pragma once
#include "cuda_runtime.h"
#include "cuda_fp16.h"
typedef struct SimCublas *cublasHandle_t;
typedef int cublasStatus_t;
enum cublasOperation_t { CUBLAS_OP_N, CUBLAS_OP_T, CUBLAS_OP_C };
enum cublasPointerMode_t { CUBLAS_POINTER_MODE_HOST, CUBLAS_POINTER_MODE_DEVICE };
enum cudaDataType { CUDA_R_32F, CUDA_R_64F, CUDA_R_16F };
typedef cudaDataType cudaDataType_t;
enum cublasComputeType_t { CUBLAS_COMPUTE_32F, CUBLAS_COMPUTE_32F_FAST_TF32, CUBLAS_COMPUTE_16F, CUBLAS_COMPUTE_64F };
enum cublasGemmAlgo_t { CUBLAS_GEMM_DEFAULT, CUBLAS_GEMM_DEFAULT_TENSOR_OP };
enum { CUBLAS_STATUS_SUCCESS = 0 };
extern "C" {
int simblas_stream(cublasHandle_t, cudaStream_t);
int simblas_mode(cublasHandle_t, cublasPointerMode_t);
int simblas_gemm(cublasHandle_t, int type, int scal, int ta, int tb, long m, long n, long k, const void *alpha, const void *A, long lda, long long sa, const void *B, long ldb, long long sb, const void *beta, void *C, long ldc, long long sc, long batch);
int simblas_axpy(cublasHandle_t, int type, long n, const void *alpha, const void *x, long incx, void *y, long incy);
int simblas_scal(cublasHandle_t, int type, long n, const void *alpha, void *x, long incx);
int simblas_nrm2(cublasHandle_t, int type, long n, const void *x, long incx, void *r);
}
#define cublasSetStream simblas_stream
#define cublasSetPointerMode simblas_mode
#define SIMBLAS_TYPE(N, T, t) \
static inline int cublas##N##gemm(cublasHandle_t h, cublasOperation_t ta, cublasOperation_t tb, int m, int n, int k, const T *al, const T *A, int lda, const T *B, int ldb, const T *be, T *C, int ldc) \
{ return simblas_gemm(h, t, t, ta, tb, m, n, k, al, A, lda, 0, B, ldb, 0, be, C, ldc, 0, 1); } \
static inline int cublas##N##gemmStridedBatched(cublasHandle_t h, cublasOperation_t ta, cublasOperation_t tb, int m, int n, int k, const T *al, const T *A, int lda, long long sa, const T *B, int ldb, long long sb, const T *be, T *C, int ldc, long long sc, int batch) \
{ return simblas_gemm(h, t, t, ta, tb, m, n, k, al, A, lda, sa, B, ldb, sb, be, C, ldc, sc, batch); }
SIMBLAS_TYPE(S, float, 0) SIMBLAS_TYPE(D, double, 1) SIMBLAS_TYPE(H, __half, 2)
#define SIMBLAS_VEC(N, T, t) \
static inline int cublas##N##axpy(cublasHandle_t h, int n, const T *al, const T *x, int ix, T *y, int iy) { return simblas_axpy(h, t, n, al, x, ix, y, iy); } \
static inline int cublas##N##scal(cublasHandle_t h, int n, const T *al, T *x, int ix) { return simblas_scal(h, t, n, al, x, ix); } \
static inline int cublas##N##nrm2(cublasHandle_t h, int n, const T *x, int ix, T *r) { return simblas_nrm2(h, t, n, x, ix, r); }
SIMBLAS_VEC(S, float, 0) SIMBLAS_VEC(D, double, 1)
static inline int cublasGemmEx(cublasHandle_t h, cublasOperation_t ta, cublasOperation_t tb, int m, int n, int k, const void *al, const void *A, cudaDataType t, int lda, const void *B, cudaDataType, int ldb, const void *be, void *C, cudaDataType, int ldc, cublasComputeType_t, cublasGemmAlgo_t)
{ return simblas_gemm(h, t, t == CUDA_R_16F ? 0 : t, ta, tb, m, n, k, al, A, lda, 0, B, ldb, 0, be, C, ldc, 0, 1); }
static inline int cublasGemmStridedBatchedEx(cublasHandle_t h, cublasOperation_t ta, cublasOperation_t tb, int m, int n, int k, const void *al, const void *A, cudaDataType t, int lda, long long sa, const void *B, cudaDataType, int ldb, long long sb, const void *be, void *C, cudaDataType, int ldc, long long sc, int batch, cublasComputeType_t, cublasGemmAlgo_t)
{ return simblas_gemm(h, t, t == CUDA_R_16F ? 0 : t, ta, tb, m, n, k, al, A, lda, sa, B, ldb, sb, be, C, ldc, sc, batch); }
