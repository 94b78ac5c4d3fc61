// included first in every source of the GPU build
#pragma once
#include "cuda_runtime.h"
extern "C" { cudaStream_t starpu_cuda_get_local_stream(void); void starpu_cublas_init(void); void starpu_cublas_shutdown(void); }
