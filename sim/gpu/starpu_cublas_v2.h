#pragma once
#include "cublas_v2.h"
extern "C" cublasHandle_t starpu_cublas_get_local_handle(void);
