#pragma once
#include "cuda_runtime.h"
struct __half
{
    _Float16 v;
    __half() = default;
    __half(float x): v((_Float16)x) {}
    __half(double x): v((_Float16)x) {}
    __half(int x): v((_Float16)x) {}
    operator float() const { return (float)v; }
    __half &operator+=(__half o) { v = (_Float16)((float)v + (float)o.v); return *this; }
    __half &operator-=(__half o) { v = (_Float16)((float)v - (float)o.v); return *this; }
    __half &operator*=(__half o) { v = (_Float16)((float)v * (float)o.v); return *this; }
};
typedef __half half;
static inline __half operator+(__half a, __half b) { return __half((float)a.v + (float)b.v); }
static inline __half operator-(__half a, __half b) { return __half((float)a.v - (float)b.v); }
static inline __half operator*(__half a, __half b) { return __half((float)a.v * (float)b.v); }
static inline __half operator/(__half a, __half b) { return __half((float)a.v / (float)b.v); }
static inline __half __float2half(float x) { return __half(x); }
static inline float __half2float(__half x) { return (float)x.v; }
