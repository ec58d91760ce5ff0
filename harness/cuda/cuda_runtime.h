// The part of CUDA which a stand-in can provide; included by the host pass and by the device pass.
#pragma once
#include <cstddef>
#include <cstdlib>
#include <cstdint>
#include <cmath>
#include <algorithm>
struct CUstream_st;
struct CUevent_st;
typedef CUstream_st* cudaStream_t;
typedef CUevent_st* cudaEvent_t;
enum cudaError { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorMemoryAllocation = 2, cudaErrorInvalidConfiguration = 9, cudaErrorInvalidDevicePointer = 17,
    cudaErrorInvalidMemcpyDirection = 21, cudaErrorNoDevice = 100, cudaErrorLaunchFailure = 719, cudaErrorNotSupported = 801, cudaErrorUnknown = 999 };
typedef cudaError cudaError_t;
enum cudaMemcpyKind { cudaMemcpyHostToHost, cudaMemcpyHostToDevice, cudaMemcpyDeviceToHost, cudaMemcpyDeviceToDevice, cudaMemcpyDefault };
struct uint3 { unsigned x, y, z; };
struct dim3
{
    unsigned x, y, z;
    constexpr dim3(unsigned a = 1, unsigned b = 1, unsigned c = 1) : x(a), y(b), z(c) {}
};
#if !defined(__CUDA_ARCH__)
// the host side is compiled as plain C++; device functions are never called there
#define __host__
#define __device__
#define __global__
#define __shared__ static
#define __constant__ static
#define __managed__ static
#define __launch_bounds__(...)
static const uint3 blockIdx = {0, 0, 0}, threadIdx = {0, 0, 0};
static const dim3 blockDim, gridDim;
static const int warpSize = 32;
#else
#define __host__
#define __device__
#define __global__ __attribute__((section("cukernels"), used))
#define __shared__ __attribute__((section("cushared"))) static
#define __constant__
#define __managed__
#define __launch_bounds__(...)
extern "C" uint3 fibcu_block(); extern "C" uint3 fibcu_thread(); extern "C" uint3 fibcu_block_dim(); extern "C" uint3 fibcu_grid_dim();
extern "C" void fibcu_sync_block(); extern "C" void fibcu_sync_grid();
extern "C" void fibcu_step(const void*, size_t);
#define blockIdx (fibcu_block())
#define threadIdx (fibcu_thread())
#define blockDim (fibcu_block_dim())
#define gridDim (fibcu_grid_dim())
#define warpSize 32
#endif
#define __forceinline__ inline
#ifndef __noinline__
#define __noinline__
#endif
#ifdef __CUDA_ARCH__
#define CU_SYNC fibcu_sync_block()
#define CU_STEP(p, n) fibcu_step(p, n)
#else
#define CU_SYNC ((void)0)
#define CU_STEP(p, n) ((void)0)
#endif
inline float __int2float_rn(int v) { return (float)v; }
inline float __uint2float_rn(unsigned v) { return (float)v; }
inline float __ll2float_rn(long long v) { return (float)v; }
inline float __ull2float_rn(unsigned long long v) { return (float)v; }
inline double __int2double_rn(int v) { return v; }
inline double __uint2double_rn(unsigned v) { return v; }
inline double __ll2double_rn(long long v) { return (double)v; }
inline double __ull2double_rn(unsigned long long v) { return (double)v; }
inline float __double2float_rn(double v) { return (float)v; }
inline int __float2int_rn(float v) { return (int)__builtin_rintf(v); }
inline int __float2int_rz(float v) { return (int)v; }
inline unsigned __float2uint_rz(float v) { return (unsigned)v; }
inline float __fmaf_rn(float a, float b, float c) { return __builtin_fmaf(a, b, c); }
inline float __saturatef(float a) { return a < 0 ? 0 : a > 1 ? 1 : a; }
inline int __mul24(int a, int b) { return a * b; }
inline unsigned __umul24(unsigned a, unsigned b) { return a * b; }
inline float __fadd_rn(float a, float b) { return a + b; }
inline float __fmul_rn(float a, float b) { return a * b; }
inline float __fsub_rn(float a, float b) { return a - b; }
inline void __syncthreads() { CU_SYNC; }
inline void __threadfence() {}
inline void __threadfence_block() {}
inline void __threadfence_system() {}
inline int min(int a, int b) { return a < b ? a : b; }
inline unsigned min(unsigned a, unsigned b) { return a < b ? a : b; }
inline float min(float a, float b) { return a < b ? a : b; }
inline long long min(long long a, long long b) { return a < b ? a : b; }
inline unsigned long min(unsigned long a, unsigned long b) { return a < b ? a : b; }
inline unsigned long long min(unsigned long long a, unsigned long long b) { return a < b ? a : b; }
inline double min(double a, double b) { return a < b ? a : b; }
inline long long max(long long a, long long b) { return a > b ? a : b; }
inline unsigned long max(unsigned long a, unsigned long b) { return a > b ? a : b; }
inline unsigned long long max(unsigned long long a, unsigned long long b) { return a > b ? a : b; }
inline double max(double a, double b) { return a > b ? a : b; }
inline int max(int a, int b) { return a > b ? a : b; }
inline unsigned max(unsigned a, unsigned b) { return a > b ? a : b; }
inline float max(float a, float b) { return a > b ? a : b; }
#define CU_ATOMIC(name, expr) \
    template <class T> __attribute__((no_sanitize("thread"))) inline T name(T* p, T b) { CU_STEP(p, sizeof(T)); T a = *p; *p = (T)(expr); return a; } \
    template <class T, class U> __attribute__((no_sanitize("thread"))) inline T name(T* p, U v) { return name<T>(p, (T)v); }
CU_ATOMIC(atomicAdd, a + b) CU_ATOMIC(atomicSub, a - b) CU_ATOMIC(atomicExch, b) CU_ATOMIC(atomicOr, a | b) CU_ATOMIC(atomicAnd, a & b)
CU_ATOMIC(atomicXor, a ^ b) CU_ATOMIC(atomicMin, a < b ? a : b) CU_ATOMIC(atomicMax, a > b ? a : b)
template <class T> __attribute__((no_sanitize("thread"))) inline T atomicCAS(T* p, T c, T v) { CU_STEP(p, sizeof(T)); T a = *p; if (a == c) *p = v; return a; }
#if !defined(__CUDA_ARCH__)
extern "C"
{
cudaError_t fibcu_launch(const void* f, dim3 grid, dim3 block, void** args, const size_t* sizes, int n);
cudaError_t cudaLaunchKernel(const void* f, dim3 grid, dim3 block, void** args, size_t shared, cudaStream_t stream);
cudaError_t cudaLaunchCooperativeKernel(const void* f, dim3 grid, dim3 block, void** args, size_t shared, cudaStream_t stream);
cudaError_t cudaMalloc(void** p, size_t n);
cudaError_t cudaMallocManaged_(void** p, size_t n);
cudaError_t cudaFree(void* p);
cudaError_t cudaMemcpy(void* d, const void* s, size_t n, cudaMemcpyKind k);
cudaError_t cudaMemcpyAsync(void* d, const void* s, size_t n, cudaMemcpyKind k, cudaStream_t stream = 0);
cudaError_t cudaMemset(void* d, int v, size_t n);
cudaError_t cudaMemsetAsync(void* d, int v, size_t n, cudaStream_t stream = 0);
cudaError_t cudaDeviceSynchronize();
cudaError_t cudaThreadSynchronize();
cudaError_t cudaStreamSynchronize(cudaStream_t);
cudaError_t cudaGetLastError();
cudaError_t cudaPeekAtLastError();
const char* cudaGetErrorString(cudaError_t);
const char* cudaGetErrorName(cudaError_t);
cudaError_t cudaGetDeviceCount(int*);
cudaError_t cudaGetDevice(int*);
cudaError_t cudaSetDevice(int);
cudaError_t cudaDeviceReset();
}
template <class T> inline cudaError_t cudaMalloc(T** p, size_t n) { return cudaMalloc((void**)(void*)p, n); }
template <class T> inline cudaError_t cudaMallocManaged(T** p, size_t n, unsigned = 1) { return cudaMallocManaged_((void**)(void*)p, n); }
template <class T> inline cudaError_t cudaLaunchCooperativeKernel(T* f, dim3 grid, dim3 block, void** args, size_t shared = 0, cudaStream_t stream = 0)
{ return cudaLaunchCooperativeKernel((const void*)f, grid, block, args, shared, stream); }
template <class T> inline cudaError_t cudaLaunchKernel(T* f, dim3 grid, dim3 block, void** args, size_t shared = 0, cudaStream_t stream = 0)
{ return cudaLaunchKernel((const void*)f, grid, block, args, shared, stream); }

namespace fibcu
{
template <class... A> struct Launch
{
    void (*f)(A...);
    dim3 grid, block;
    cudaError_t operator()(A... a) const
    {
        void* p[sizeof...(A) + 1] = {(void*)&a...};
        size_t n[sizeof...(A) + 1] = {sizeof(A)...};
        return fibcu_launch((const void*)f, grid, block, p, n, sizeof...(A));
    }
};
template <class... A> inline Launch<A...> launch(void (*f)(A...), dim3 grid, dim3 block, size_t = 0, cudaStream_t = 0) { return Launch<A...>{f, grid, block}; }
}
#endif
