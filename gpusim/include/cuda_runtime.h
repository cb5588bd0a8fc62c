// CUDA runtime as seen by the simulated GPU (see ../runtime.cc).
#ifndef GPUSIM_CUDA_RUNTIME_H_
#define GPUSIM_CUDA_RUNTIME_H_
#include <math.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

#include <algorithm>
#include <cmath>
#include <functional>
#include <memory>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#define __global__
#define __device__
#define __host__
#define __constant__ static
#define __forceinline__ inline __attribute__((always_inline))
#define __noinline__ __attribute__((noinline))
#define __launch_bounds__(...)
#ifdef __restrict__
#undef __restrict__
#endif
#define __restrict__

struct uint3;
struct dim3 {
  unsigned int x, y, z;
  dim3(unsigned int a = 1, unsigned int b = 1, unsigned int c = 1)
      : x(a), y(b), z(c) {}
};
#define GPUSIM_VEC(T, N)                                                    \
  struct alignas(2 * sizeof(T)) N##2 { T x, y; };                           \
  struct N##3 { T x, y, z; };                                               \
  struct alignas(sizeof(T) > 4 ? 16 : 4 * sizeof(T)) N##4 { T x, y, z, w; };\
  inline N##2 make_##N##2(T x, T y) { return N##2{x, y}; }                  \
  inline N##3 make_##N##3(T x, T y, T z) { return N##3{x, y, z}; }          \
  inline N##4 make_##N##4(T x, T y, T z, T w) { return N##4{x, y, z, w}; }
GPUSIM_VEC(int, int)
GPUSIM_VEC(float, float)
GPUSIM_VEC(double, double)
GPUSIM_VEC(unsigned int, uint)
GPUSIM_VEC(long long, longlong)
#define CUDART_INF_F INFINITY
#define CUDART_NAN_F NAN

typedef enum {
  cudaSuccess = 0,
  cudaErrorInvalidValue = 1,
  cudaErrorMemoryAllocation = 2,
  cudaErrorInvalidConfiguration = 9,
  cudaErrorNotReady = 600,
  cudaErrorLaunchOutOfResources = 701,
  cudaErrorLaunchFailure = 719
} cudaError_t;
typedef cudaError_t cudaError;
typedef struct gpusim_stream* cudaStream_t;
typedef struct gpusim_event* cudaEvent_t;
enum cudaMemcpyKind {
  cudaMemcpyHostToHost = 0,
  cudaMemcpyHostToDevice = 1,
  cudaMemcpyDeviceToHost = 2,
  cudaMemcpyDeviceToDevice = 3,
  cudaMemcpyDefault = 4
};
struct cudaDeviceProp {
  char name[256];
  size_t totalGlobalMem, sharedMemPerBlock, sharedMemPerMultiprocessor;
  int regsPerBlock, regsPerMultiprocessor, warpSize, maxThreadsPerBlock;
  int maxThreadsPerMultiProcessor, maxThreadsDim[3], maxGridSize[3];
  int multiProcessorCount, major, minor, clockRate;
  size_t totalConstMem;
  int concurrentKernels, maxBlocksPerMultiProcessor;
};

extern "C" {
cudaError_t cudaGetDevice(int*);
cudaError_t cudaSetDevice(int);
cudaError_t cudaMemsetAsync(void*, int, size_t, cudaStream_t);
cudaError_t cudaMemset(void*, int, size_t);
cudaError_t cudaMemcpyAsync(void*, const void*, size_t, cudaMemcpyKind,
                            cudaStream_t);
cudaError_t cudaMemcpy(void*, const void*, size_t, cudaMemcpyKind);
cudaError_t cudaPeekAtLastError();
cudaError_t cudaGetLastError();
const char* cudaGetErrorString(cudaError_t);
cudaError_t cudaEventCreate(cudaEvent_t*);
cudaError_t cudaEventDestroy(cudaEvent_t);
cudaError_t cudaEventRecord(cudaEvent_t, cudaStream_t);
cudaError_t cudaEventSynchronize(cudaEvent_t);
cudaError_t cudaEventElapsedTime(float*, cudaEvent_t, cudaEvent_t);
cudaError_t cudaEventQuery(cudaEvent_t);
cudaError_t cudaStreamWaitEvent(cudaStream_t, cudaEvent_t, unsigned int);
cudaError_t cudaStreamQuery(cudaStream_t);
cudaError_t cudaStreamSynchronize(cudaStream_t);
cudaError_t cudaDeviceSynchronize();
cudaError_t gpusim_device_props(cudaDeviceProp*);
cudaError_t gpusim_occupancy(int*, const void*, int, size_t);
uint3 gpusim_thread_idx();
uint3 gpusim_block_idx();
uint3 gpusim_block_dim();
uint3 gpusim_grid_dim();
void gpusim_sync(const void* site);
void* gpusim_static_shared(const void* site, size_t size);
void* gpusim_dyn_shared();
void gpusim_atomic(void* addr, size_t size);
}
inline cudaError_t cudaEventCreateWithFlags(cudaEvent_t* e, unsigned int) {
  return cudaEventCreate(e);
}
inline cudaError_t cudaGetDeviceProperties(cudaDeviceProp* p, int) {
  return gpusim_device_props(p);
}
template <class F>
inline cudaError_t cudaOccupancyMaxActiveBlocksPerMultiprocessor(
    int* n, F f, int block, size_t shared) {
  return gpusim_occupancy(n, (const void*)f, block, shared);
}
template <class T>
inline cudaError_t cudaMemcpyToSymbolAsync(T* dst, const void* src, size_t n,
                                           size_t off, cudaMemcpyKind kind,
                                           cudaStream_t st) {
  return cudaMemcpyAsync((char*)dst + off, src, n, kind, st);
}

#define threadIdx (::gpusim_thread_idx())
#define blockIdx (::gpusim_block_idx())
#define blockDim (::gpusim_block_dim())
#define gridDim (::gpusim_grid_dim())
static const int warpSize = 32;

__attribute__((noinline)) static void __syncthreads() {
  ::gpusim_sync(__builtin_return_address(0));
}
inline void __threadfence() {}
inline void __threadfence_block() {}

#define GPUSIM_ATOMIC(NAME, T, EXPR)                        \
  __attribute__((no_sanitize("thread"))) inline T NAME(T* a, T v) { \
    ::gpusim_atomic((void*)a, sizeof(T));                   \
    T o = *a;                                               \
    *a = (EXPR);                                            \
    return o;                                               \
  }
#define GPUSIM_ATOMIC_INT(T)              \
  GPUSIM_ATOMIC(atomicAdd, T, o + v)      \
  GPUSIM_ATOMIC(atomicMax, T, o > v ? o : v) \
  GPUSIM_ATOMIC(atomicMin, T, o < v ? o : v) \
  GPUSIM_ATOMIC(atomicExch, T, v)         \
  GPUSIM_ATOMIC(atomicAnd, T, o & v)      \
  GPUSIM_ATOMIC(atomicOr, T, o | v)       \
  GPUSIM_ATOMIC(atomicXor, T, o ^ v)      \
  __attribute__((no_sanitize("thread"))) inline T atomicCAS(T* a, T c, T v) { \
    ::gpusim_atomic((void*)a, sizeof(T)); \
    T o = *a;                             \
    if (o == c) *a = v;                   \
    return o;                             \
  }
GPUSIM_ATOMIC_INT(int)
GPUSIM_ATOMIC_INT(unsigned int)
GPUSIM_ATOMIC_INT(unsigned long long)
GPUSIM_ATOMIC(atomicAdd, float, o + v)
GPUSIM_ATOMIC(atomicExch, float, v)
GPUSIM_ATOMIC(atomicAdd, double, o + v)
GPUSIM_ATOMIC(atomicSub, int, o - v)
GPUSIM_ATOMIC(atomicSub, unsigned int, o - v)

inline int __float_as_int(float f) { int i; __builtin_memcpy(&i, &f, 4); return i; }
inline float __int_as_float(int i) { float f; __builtin_memcpy(&f, &i, 4); return f; }
inline unsigned int __float_as_uint(float f) { unsigned i; __builtin_memcpy(&i, &f, 4); return i; }
inline float __uint_as_float(unsigned int i) { float f; __builtin_memcpy(&f, &i, 4); return f; }
template <class T> inline T __ldg(const T* p) { return *p; }
inline float __expf(float x) { return ::expf(x); }
inline float __logf(float x) { return ::logf(x); }
inline float __sinf(float x) { return ::sinf(x); }
inline float __cosf(float x) { return ::cosf(x); }
inline float __powf(float x, float y) { return ::powf(x, y); }
inline float __fadd_rn(float a, float b) { return a + b; }
inline float __fsub_rn(float a, float b) { return a - b; }
inline float __fmul_rn(float a, float b) { return a * b; }
inline float __fdiv_rn(float a, float b) { return a / b; }
inline float __fsqrt_rn(float a) { return ::sqrtf(a); }
inline float __frcp_rn(float a) { return 1.0f / a; }
inline float __fmaf_rn(float a, float b, float c) { return ::fmaf(a, b, c); }
inline int __float2int_rd(float a) { return (int)::floorf(a); }
inline int __float2int_rn(float a) { return (int)::rintf(a); }
inline int __float2int_rz(float a) { return (int)a; }
inline int __float2int_ru(float a) { return (int)::ceilf(a); }
inline int __mul24(int a, int b) { return a * b; }
inline int __popc(unsigned int a) { return __builtin_popcount(a); }
inline int __clz(int a) { return a ? __builtin_clz(a) : 32; }
inline int __ffs(int a) { return __builtin_ffs(a); }
inline float __saturatef(float a) { return a < 0 ? 0.0f : a > 1 ? 1.0f : a; }
inline void __threadfence_system() {}
inline float __fdividef(float a, float b) { return a / b; }
inline float rsqrtf(float x) { return 1.0f / ::sqrtf(x); }
inline float rsqrt(float x) { return 1.0f / ::sqrtf(x); }
#define GPUSIM_MINMAX(T)                                \
  inline T min(T a, T b) { return b < a ? b : a; }      \
  inline T max(T a, T b) { return a < b ? b : a; }
GPUSIM_MINMAX(int)
GPUSIM_MINMAX(unsigned int)
GPUSIM_MINMAX(long)
GPUSIM_MINMAX(unsigned long)
GPUSIM_MINMAX(long long)
GPUSIM_MINMAX(unsigned long long)
GPUSIM_MINMAX(float)
GPUSIM_MINMAX(double)
#define GPUSIM_MIXED(A, B, R)                                       \
  inline R min(A a, B b) { return min((R)a, (R)b); }                \
  inline R min(B a, A b) { return min((R)a, (R)b); }                \
  inline R max(A a, B b) { return max((R)a, (R)b); }                \
  inline R max(B a, A b) { return max((R)a, (R)b); }
GPUSIM_MIXED(int, unsigned int, unsigned int)
GPUSIM_MIXED(int, long, long)
GPUSIM_MIXED(int, long long, long long)
GPUSIM_MIXED(unsigned int, long long, long long)
GPUSIM_MIXED(float, double, double)

namespace gpusim {
struct Body {
  virtual void run() = 0;
  virtual ~Body() {}
  size_t bytes = 0;
};
struct Cfg {
  dim3 grid, block;
  size_t shared;
  Cfg(dim3 g, dim3 b, size_t s = 0, cudaStream_t = nullptr)
      : grid(g), block(b), shared(s) {}
};
void enqueue(const Cfg&, const char* name, std::unique_ptr<Body>);

template <class F, class... A>
struct BodyOf : Body {
  F f;
  std::tuple<A...> args;
  BodyOf(F g, A... a) : f(g), args(a...) { bytes = sizeof(*this); }
  template <size_t... I>
  void call(std::index_sequence<I...>) { f(std::get<I>(args)...); }
  void run() override { call(std::index_sequence_for<A...>()); }
};
template <class F, class... A>
void launch(const Cfg& c, const char* name, F f, A... a) {
  enqueue(c, name, std::unique_ptr<Body>(new BodyOf<F, A...>(f, a...)));
}
}  // namespace gpusim
#endif
