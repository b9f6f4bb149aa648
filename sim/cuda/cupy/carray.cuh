// Stand-in for cupy's carray.cuh and for the CUDA language, for a host
// compiler.  Device threads are fibres of runtime.cpp.
#pragma once
#include <math.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>

struct cusim_dim3 { unsigned int x, y, z; };
extern "C" {
extern cusim_dim3 threadIdx, blockIdx, blockDim, gridDim;
extern int warpSize;
void cusim_access(void);                        // may switch to another thread
void cusim_error(const char *, long, long);
void cusim_garbage(void *, size_t);
uint64_t cusim_shfl(unsigned mask, uint64_t value, int lane, int width);
unsigned cusim_ballot(unsigned mask, int pred);
unsigned cusim_activemask(void);
void cusim_syncwarp(unsigned mask);
void cusim_syncthreads(void);
}

#define __global__
#define __device__
#define __host__
#define __constant__ static const
#define __forceinline__ inline __attribute__((always_inline))
#define __restrict__
#define __align__(n) __attribute__((aligned(n)))
#define __launch_bounds__(...)
#define __shared__ static __attribute__((section("cushared")))

#define CUSIM_VECTORS(T, A2, A4) \
struct __align__(A2) T##2 { T x, y; }; \
struct T##3 { T x, y, z; }; \
struct __align__(A4) T##4 { T x, y, z, w; }; \
static inline T##2 make_##T##2(T x, T y) { T##2 r = {x, y}; return r; } \
static inline T##3 make_##T##3(T x, T y, T z) \
    { T##3 r = {x, y, z}; return r; } \
static inline T##4 make_##T##4(T x, T y, T z, T w) \
    { T##4 r = {x, y, z, w}; return r; }
CUSIM_VECTORS(float, 8, 16)
CUSIM_VECTORS(double, 16, 16)
CUSIM_VECTORS(int, 8, 16)
#undef CUSIM_VECTORS

static inline float rsqrtf(float v) { return 1.0f / sqrtf(v); }
static inline double rsqrt(double v) { return 1.0 / sqrt(v); }
static inline void sincospi(double v, double * s, double * c)
    { *s = sin(M_PI*v); *c = cos(M_PI*v); }
static inline void sincospif(float v, float * s, float * c)
    { *s = float(sin(M_PI*double(v))); *c = float(cos(M_PI*double(v))); }
#define CUSIM_MINMAX(T) \
static inline T min(T a, T b) { return b < a ? b : a; } \
static inline T max(T a, T b) { return a < b ? b : a; }
CUSIM_MINMAX(int)
CUSIM_MINMAX(unsigned int)
CUSIM_MINMAX(long)
#undef CUSIM_MINMAX
static inline float min(float a, float b) { return fminf(a, b); }
static inline float max(float a, float b) { return fmaxf(a, b); }
static inline double min(double a, double b) { return fmin(a, b); }
static inline double max(double a, double b) { return fmax(a, b); }

template <typename T> static inline T __ldg(const T * p)
    { cusim_access(); return *p; }

template <typename T>
static inline T __shfl_sync(unsigned mask, T v, int lane, int width=32)
{
    static_assert(sizeof(T) <= 8, "shuffled type");
    uint64_t b = 0;
    memcpy(&b, &v, sizeof(T));
    b = cusim_shfl(mask, b, lane, width);
    memcpy(&v, &b, sizeof(T));
    return v;
}
static inline unsigned __ballot_sync(unsigned mask, int pred)
    { return cusim_ballot(mask, pred); }
static inline unsigned __activemask() { return cusim_activemask(); }
static inline void __syncwarp(unsigned mask=0xFFFFFFFFu)
    { cusim_syncwarp(mask); }
static inline void __syncthreads() { cusim_syncthreads(); }

template <typename T, int N>
class CArray
{
    T * data_;
    ptrdiff_t size_, shape_[N], strides_[N];
    static T & lost()
    {
        static T waste;
        cusim_garbage((void *) &waste, sizeof(T));
        return waste;
    }
public:
    ptrdiff_t size() const { return size_; }
    const ptrdiff_t * shape() const { return shape_; }
    const ptrdiff_t * strides() const { return strides_; }

    T & operator[](const ptrdiff_t (&idx)[N]) const
    {
        char * p = (char *) data_;
        cusim_access();
        for(int d = 0; d < N; ++d)
        {
            if(idx[d] < 0 || idx[d] >= shape_[d])
            {
                cusim_error("index out of bounds", idx[d], shape_[d]);
                return lost();
            }
            p += idx[d]*strides_[d];
        }
        return *(T *) p;
    }

    T & operator[](ptrdiff_t i) const
    {
        char * p = (char *) data_;
        cusim_access();
        if(i < 0 || i >= size_)
        {
            cusim_error("index out of bounds", i, size_);
            return lost();
        }
        for(int d = N - 1; d > 0; --d)
        {
            p += (i % shape_[d])*strides_[d];
            i /= shape_[d];
        }
        if(N > 0)
            p += i*strides_[0];
        return *(T *) p;
    }
};

// ---- launching --------------------------------------------------------
struct cusim_arg { void * ptr; int ndim; int itemsize; };  // ndim -1: scalar

template <typename A> struct cusim_kind
{
    enum { ndim = -1, itemsize = sizeof(A) };
};
template <typename T, int N> struct cusim_kind<CArray<T, N>>
{
    enum { ndim = N, itemsize = sizeof(T) };
};
template <typename T, int N> struct cusim_kind<const CArray<T, N>>
{
    enum { ndim = N, itemsize = sizeof(T) };
};

template <int... I> struct cusim_seq {};
template <int N, int... I> struct cusim_mk : cusim_mk<N - 1, N - 1, I...> {};
template <int... I> struct cusim_mk<0, I...> { typedef cusim_seq<I...> type; };

template <typename... A, int... I>
static void cusim_invoke(void (*k)(A...), cusim_arg * a, cusim_seq<I...>)
    { k(*(A *) a[I].ptr...); }

template <typename... A>
static void cusim_call(void (*k)(A...), cusim_arg * a)
    { cusim_invoke(k, a, typename cusim_mk<sizeof...(A)>::type()); }

template <typename... A>
static int cusim_check(void (*k)(A...), cusim_arg * a, int n)
{
    const int nd[] = { cusim_kind<A>::ndim..., 0 };
    const int sz[] = { cusim_kind<A>::itemsize..., 0 };
    if(n != int(sizeof...(A)))
    {
        cusim_error("number of arguments", n, sizeof...(A));
        return 0;
    }
    for(int i = 0; i < n; ++i)
    {
        if(a[i].ndim != nd[i])
            { cusim_error("rank of an argument", a[i].ndim, nd[i]); return 0; }
        if(nd[i] >= 0 && a[i].itemsize != sz[i])
        {
            cusim_error("type size of an argument", a[i].itemsize, sz[i]);
            return 0;
        }
    }
    return 1;
}

extern "C" __attribute__((weak)) char __start_cushared[];
extern "C" __attribute__((weak)) char __stop_cushared[];

#define CUSIM_ENTRY(name) \
extern "C" void cusim_entry(cusim_arg * a) { cusim_call(&name, a); } \
extern "C" int cusim_accepts(cusim_arg * a, int n) \
    { return cusim_check(&name, a, n); } \
extern "C" void cusim_shared(char ** lo, char ** hi) \
    { *lo = __start_cushared; *hi = __stop_cushared; }
