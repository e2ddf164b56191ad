// stand-ins for the BLAS routines: they note their name and arguments
#include <complex>
#include "blas_stubs.h"
const char* g_routine; int g_ncalls, g_nargs; const void* g_args[32]; double g_re, g_im; long g_n;
static void note(const char* n, int k, std::initializer_list<const void*> a)
{ g_routine = n; ++g_ncalls; g_nargs = k; int i = 0; for (auto x : a) g_args[i++] = x; }
template <class T> T value() { return T(g_re); }
template <> void value<void>() {}
template <> std::complex<float> value<std::complex<float>>() { return {float(g_re), float(g_im)}; }
template <> std::complex<double> value<std::complex<double>>() { return {g_re, g_im}; }
#define BLAS(N, R, P, A, K) extern "C" R N##_ P { note(#N, K, {BLAS_ARGS A}); return value<R>(); }
#define SPBLAS(N, R, P, A, K) extern "C" R mkl_##N P { note(#N, K, {BLAS_ARGS A}); return value<R>(); }
#define CDOT BLAS
#define BLAS_ARGS(...) __VA_ARGS__
#include "blas_list.h"
#define HID(N, T) extern "C" void mkl_stub_##N##_(T* r, const int* v0, const T* v1, const int* v2, const T* v3, const int* v4) { note(#N, 5, {v0, v1, v2, v3, v4}); *r = value<T>(); }
HID(cdotc, std::complex<float>) HID(cdotu, std::complex<float>) HID(zdotc, std::complex<double>) HID(zdotu, std::complex<double>)
extern "C" void openblas_set_num_threads(int n) { ++g_ncalls; g_n = n; }
extern "C" void MKL_Set_Num_Threads(int n) { ++g_ncalls; g_n = n; }
extern "C" void MKL_Set_Dynamic(int) {}
