// every wrapper of the IntelMKL interface, called through its public operator
#include "Interfaces/IntelMKL/BlasInterface_IntelMKL.cpp"
#define BLAS(N, R, P, A, K) extern "C" __attribute__((used)) R vc_mkl_##N P { return BlasBooster::BlasInterface<BlasBooster::IntelMKL, BlasBooster::N>() A; }
#define CDOT BLAS
#define SPBLAS BLAS
#include "blas_list.h"
extern "C" __attribute__((used)) void vc_mkl_threads(int n) { BlasBooster::IntelMKL_set_num_threads(n); }
