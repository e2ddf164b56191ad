// every wrapper of the OpenBLAS interface, called through its public operator
#include "Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp"
#define BLAS(N, R, P, A, K) extern "C" __attribute__((used)) R vc_open_##N P { return BlasBooster::BlasInterface<BlasBooster::OpenBLAS, BlasBooster::N>() A; }
#define CDOT BLAS
#define SPBLAS(N, R, P, A, K)
#include "blas_list.h"
extern "C" __attribute__((used)) void vc_open_threads(int n) { BlasBooster::OpenBLAS_set_num_threads(n); }
