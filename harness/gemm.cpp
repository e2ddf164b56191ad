// the BLAS-backed dense products; the BLAS routine itself is an observation point
#include "common.h"
#include "BlasBooster/Core/Multiplication_OpenBLAS.h"
#include "BlasBooster/Core/Multiplication_IntelMKL.h"
extern "C" {
void vc_dgemm(char, char, int, int, int, double, const double*, int, const double*, int, double, double*, int);
void vc_sgemm(char, char, int, int, int, float, const float*, int, const float*, int, float, float*, int);
}
namespace BlasBooster {
#define GEMM(L, N, T) void BlasInterface<L, N>::operator()(const char* ta, const char* tb, const int* m, const int* n, const int* k, const T* al, const T* a, const int* la, const T* b, const int* lb, const T* be, T* c, const int* lc) const \
    { vc_##N(*ta, *tb, *m, *n, *k, *al, a, *la, b, *lb, *be, c, *lc); }
GEMM(OpenBLAS, dgemm, double) GEMM(OpenBLAS, sgemm, float) GEMM(IntelMKL, dgemm, double) GEMM(IntelMKL, sgemm, float)
}
#define MUL(L, N, T, M, OUT) \
    ENTRY vc_##N##_fresh(size_t m, size_t k, size_t n, T* a, T* b) { M A(m, k, a), B(k, n, b), C; MultiplicationFunctor<Dense,T,PC,Dense,T,PC,Dense,T,PC,L>()(A, B, C); OUT(C.getDataPointer(), C.getNbRows(), C.getNbColumns(), C.getSize()); } \
    ENTRY vc_##N##_again(size_t m, size_t k, size_t n, T* a, T* b, size_t r, size_t c) { M A(m, k, a), B(k, n, b), C(r, c); MultiplicationFunctor<Dense,T,PC,Dense,T,PC,Dense,T,PC,L>()(A, B, C); OUT(C.getDataPointer(), C.getNbRows(), C.getNbColumns(), C.getSize()); } \
    ENTRY vc_##N##_expr(size_t m, size_t k, size_t n, T* a, T* b) { M A(m, k, a), B(k, n, b); M C((A * B).template execute<L>()); OUT(C.getDataPointer(), C.getNbRows(), C.getNbColumns(), C.getSize()); }
MUL(OpenBLAS, open_d, double, MD, vc_dense) MUL(OpenBLAS, open_s, float, MF, vc_densef)
MUL(IntelMKL, mkl_d, double, MD, vc_dense) MUL(IntelMKL, mkl_s, float, MF, vc_densef)
