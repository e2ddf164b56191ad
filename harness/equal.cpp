// numerical equality of numbers, storages, dense and sparse matrices
#include "common.h"
#define NUM(N, T, U) ENTRY vc_eq_##N(T a, U b) { vc_bool(equalWithinNumericalAccuracy(a, b)); vc_bool(equalWithinNumericalAccuracy(b, a)); }
NUM(dd, double, double) NUM(df, double, float) NUM(fd, float, double) NUM(ff, float, float)
NUM(kk, size_t, size_t) NUM(uu, unsigned, unsigned)
typedef Storage<double, false, false, 0> DS;
typedef Storage<float, false, false, 0> FS;
typedef Storage<size_t, false, false, 0> KS;
#define STO(N, T, TS, U, US) ENTRY vc_st_##N(T* A, size_t n, U* B, size_t m) { TS a(A, n); US b(B, m); vc_bool(a.equal(b)); vc_bool(a.notEqual(b)); }
STO(dd, double, DS, double, DS) STO(df, double, DS, float, FS) STO(fd, float, FS, double, DS) STO(ff, float, FS, float, FS) STO(kk, size_t, KS, size_t, KS)
#define MAT(N, T, M, U, V) ENTRY vc_mt_##N(T* A, size_t r, size_t c, U* B, size_t s, size_t d) { M a(r, c, A); V b(s, d, B); vc_bool(a.equal(b)); vc_bool(a.notEqual(b)); }
typedef Matrix<Dense, float, PC> MF_;
MAT(dd, double, MD, double, MD) MAT(df, double, MD, float, MF_) MAT(ff, float, MF_, float, MF_) MAT(rr, double, MDR, double, MDR)
// sparse storages looking at given arrays
template <class T> struct SpIn : SparseStorage<T, size_t, false, 0> {
    SpIn(T* v, size_t* k, size_t* o, size_t n, size_t p) { this->value_ = Storage<T, false, false, 0>(v, n); this->key_ = KS(k, n); this->offset_ = KS(o, p); }
};
#define SPA(N, T, U) ENTRY vc_sp_##N(T* A, size_t* K, size_t* O, size_t n, size_t p, U* B, size_t* L, size_t* Q, size_t m, size_t q) { \
    SpIn<T> a(A, K, O, n, p); SpIn<U> b(B, L, Q, m, q); vc_bool(a.equal(b)); vc_bool(a.notEqual(b)); }
SPA(dd, double, double) SPA(df, double, float) SPA(ff, float, float)
