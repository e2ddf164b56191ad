// norms and occupation
#include "sparse.h"
#include "BlasBooster/Core/Norm.h"
template <class N> using PN = Parameter<size_t, ColumnMajor, VariableSize, NoLeadingDimension, NoUnblockedDimension, N>;
typedef Matrix<Dense, float, PS> SubF;
typedef AbsoluteValueRangeChecker<double> CN;
typedef AbsoluteValueRangeChecker<double, ExclusiveBound, InclusiveBound> CR;
// ---- C13: free functions
#define NORMS(M, ARGS, MAKE) \
    ENTRY vc_n1_##M ARGS { MAKE; vc_real(norm<NormOne>(A)); } \
    ENTRY vc_n2_##M ARGS { MAKE; vc_real(norm<NormTwo>(A)); } \
    ENTRY vc_nm_##M ARGS { MAKE; vc_real(norm<NormMax>(A)); }
NORMS(d, (size_t r, size_t c, double* a), MD A(r, c, a))
NORMS(f, (size_t r, size_t c, float* a), MF A(r, c, a))
NORMS(r, (size_t r, size_t c, double* a), MDR A(r, c, a))
NORMS(v, (size_t R, size_t C, double* a, size_t r, size_t c, size_t br, size_t bc), MD P(R, C, a); SubD A(P, r, c, br, bc))
NORMS(vf, (size_t R, size_t C, float* a, size_t r, size_t c, size_t br, size_t bc), MF P(R, C, a); SubF A(P, r, c, br, bc))
NORMS(s, (SPA(double)), Sp<double> S(r, c, v, k, o, n); SD const& A = S.m())
NORMS(sf, (SPA(float)), Sp<float> S(r, c, v, k, o, n); SF const& A = S.m())
NORMS(z, (size_t r, size_t c), Matrix<Zero> A(r, c))
// a composite matrix looks at its parts
#define KEEP(T, P) std::shared_ptr<T>(std::shared_ptr<void>(), P)
#define BOTH(T1, T2) SPA(T1), T2* b
typedef MultipleMatrix<SD, MF> MM; typedef MultipleMatrix<SD, SF> MS2;
NORMS(m, (BOTH(double, float)), Sp<double> S(r, c, v, k, o, n); MF D(r, c, b); MM A(KEEP(SD, &S), KEEP(MF, &D)))
NORMS(ms, (SPA(double), float *w, size_t *l, size_t *q, size_t p), Sp<double> S(r, c, v, k, o, n); Sp<float> T(r, c, w, l, q, p); MS2 A(KEEP(SD, &S), KEEP(SF, &T)))
// ---- through the matrix, first query and second query
#define OWN(N) typedef Matrix<Dense, double, PN<N>> M; M A(r, c, a)
ENTRY vc_p1(size_t r, size_t c, double* a) { OWN(NormOne); vc_real(A.getNorm()); vc_real(A.getNorm()); }
ENTRY vc_p2(size_t r, size_t c, double* a) { OWN(NormTwo); vc_real(A.getNorm()); vc_real(A.getNorm()); }
ENTRY vc_pm(size_t r, size_t c, double* a) { OWN(NormMax); vc_real(A.getNorm()); vc_real(A.getNorm()); }
ENTRY vc_p_large(size_t r, size_t c, double* a, double x) { OWN(NormOne); vc_bool(A.isNormLargerThan(x)); vc_bool(A.isNormLargerThan(x)); vc_bool(A.isNormSmallerThan(x)); }
ENTRY vc_p_small(size_t r, size_t c, double* a, double x) { OWN(NormOne); vc_bool(A.isNormSmallerThan(x)); vc_bool(A.isNormSmallerThan(x)); vc_bool(A.isNormLargerThan(x)); }
ENTRY vc_p_copy(size_t r, size_t c, double* a) { OWN(NormOne); A.getNorm(); M B(A); vc_real(B.getNorm()); M C; C = A; vc_real(C.getNorm()); }
ENTRY vc_p_zero(size_t r, size_t c, double x) { Matrix<Zero> A(r, c); vc_real(A.getNorm()); vc_bool(A.isNormLargerThan(x)); vc_bool(A.isNormSmallerThan(x)); }
// results of operations have a norm of their own
ENTRY vc_p_sum(double* a, SPA(double)) { OWN(NormOne); typedef Matrix<Sparse, double, PN<NormOne>> S_; A.getNorm(); struct X : S_ { X(size_t r, size_t c, double* v, size_t* k, size_t* o, size_t n) { this->nbRows_ = r; this->nbColumns_ = c; this->full_size_ = r * c; this->value_ = Storage<double, false, false, 0>(v, n); this->key_ = KS(k, n); this->offset_ = KS(o, c + 1); } } B(r, c, v, k, o, n); M C(A + static_cast<S_ const&>(B)); vc_real(C.getNorm()); }
ENTRY vc_p_diff(size_t r, size_t c, double* a, double* b) { OWN(NormOne); M B(r, c, b); A.getNorm(); B.getNorm(); M C(A - B); vc_real(C.getNorm()); }
// ---- C14
ENTRY vc_cnt_d(size_t r, size_t c, double* a) { MD A(r, c, a); vc_int(countDesiredElements(A, Accept())); }
ENTRY vc_cnt_f(size_t r, size_t c, float* a) { MF A(r, c, a); vc_int(countDesiredElements(A, Accept())); }
ENTRY vc_cnt_r(size_t r, size_t c, double* a) { MDR A(r, c, a); vc_int(countDesiredElements(A, Accept())); }
ENTRY vc_cnt_v(size_t R, size_t C, double* a, size_t r, size_t c, size_t br, size_t bc) { MD P(R, C, a); SubD A(P, r, c, br, bc); vc_int(countDesiredElements(A, Accept())); }
ENTRY vc_cnt_s(SPA(double)) { Sp<double> A(r, c, v, k, o, n); vc_int(countDesiredElements(A.m(), Accept())); }
ENTRY vc_cnt_sf(SPA(float)) { Sp<float> A(r, c, v, k, o, n); vc_int(countDesiredElements(A.m(), Accept())); }
ENTRY vc_cnt_z(size_t r, size_t c) { Matrix<Zero> A(r, c); vc_int(A.getNbOfSignificantElements()); vc_real(A.getOccupation()); }
ENTRY vc_occ_d(size_t r, size_t c, double* a, double lo) { MD A(r, c, a); vc_int(A.getNbOfSignificantElements(CN(lo))); vc_real(A.getOccupation(CN(lo))); }
ENTRY vc_occ_f(size_t r, size_t c, float* a, double lo, double hi) { MF A(r, c, a); vc_int(A.getNbOfSignificantElements(CR(lo, hi))); vc_real(A.getOccupation(CR(lo, hi))); }
ENTRY vc_occ_v(size_t R, size_t C, double* a, size_t r, size_t c, size_t br, size_t bc, double lo) { MD P(R, C, a); SubD A(P, r, c, br, bc); vc_int(A.getNbOfSignificantElements(CN(lo))); vc_real(A.getOccupation(CN(lo))); }
ENTRY vc_occ_s(SPA(double), double lo, double hi) { Sp<double> S(r, c, v, k, o, n); SD const& A = S.m(); vc_int(A.getNbOfSignificantElements(CR(lo, hi))); vc_real(A.getOccupation(CR(lo, hi))); }
// several tests on the same matrix, in any order, keep their own counts
ENTRY vc_occ_many(size_t r, size_t c, double* a, double x, double y) { MD A(r, c, a); vc_int(A.getNbOfSignificantElements(CN(x))); vc_int(A.getNbOfSignificantElements(CR(x, y))); vc_int(A.getNbOfSignificantElements(CN(y))); vc_int(A.getNbOfSignificantElements(CN(x))); vc_int(A.getNbOfSignificantElements(CR(x, y))); A.reset(); vc_int(A.getNbOfSignificantElements(CN(y))); }
ENTRY vc_occ_large(size_t r, size_t c, double* a, double x, double lo) { MD A(r, c, a); vc_bool(A.isOccupationLargerThan(x, CN(lo))); vc_bool(A.isOccupationSmallerThan(x, CN(lo))); }
ENTRY vc_occ_zero(double x) { Matrix<Zero> A(3, 4); vc_bool(A.isOccupationLargerThan(x)); vc_bool(A.isOccupationSmallerThan(x)); }
