// the choice of a matrix type, and what is stored in it
#include "sparse.h"
#include "BlasBooster/Core/DynamicMatrixTypeList.h"
#include "BlasBooster/Core/MultipleMatrix.h"
extern "C" {
double vc_any();                                // some number
double vc_occ(double x, bool accepted);         // the occupation under a test that decides so about x
long vc_act(int);                               // the matrix is stored as type number ..
}
typedef Matrix<Zero> MZ;
typedef MultipleMatrix<SD, SF> MSS;
typedef MultipleMatrix<SD, MF> MSD;
#define LIMITS(X) X(Zero, MZ) X(SparseFloat, SF) X(DenseFloat, MF) X(SparseDouble, SD) X(MultipleSS, MSS) X(MultipleSD, MSD) X(DenseDouble, MD)
#define SETTINGS double sf, double sd, double z_f, double z_d, double sf_f, double sf_d, double df_f, double df_d, double sd_f, double sd_d, double ss_f, double ss_d, double ds_f, double ds_d, double dd_f, double dd_d
static inline Threshold settings(SETTINGS)
{
    ThresholdSettings s;
    s.significanceThresholdSinglePrecision = sf; s.significanceThresholdDoublePrecision = sd;
    s.occupationThresholdMatrixZeroSinglePrecision = z_f; s.occupationThresholdMatrixZeroDoublePrecision = z_d;
    s.occupationThresholdMatrixSparseFloatSinglePrecision = sf_f; s.occupationThresholdMatrixSparseFloatDoublePrecision = sf_d;
    s.occupationThresholdMatrixDenseFloatSinglePrecision = df_f; s.occupationThresholdMatrixDenseFloatDoublePrecision = df_d;
    s.occupationThresholdMatrixSparseDoubleSinglePrecision = sd_f; s.occupationThresholdMatrixSparseDoubleDoublePrecision = sd_d;
    s.occupationThresholdMultipleMatrixSparseDoubleSparseFloatSinglePrecision = ss_f; s.occupationThresholdMultipleMatrixSparseDoubleSparseFloatDoublePrecision = ss_d;
    s.occupationThresholdMultipleMatrixDenseFloatSparseDoubleSinglePrecision = ds_f; s.occupationThresholdMultipleMatrixDenseFloatSparseDoubleDoublePrecision = ds_d;
    s.occupationThresholdMatrixDenseDoubleSinglePrecision = dd_f; s.occupationThresholdMatrixDenseDoubleDoublePrecision = dd_d;
    return Threshold(s);
}
#define GIVEN sf, sd, z_f, z_d, sf_f, sf_d, df_f, df_d, sd_f, sd_d, ss_f, ss_d, ds_f, ds_d, dd_f, dd_d
// a matrix of which only the occupation is known
struct Probe {};
namespace BlasBooster {
template <> struct Matrix<Probe, double, PC> {
    template <class C> double getOccupation(C const& c) const { double x = vc_any(); return vc_occ(x, c(x)); }
};
#define CONV(I, ...) template <> struct ConversionFunctor<Probe, double, PC, __VA_ARGS__> { DynamicMatrix operator()(Matrix<Probe, double, PC> const&, Threshold const&) const { vc_act(I); return DynamicMatrix(); } };
CONV(0, MZ) CONV(1, SF) CONV(2, MF) CONV(3, SD) CONV(4, MSS) CONV(5, MSD) CONV(6, MD)
}
ENTRY vc_choose(SETTINGS) { Threshold t(settings(GIVEN)); Matrix<Probe, double, PC> m; DynamicMatrix d(MatrixConverter()(m, t)); vc_point(1); }
// one type asked for
#define ASK(I, ...) ENTRY vc_permits_##I(SETTINGS) { Threshold t(settings(GIVEN)); Matrix<Probe, double, PC> m; vc_bool(IsConvertible<__VA_ARGS__>()(m, t)); }
ASK(0, MZ) ASK(1, SF) ASK(2, MF) ASK(3, SD) ASK(4, MSS) ASK(5, MSD) ASK(6, MD)
// ---- what a stored matrix holds
static inline Threshold two(double sf, double sd) { ThresholdSettings s; s.significanceThresholdSinglePrecision = sf; s.significanceThresholdDoublePrecision = sd; return Threshold(s); }
static inline void see(MZ const& m) { vc_counts(m.getNbRows(), m.getNbColumns(), m.getSize(), 0); }
static inline void see(MD const& m) { out(m); }
static inline void see(MF const& m) { outf(m); }
static inline void see(SD const& m) { outs(m); }
static inline void see(SF const& m) { outsf(m); }
template <class X, class Y> static inline void see(MultipleMatrix<X, Y> const& m) { see(m.getMatrix1()); see(m.getMatrix2()); }
template <class X, class T, class P> static inline void store(Matrix<Dense, T, P> const& a, double sf, double sd)
{
    DynamicMatrix d(ConversionFunctor<Dense, T, P, X>()(a, two(sf, sd)));
    vc_int(d->getTypeIndex());
    see(static_cast<X const&>(*d));
}
#define STORE(N, X) \
    ENTRY vc_keep_##N(size_t r, size_t c, double* a, double sf, double sd) { MD A(r, c, a); store<X>(A, sf, sd); } \
    ENTRY vc_keepf_##N(size_t r, size_t c, float* a, double sf, double sd) { MF A(r, c, a); store<X>(A, sf, sd); } \
    ENTRY vc_keepr_##N(size_t r, size_t c, double* a, double sf, double sd) { MDR A(r, c, a); store<X>(A, sf, sd); } \
    ENTRY vc_keepv_##N(size_t R, size_t C, double* a, size_t r, size_t c, size_t br, size_t bc, double sf, double sd) { MD A(R, C, a); SubD S(A, r, c, br, bc); store<X>(S, sf, sd); }
LIMITS(STORE)
// the whole: choice and storing
ENTRY vc_convert(size_t R, size_t C, double* a, size_t r, size_t c, size_t br, size_t bc, Threshold const* t, bool whole)
{
    MD A(R, C, a); SubD S(A, r, c, br, bc);
    DynamicMatrix d(whole ? MatrixConverter()(A, *t) : MatrixConverter()(S, *t));
    vc_int(d->getTypeIndex());
#define SEE(N, X) if (d->getTypeIndex() == X::typeIndex_) see(static_cast<X const&>(*d));
    LIMITS(SEE)
}
