// configured limits: what is asked for, and the setting of that name
#include "hookdecl.h"
#include <cassert>
#include <complex>
#include <limits>
#include "BlasBooster/Core/Threshold.h"
using namespace BlasBooster;
typedef MultipleMatrix<Matrix<Sparse,double>, Matrix<Sparse,float>> MSS;
typedef MultipleMatrix<Matrix<Sparse,double>, Matrix<Dense,float>> MSD;
#define LIM(N, GET, FIELD) \
    ENTRY vc_lim_##N(ThresholdSettings const* s) { Threshold t(*s); vc_real(GET(t)); vc_real(s->FIELD); } \
    ENTRY vc_lim_assign_##N(ThresholdSettings const* o, ThresholdSettings const* s) { Threshold u(*s), t(*o); t = u; t = static_cast<Threshold const&>(t); Threshold v(t); vc_real(GET(v)); vc_real(s->FIELD); }
template <class M> struct F { static double get(Threshold const& t) { return t.getOccupationThreshold<M, float>(); } };
template <class M> struct D { static double get(Threshold const& t) { return t.getOccupationThreshold<M, double>(); } };
#define OCC(N, M, FIELD) LIM(N##_f, F<M>::get, occupationThreshold##FIELD##SinglePrecision) LIM(N##_d, D<M>::get, occupationThreshold##FIELD##DoublePrecision)
typedef Matrix<Sparse,float> SF; typedef Matrix<Sparse,double> SD; typedef Matrix<Dense,float> DF; typedef Matrix<Dense,double> DD;
static double sigf(Threshold const& t) { return t.getSignificanceThreshold<float>(); }
static double sigd(Threshold const& t) { return t.getSignificanceThreshold<double>(); }
LIM(sig_f, sigf, significanceThresholdSinglePrecision)
LIM(sig_d, sigd, significanceThresholdDoublePrecision)
OCC(zero, Matrix<Zero>, MatrixZero)
OCC(sf, SF, MatrixSparseFloat)
OCC(sd, SD, MatrixSparseDouble)
OCC(df, DF, MatrixDenseFloat)
OCC(dd, DD, MatrixDenseDouble)
OCC(mss, MSS, MultipleMatrixSparseDoubleSparseFloat)
OCC(msd, MSD, MultipleMatrixDenseFloatSparseDouble)
ENTRY vc_lim_min(ThresholdSettings const* s) { Threshold t(*s); vc_int(t.get_min_block_size()); vc_int(s->min_block_size); }
ENTRY vc_lim_max(ThresholdSettings const* s) { Threshold t(*s); vc_int(t.get_max_block_size()); vc_int(s->max_block_size); }
