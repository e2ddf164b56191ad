// deviations between two matrices
#include "common.h"
#include "BlasBooster/Core/StatisticalErrorInformation.h"
typedef Matrix<Dense, float, PR> MFR;
typedef Matrix<Dense, double, Parameter<size_t, RowMajor, VariableSize, LeadingDimension>> SubR;
#define DEV(NAME, S, T, A_, B_) \
    ENTRY vc_max_##NAME(size_t r, size_t c, S* a, T* b) { A_; B_; vc_real(getMaximalDeviation(A, B)); } \
    ENTRY vc_rms_##NAME(size_t r, size_t c, S* a, T* b) { A_; B_; vc_real(getRootMeanSquareDeviation(A, B)); }
DEV(dd, double, double, MD A(r, c, a), MD B(r, c, b))
DEV(df, double, float, MD A(r, c, a), MF B(r, c, b))
DEV(fd, float, double, MF A(r, c, a), MD B(r, c, b))
DEV(ff, float, float, MF A(r, c, a), MF B(r, c, b))
DEV(rr, double, double, MDR A(r, c, a), MDR B(r, c, b))
// different order of the elements
DEV(cr, double, double, MD A(r, c, a), MDR B(r, c, b))
DEV(rc, double, double, MDR A(r, c, a), MD B(r, c, b))
DEV(fr, float, double, MF A(r, c, a), MDR B(r, c, b))
// a block of a matrix
#define DEVV(NAME, P_, S_, D_, X, Y) \
    ENTRY vc_max_##NAME(size_t R, size_t C, double* a, size_t r, size_t c, size_t br, size_t bc, double* b) { P_ P(R, C, a); S_ S(P, r, c, br, bc); D_ D(r, c, b); vc_real(getMaximalDeviation(X, Y)); } \
    ENTRY vc_rms_##NAME(size_t R, size_t C, double* a, size_t r, size_t c, size_t br, size_t bc, double* b) { P_ P(R, C, a); S_ S(P, r, c, br, bc); D_ D(r, c, b); vc_real(getRootMeanSquareDeviation(X, Y)); }
DEVV(vd, MD, SubD, MD, S, D)
DEVV(dv, MD, SubD, MD, D, S)
DEVV(vr, MD, SubD, MDR, S, D)
DEVV(wr, MDR, SubR, MDR, S, D)
