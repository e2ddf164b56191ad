// range tests: acceptance, rejection of bad bounds, order
#include "hookdecl.h"
#include <cassert>
#include <tuple>
#include "BlasBooster/Core/AbsoluteValueRangeChecker.h"
using namespace BlasBooster;
typedef AbsoluteValueRangeChecker<double, ExclusiveBound, NoBound> EN;
typedef AbsoluteValueRangeChecker<double, ExclusiveBound, InclusiveBound> EI;
typedef AbsoluteValueRangeChecker<double, InclusiveBound, InclusiveBound> II;
typedef AbsoluteValueRangeChecker<double, ExclusiveBound, ExclusiveBound> EE;
typedef AbsoluteValueRangeChecker<float, ExclusiveBound, NoBound> ENf;
typedef AbsoluteValueRangeChecker<float, ExclusiveBound, InclusiveBound> EIf;
typedef AbsoluteValueRangeChecker<float, InclusiveBound, InclusiveBound> IIf;
typedef AbsoluteValueRangeChecker<float, ExclusiveBound, ExclusiveBound> EEf;

#define ONE(N, K, B) \
    ENTRY vc_rt_##N##_d(B lo, double x) { K c(lo); vc_bool(c(x)); } \
    ENTRY vc_rt_##N##_f(B lo, float x) { K c(lo); vc_bool(c(x)); }
#define TWO(N, K, B) \
    ENTRY vc_rt_##N##_d(B lo, B hi, double x) { K c(lo, hi); vc_bool(c(x)); } \
    ENTRY vc_rt_##N##_f(B lo, B hi, float x) { K c(lo, hi); vc_bool(c(x)); }
ONE(en, EN, double) TWO(ei, EI, double) TWO(ii, II, double) TWO(ee, EE, double)
ONE(enf, ENf, float) TWO(eif, EIf, float) TWO(iif, IIf, float) TWO(eef, EEf, float)
ENTRY vc_rt_default(double x) { EN c; vc_bool(c(x)); }
ENTRY vc_rt_copy(double lo, double hi, double l2, double h2, double x) { II c(lo, hi); II d(l2, h2); d = c; II e(d); vc_bool(e(x)); }

// order, through the interface the containers use (all bounds valid)
#define LESS(N1, K1, B1, N2, K2, B2) ENTRY vc_less_##N1##_##N2(double a, double b, double c, double d) { K1 x B1(a, b); K2 y B2(c, d); ValueCheckerBase const& p = x; vc_counts(x.getID(), y.getID(), 0, 0); vc_bool(p < y); }
#define B_ONE(a, b) (a)
#define B_TWO(a, b) (a, b)
#define LESSES(N1, K1, B1) LESS(N1, K1, B1, en, EN, B_ONE) LESS(N1, K1, B1, ei, EI, B_TWO) LESS(N1, K1, B1, ii, II, B_TWO) LESS(N1, K1, B1, ee, EE, B_TWO)
LESSES(en, EN, B_ONE) LESSES(ei, EI, B_TWO) LESSES(ii, II, B_TWO) LESSES(ee, EE, B_TWO)
ENTRY vc_less_ptr(double a, double b, double c, double d)
{
    EI x(a, b), y(c, d);
    std::shared_ptr<ValueCheckerBase> p(std::shared_ptr<void>(), &x), q(std::shared_ptr<void>(), &y);
    vc_counts(x.getID(), y.getID(), 0, 0);
    vc_bool(ValueCheckerLess()(p, q));
}
ENTRY vc_kind_ids() { EN a; vc_counts(a.getID(), EI(1, 2).getID(), II(1, 2).getID(), EE(1, 2).getID()); }
