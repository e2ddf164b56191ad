// which type a block is stored as, and what that type keeps
#pragma once
static double lim() { return R(0, 3) ? double(R(0, 10)) / 10 : R(0, 1) ? 0.0 : 1.0; }
static bool big(double x, double t) { return std::abs(x) > t; }
// what type number t keeps of x: {first part, second part}
static std::pair<double, double> keeps(int t, double x, double sf, double sd, bool single)
{
    double hi = big(x, sf) ? x : 0, lo = big(x, sd) && !big(x, sf) ? double(float(x)) : 0;
    switch (t) { case 0: return {0, 0}; case 1: return {lo, 0}; case 2: return {double(float(x)), 0}; case 3: return {hi, 0}; case 4: case 5: return {hi, lo}; default: return {x, 0}; }
}
// values near the thresholds
static double near(double sf, double sd) { double x; switch (R(0, 9)) { case 0: x = sf; break; case 1: x = sd; break; case 2: x = std::nextafter(sf, 9); break; case 3: x = std::nextafter(sf, 0); break; case 4: x = std::nextafter(sd, 9); break; case 5: x = sd / 2; break; case 6: x = (sf + sd) / 2; break; case 7: x = 0; break; default: x = double(R(1, 99)) / 7; } return R(0, 1) ? x : -x; }
#include <boost/serialization/base_object.hpp>
#include <complex>
#include "BlasBooster/Core/DenseMatrix.h"
#include "BlasBooster/Core/Threshold.h"
// s: the two thresholds, then per type the limits above the single and above the double precision threshold
static BlasBooster::Threshold limits(double const* s)
{
    BlasBooster::ThresholdSettings t;
    t.significanceThresholdSinglePrecision = s[0]; t.significanceThresholdDoublePrecision = s[1];
    t.occupationThresholdMatrixZeroSinglePrecision = s[2]; t.occupationThresholdMatrixZeroDoublePrecision = s[3];
    t.occupationThresholdMatrixSparseFloatSinglePrecision = s[4]; t.occupationThresholdMatrixSparseFloatDoublePrecision = s[5];
    t.occupationThresholdMatrixDenseFloatSinglePrecision = s[6]; t.occupationThresholdMatrixDenseFloatDoublePrecision = s[7];
    t.occupationThresholdMatrixSparseDoubleSinglePrecision = s[8]; t.occupationThresholdMatrixSparseDoubleDoublePrecision = s[9];
    t.occupationThresholdMultipleMatrixSparseDoubleSparseFloatSinglePrecision = s[10]; t.occupationThresholdMultipleMatrixSparseDoubleSparseFloatDoublePrecision = s[11];
    t.occupationThresholdMultipleMatrixDenseFloatSparseDoubleSinglePrecision = s[12]; t.occupationThresholdMultipleMatrixDenseFloatSparseDoubleDoublePrecision = s[13];
    t.occupationThresholdMatrixDenseDoubleSinglePrecision = s[14]; t.occupationThresholdMatrixDenseDoubleDoublePrecision = s[15];
    return BlasBooster::Threshold(t);
}
static int choose(double const* s, size_t h, size_t w, std::function<double(size_t, size_t)> at)
{
    size_t nf = 0, nd = 0; int want = -1;
    for (size_t j = 0; j < w; ++j) for (size_t i = 0; i < h; ++i) nf += big(at(i, j), s[0]), nd += big(at(i, j), s[1]);
    double of = double(nf) / (h * w), od = double(nd) / (h * w);
    for (int i = 6; i >= 0; --i) if (od <= s[3 + 2 * i] && of <= s[2 + 2 * i]) want = i;
    return want;
}
