#include "hooks.h"
#include "limits.cpp"
static void mix(ThresholdSettings& s)
{
    double* f[] = {&s.significanceThresholdSinglePrecision, &s.significanceThresholdDoublePrecision,
        &s.occupationThresholdMatrixZeroSinglePrecision, &s.occupationThresholdMatrixZeroDoublePrecision,
        &s.occupationThresholdMatrixSparseFloatSinglePrecision, &s.occupationThresholdMatrixSparseFloatDoublePrecision,
        &s.occupationThresholdMatrixDenseFloatSinglePrecision, &s.occupationThresholdMatrixDenseFloatDoublePrecision,
        &s.occupationThresholdMatrixSparseDoubleSinglePrecision, &s.occupationThresholdMatrixSparseDoubleDoublePrecision,
        &s.occupationThresholdMultipleMatrixSparseDoubleSparseFloatSinglePrecision, &s.occupationThresholdMultipleMatrixSparseDoubleSparseFloatDoublePrecision,
        &s.occupationThresholdMultipleMatrixDenseFloatSparseDoubleSinglePrecision, &s.occupationThresholdMultipleMatrixDenseFloatSparseDoubleDoublePrecision,
        &s.occupationThresholdMatrixDenseDoubleSinglePrecision, &s.occupationThresholdMatrixDenseDoubleDoublePrecision};
    for (auto p : f) *p = double(R(0, 1000000)) / 1000;
    s.min_block_size = R(1, 100000); s.max_block_size = R(1, 100000);
    for (auto p : f) ADD(" %g", *p);
}
static void ask(const char* n, void (*f)(ThresholdSettings const*), void (*g)(ThresholdSettings const*, ThresholdSettings const*))
{
    CASE("%s", n);
    ThresholdSettings s, o; mix(s); mix(o);
    for (int k = 0; k < (g ? 2 : 1); ++k) {
        reset();
        if (k) g(&o, &s); else f(&s);
        std::vector<double> v(g_reals.begin(), g_reals.end()); v.insert(v.end(), g_ints.begin(), g_ints.end());
        if (v.size() != 2) FAIL("no answer");
        if (v[0] != v[1]) FAIL("limit %g, configured %g", v[0], v[1]);
    }
}
#define A(N) ask(#N, vc_lim_##N, vc_lim_assign_##N);
#define B(N) A(N##_f) A(N##_d)
static void c24() { while (more()) { B(sig) B(zero) B(sf) B(sd) B(df) B(dd) B(mss) B(msd) ask("min", vc_lim_min, nullptr); ask("max", vc_lim_max, nullptr); } }
int main(int c, char** v) { return drv_main(c, v, {{"C24", c24}}); }
