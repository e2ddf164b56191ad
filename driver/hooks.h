// what the entries under test report
#pragma once
#include <array>
#include "drv.h"
static bool g_got;
static std::vector<double> g_out; static size_t g_rows, g_cols, g_size;
static std::vector<double> g_reals; static std::vector<long> g_ints; static std::vector<bool> g_bools;
static std::vector<const void*> g_addrs; static std::vector<int> g_points; static std::vector<std::array<size_t, 4>> g_counts;
struct Seen { size_t r, c, s; std::vector<double> v; std::vector<size_t> k, o; };
static bool g_keep; static std::vector<Seen> g_hist;    // everything seen, if asked for
static void reset() { g_hist.clear(); g_addrs.clear(); g_points.clear(); g_counts.clear(); g_got = false; g_out.clear(); g_reals.clear(); g_ints.clear(); g_bools.clear(); }
template <class T> static void take(T const* p, size_t r, size_t c, size_t s)
{
    g_got = true; g_rows = r; g_cols = c; g_size = s;
    g_out.assign(r * c < 100000 ? r * c : 0, 0);
    if (r * c && !p) FAIL("result without memory");
    for (size_t i = 0; i < g_out.size(); ++i) g_out[i] = p[i];
    if (g_keep) g_hist.push_back({r, c, s, g_out, {}, {}});
}
extern "C" {
void vc_dense(const double* p, size_t r, size_t c, size_t s) { take(p, r, c, s); }
void vc_densef(const float* p, size_t r, size_t c, size_t s) { take(p, r, c, s); }
void vc_real(double x) { g_reals.push_back(x); }
void vc_int(long x) { g_ints.push_back(x); }
void vc_bool(bool x) { g_bools.push_back(x); }
void vc_addr(const void* p) { g_addrs.push_back(p); }
void vc_point(int x) { g_points.push_back(x); }
void vc_counts(size_t a, size_t b, size_t c, size_t d) { g_counts.push_back({a, b, c, d}); }
}
// result must be r x c with value(i,j) at pos(i,j)
template <class F> static void expect(size_t r, size_t c, bool rowmajor, F value, double tol = 0)
{
    if (!g_got) FAIL("no result");
    if (g_rows != r || g_cols != c) FAIL("shape %zu x %zu, expected %zu x %zu", g_rows, g_cols, r, c);
    if (g_size != r * c) FAIL("size %zu, expected %zu", g_size, r * c);
    for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) {
        double x = g_out[rowmajor ? i * c + j : i + j * r], y = value(i, j);
        if (!(std::fabs(x - y) <= tol) && !(x != x && y != y) && x != y) FAIL("element (%zu,%zu) is %.17g, expected %.17g", i, j, x, y);
    }
}
