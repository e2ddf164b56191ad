// the choice of a matrix type, and what is stored in it
// flags: -fno-sanitize=null -DBLASBOOSTER_CORE_FAILURE_TO_EXCEPTION
#include "hooks.h"
static std::vector<Seen> g_sp; static std::vector<int> g_order;
static double g_any; static std::vector<std::pair<double, bool>> g_asked; static double g_occ[2], g_sf, g_sd; static std::vector<int> g_acts;
extern "C" bool vc_accept(double) { return true; }
#include "choice.cpp"
#include "algebra.h"
#include "keep.h"
extern "C" {
double vc_any() { switch (R(0, 5)) { case 0: return g_any = g_sf; case 1: return g_any = g_sd; case 2: return g_any = -(g_sf + g_sd) / 2; case 3: return g_any = g_sf * 2 + 1; case 4: return g_any = g_sd / 2; default: return g_any = double(R(-100, 100)) / 10; } }
double vc_occ(double x, bool acc) { bool d = std::abs(x) > g_sd, f = std::abs(x) > g_sf; if (d == f && acc != d) FAIL("a test that %s %g", acc ? "accepts" : "refuses", x); return d == f ? g_occ[0] : g_occ[acc == d ? 0 : 1]; }
long vc_act(int i) { g_acts.push_back(i); return 0; }
}
// ---- the choice itself: equal occupations keep the observation unambiguous
static void choice()
{
    double s[16]; CASE("choice");
    g_sd = s[1] = double(R(0, 20)) / 10; g_sf = s[0] = double(R(0, 20)) / 10; g_occ[0] = g_occ[1] = lim();
    for (int i = 2; i < 16; ++i) s[i] = lim();
    for (double x : s) ADD(" %g", x); ADD(" occupation %g", g_occ[0]);
    int want = -1; bool ok[7];
    for (int i = 6; i >= 0; --i) { int k = i == 3 ? 8 : i == 4 ? 10 : i == 5 ? 12 : i == 6 ? 14 : 2 + 2 * i; ok[i] = g_occ[0] <= s[k + 1] && g_occ[0] <= s[k]; if (ok[i]) want = i; }
    g_acts.clear(); bool err = false;
    try { vc_choose(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15]); } catch (std::exception const&) { err = true; }
    if (err != (want < 0)) FAIL("%s, expected type %d", err ? "error" : "no error", want);
    if (want >= 0 && (g_acts.size() != 1 || g_acts[0] != want)) FAIL("type %d, expected %d", g_acts.empty() ? -1 : g_acts[0], want);
#define PER(I) reset(); vc_permits_##I(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15]); if (g_bools.size() != 1 || g_bools[0] != ok[I]) FAIL("type %d is %spermitted", I, ok[I] ? "not " : "");
    PER(0) PER(1) PER(2) PER(3) PER(4) PER(5) PER(6)
}
static void content(const char* what, int t, size_t r, size_t c, std::function<double(size_t, size_t)> at, double sf, double sd)
{
    if (g_ints.size() != 1 || g_ints[0] != t) FAIL("%s: type number %ld, expected %d", what, g_ints.empty() ? -1L : g_ints[0], t);
    static const char kinds[7][3] = {"z", "s", "d", "s", "ss", "sd", "d"};
    size_t is_ = 0, id = 0;
    for (int k = 0; k < 2 && kinds[t][k]; ++k) {
        M w{r, c, D(r * c)};
        for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) { auto p = keeps(t, at(i, j), sf, sd, false); w.v[i + j * r] = k ? p.second : p.first; }
        if (kinds[t][k] == 'z') { if (g_counts.size() != 1 || g_counts[0][0] != r || g_counts[0][1] != c) FAIL("%s: shape of the zero matrix", what); }
        else if (kinds[t][k] == 's') { if (g_sp.size() <= is_) FAIL("%s: no sparse part", what); is(what, g_sp[is_++], w); }
        else { if (g_hist.size() <= id) FAIL("%s: no dense part", what); is(what, g_hist[id++], w); }
    }
}
static void again() { reset(); g_keep = true; std::vector<Seen>().swap(g_hist); std::vector<Seen>().swap(g_sp); std::vector<double>().swap(g_out); g_counts.reserve(4); g_ints.reserve(4); }
static void stored()
{
    size_t Rr = Z(6), Cc = Z(6), r = R(0, Rr), c = R(0, Cc), br = R(0, Rr - r), bc = R(0, Cc - c);
    double sd = double(R(0, 9)) / 10, sf = sd + double(R(1, 20)) / 10;
    CASE("%zu x %zu block %zu x %zu at %zu %zu thresholds %g %g", Rr, Cc, r, c, br, bc, sf, sd);
    Buf<double> a(Rr * Cc); Buf<float> f(Rr * Cc);
    for (size_t i = 0; i < a.n; ++i) a[i] = near(sf, sd), f[i] = float(near(sf, sd));
    a.keep(); f.keep(); show("a", a); show("f", f);
    Allocs al;
    int t = 0;
#define KEEP_(N, X) \
    again(); vc_keep_##N(Rr, Cc, a, sf, sd); content("matrix as " #N, t, Rr, Cc, [&](size_t i, size_t j) { return a[i + j * Rr]; }, sf, sd); \
    again(); vc_keepf_##N(Rr, Cc, f, sf, sd); content("float matrix as " #N, t, Rr, Cc, [&](size_t i, size_t j) { return f[i + j * Rr]; }, sf, sd); \
    again(); vc_keepr_##N(Rr, Cc, a, sf, sd); content("row-major matrix as " #N, t, Rr, Cc, [&](size_t i, size_t j) { return a[i * Cc + j]; }, sf, sd); \
    again(); vc_keepv_##N(Rr, Cc, a, r, c, br, bc, sf, sd); content("block as " #N, t, r, c, [&](size_t i, size_t j) { return a[br + i + (bc + j) * Rr]; }, sf, sd); ++t;
    LIMITS(KEEP_)
    a.same("matrix"); f.same("matrix"); again(); std::vector<long>().swap(g_ints); std::vector<std::array<size_t, 4>>().swap(g_counts); 
}
static void whole()
{
    size_t Rr = Z(6, 1), Cc = Z(6, 1), r = R(1, Rr), c = R(1, Cc), br = R(0, Rr - r), bc = R(0, Cc - c);
    bool all = R(0, 1);
    double sd = double(R(0, 9)) / 10, sf = sd + double(R(1, 20)) / 10, s[16];
    CASE("%s %zu x %zu block %zu x %zu at %zu %zu thresholds %g %g", all ? "whole" : "block", Rr, Cc, r, c, br, bc, sf, sd);
    Buf<double> a(Rr * Cc); int d = R(0, 9);
    for (size_t i = 0; i < a.n; ++i) a[i] = R(0, 9) < d ? near(sf, sd) : 0;
    a.keep(); show("a", a);
    for (int i = 2; i < 16; ++i) s[i] = lim(), ADD(" %g", s[i]);
    size_t h = all ? Rr : r, w = all ? Cc : c, x0 = all ? 0 : br, y0 = all ? 0 : bc, nf = 0, nd = 0;
    auto at = [&](size_t i, size_t j) { return a[x0 + i + (y0 + j) * Rr]; };
    for (size_t j = 0; j < w; ++j) for (size_t i = 0; i < h; ++i) nf += big(at(i, j), sf), nd += big(at(i, j), sd);
    double of = double(nf) / (h * w), od = double(nd) / (h * w); int want = -1;
    for (int i = 6; i >= 0; --i) if (od <= s[3 + 2 * i] && of <= s[2 + 2 * i]) want = i;
    Threshold T(settings(sf, sd, s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15]));
    again(); bool err = false;
    try { vc_convert(Rr, Cc, a, r, c, br, bc, &T, all); } catch (std::exception const&) { err = true; }
    if (err != (want < 0)) FAIL("%s, expected type %d", err ? "error" : "no error", want);
    if (want >= 0) content("result", want, h, w, at, sf, sd);
    a.same("matrix");
}
static void c17() { while (more()) { choice(); stored(); whole(); whole(); } }
int main(int c, char** v) { return drv_main(c, v, {{"C17", c17}}); }
