// block sizes, splitting and reassembling
// flags: -fno-sanitize=null -DBLASBOOSTER_CORE_FAILURE_TO_EXCEPTION
#include "hooks.h"
#include "block.cpp"
#define FAIL FAIL_
static void FAIL_(const char* f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); printf("FAIL %s\n", b); drv_die(); _exit(2); }
#include "keep.h"
typedef std::vector<long> L; typedef std::vector<double> D;
static void part(const char* what, L const& v, size_t n, size_t lo)
{
    long s = 0; std::string t; for (long x : v) { s += x; t += std::to_string(x) + " "; }
    for (long x : v) { if (x <= 0) FAIL("%s: block of length %ld in %s", what, x, t.c_str()); if (n >= lo && size_t(x) < lo) FAIL("%s: block of length %ld below the minimum %zu: %s", what, x, lo, t.c_str()); }
    if (size_t(s) != n) FAIL("%s: blocks %ssum to %ld, not %zu", what, t.c_str(), s, n);
}
static void c18()
{
    while (more()) {
        size_t lo = R(0, 5), hi = 2 * lo + R(lo ? 0 : 1, 4), n = R(0, 5) ? R(0, 12) : R(0, 80);
        Buf<double> d(n); Buf<float> f(n); long k = R(0, 4); for (size_t i = 0; i < n; ++i) d[i] = f[i] = R(0, k); d.keep(); f.keep();
        CASE("minimum %zu maximum %zu", lo, hi); show("detect", d);
        reset(); vc_sizes(d, n, lo, hi); part("sizes", g_ints, n + 1, lo); L a = g_ints;
        reset(); vc_sizes_f(f, n, lo, hi); part("sizes of float", g_ints, n + 1, lo);
        d.same("detection array"); f.same("detection array");
        size_t r = R(0, 3) ? R(1, 9) : R(1, 40), c = R(0, 3) ? R(1, 9) : R(1, 40), m = R(1, 12);
        Buf<double> x(r * c), y(c * m); Buf<float> z(r * c);
        for (size_t i = 0; i < r * c; ++i) x[i] = z[i] = R(0, 2) ? std::ldexp(1.0, R(0, 1) ? R(-k, k) : (i % r < r / 2 ? 5 : 1)) : 0;
        for (size_t i = 0; i < y.n; ++i) y[i] = R(0, 2) ? std::ldexp(1.0, R(-k, k)) : 0;
        x.keep(); z.keep(); y.keep();
        CASE("%zu x %zu x %zu minimum %zu maximum %zu", r, c, m, lo, hi); show("a", x); show("b", y);
        auto cut = [&](size_t parts, std::vector<size_t> dims, const char* what, bool whole) {
            if (g_points.size() != parts) FAIL("%s: %zu dimensions", what, g_points.size());
            // the sizes come one dimension after the other
            size_t at = 0;
            for (size_t p = 0; p < parts; ++p) {
                L v; size_t s = 0; while (at < g_ints.size() && s < dims[p]) v.push_back(g_ints[at]), s += g_ints[at], ++at;
                part(what, v, dims[p], lo);
                if (whole && v.size() != 1) FAIL("%s: a small matrix in %zu blocks", what, v.size());
            }
            if (at != g_ints.size()) FAIL("%s: too many blocks", what);
        };
        reset(); vc_sizes_of(r, c, x, lo, hi); cut(2, {r, c}, "matrix", r <= hi && c <= hi);
        reset(); vc_sizes_off(r, c, z, lo, hi); cut(2, {r, c}, "float matrix", r <= hi && c <= hi);
        reset(); vc_sizes_mult(r, c, m, x, y, lo, hi); cut(3, {r, c, m}, "product", false);
        x.same("matrix"); y.same("matrix"); z.same("matrix");
        if (lo) { bool err = false; try { vc_sizes(d, n, lo, 2 * lo - 1); } catch (std::exception const&) { err = true; } if (!err) FAIL("a maximum below twice the minimum is accepted"); }
    }
}
static std::vector<size_t> split(size_t n) { std::vector<size_t> v; while (n) { size_t k = R(1, R(0, 3) ? std::min<size_t>(n, 4) : n); v.push_back(k); n -= k; } return v; }
template <class T> static void back(const char* what, size_t r, size_t c, Buf<T>& a, double const* s, size_t nr, size_t nc, bool err)
{
    // the blocks seen, then the whole
    if (err) return;
    size_t k = 1, ro = 0, co = 0; D w(r * c);
    if (g_counts.empty() || g_counts[0][0] != nr || g_counts[0][1] != nc || g_counts[0][2] != r || g_counts[0][3] != c) FAIL("%s: shape of the blocked matrix", what);
    if (g_counts.size() != 1 + nr * nc) FAIL("%s: %zu blocks", what, g_counts.size() - 1);
    std::vector<size_t> hs, ws; for (size_t i = 0; i < nr; ++i) hs.push_back(g_counts[1 + i][2]); for (size_t j = 0; j < nc; ++j) ws.push_back(g_counts[1 + j * nr][3]);
    for (size_t j = 0; j < nc; ++j, co += ws[j - 1], ro = 0) for (size_t i = 0; i < nr; ++i, ++k, ro += hs[i - 1]) {
        if (g_counts[k][2] != hs[i] || g_counts[k][3] != ws[j]) FAIL("%s: block (%zu,%zu) is %zu x %zu", what, i, j, g_counts[k][2], g_counts[k][3]);
        auto at = [&](size_t p, size_t q) { return double(a[ro + p + (co + q) * r]); };
        int t = choose(s, hs[i], ws[j], at);
        if (g_ints[k - 1] != t) FAIL("%s: block (%zu,%zu) of type %ld, expected %d", what, i, j, g_ints[k - 1], t);
        for (size_t q = 0; q < ws[j]; ++q) for (size_t p = 0; p < hs[i]; ++p) { auto x = keeps(t, at(p, q), s[0], s[1], false); w[ro + p + (co + q) * r] = T(x.first + x.second); }
    }
    expect(r, c, false, [&](size_t i, size_t j) { return w[i + j * r]; });
}
static void c19()
{
    while (more()) {
        size_t r = Z(9, 1), c = Z(9, 1); std::vector<size_t> rs = split(r), cs = split(c); double s[16];
        s[1] = double(R(0, 9)) / 10; s[0] = s[1] + double(R(1, 20)) / 10; for (int i = 2; i < 14; ++i) s[i] = lim();
        bool some = R(0, 9); s[14] = s[15] = some ? 1.0 : 0.5;
        CASE("%zu x %zu", r, c); ADD(" rows:"); for (size_t x : rs) ADD(" %zu", x); ADD(" columns:"); for (size_t x : cs) ADD(" %zu", x); ADD(" limits"); for (double x : s) ADD(" %g", x);
        Buf<double> a(r * c); Buf<float> f(r * c);
        for (size_t i = 0; i < a.n; ++i) { int d = (i % r) * 3 / r + (i / r) * 3 / c; a[i] = R(0, 4) < d ? near(s[0], s[1]) : 0; f[i] = R(0, 4) < d ? float(near(s[0], s[1])) : 0; }
        a.keep(); f.keep(); show("a", a); show("f", f);
        Threshold T(limits(s));
        auto fails = [&](auto& b, std::vector<size_t> const& rs, std::vector<size_t> const& cs) { size_t co = 0; for (size_t w : cs) { size_t ro = 0; for (size_t h : rs) { if (choose(s, h, w, [&](size_t p, size_t q) { return double(b[ro + p + (co + q) * r]); }) < 0) return true; ro += h; } co += w; } return false; };
        auto run = [&](const char* what, auto& b, std::vector<size_t> const& rs, std::vector<size_t> const& cs, auto f) {
            reset(); bool err = false; try { f(); } catch (std::exception const&) { err = true; }
            if (err != fails(b, rs, cs)) FAIL("%s: %s", what, err ? "error" : "no error");
            back(what, r, c, b, s, rs.size(), cs.size(), err);
        };
        run("split", a, rs, cs, [&] { vc_split(r, c, a, rs.data(), rs.size(), cs.data(), cs.size(), &T); });
        run("split of float", f, rs, cs, [&] { vc_split_f(r, c, f, rs.data(), rs.size(), cs.data(), cs.size(), &T); });
        size_t lo = R(0, 3), hi = 2 * lo + R(1, 3);
        if (some) { reset(); vc_auto(r, c, a, lo, hi, &T); if (!g_counts.empty()) back("automatic", r, c, a, s, g_counts[0][0], g_counts[0][1], false); }
        a.same("matrix"); f.same("matrix");
        size_t r1 = Z(5, 1), r2 = Z(5, 1), c1 = Z(5, 1), c2 = Z(5, 1);
        CASE("%zu+%zu x %zu+%zu", r1, r2, c1, c2);
        Buf<double> A(r1 * c1), B(r1 * c2), C(r2 * c1), E(r2 * c2); fill(A); fill(B); fill(C); fill(E); show("a", A); show("b", B); show("c", C); show("d", E);
        reset(); vc_assemble(r1, r2, c1, c2, A, B, C, E);
        expect(r1 + r2, c1 + c2, false, [&](size_t i, size_t j) { return i < r1 ? j < c1 ? A[i + j * r1] : B[i + (j - c1) * r1] : j < c1 ? C[i - r1 + j * r2] : E[i - r1 + (j - c1) * r2]; });
        A.same("block"); B.same("block"); C.same("block"); E.same("block");
    }
}
int main(int c, char** v) { return drv_main(c, v, {{"C18", c18}, {"C19", c19}}); }
