// products of blocked matrices
// flags: -fno-sanitize=null -DBLASBOOSTER_CORE_FAILURE_TO_EXCEPTION
#include "hooks.h"
#include "blockprod.cpp"
#include "keep.h"
typedef std::vector<double> D;
static std::vector<size_t> split(size_t n) { std::vector<size_t> v; while (n) { size_t k = R(1, R(0, 3) ? std::min<size_t>(n, 4) : n); v.push_back(k); n -= k; } return v; }
// what the blocks keep of the matrix
static bool kept(double const* s, size_t r, std::vector<size_t> const& rs, std::vector<size_t> const& cs, Buf<double>& a, D& w)
{
    size_t co = 0;
    for (size_t wd : cs) { size_t ro = 0; for (size_t h : rs) {
        auto at = [&](size_t p, size_t q) { return double(a[ro + p + (co + q) * r]); };
        int t = choose(s, h, wd, at); if (t < 0) return false;
        for (size_t q = 0; q < wd; ++q) for (size_t p = 0; p < h; ++p) { auto x = keeps(t, at(p, q), s[0], s[1], false); w[ro + p + (co + q) * r] = x.first + x.second; }
        ro += h; } co += wd; }
    return true;
}
static void c28()
{
    while (more()) {
        size_t r = Z(7, 1), k = Z(7, 1), c = Z(7, 1); auto rs = split(r), ks = split(k), cs = split(c); double s[16];
        s[1] = R(0, 3) + 0.5; s[0] = s[1] + R(1, 4); for (int i = 2; i < 14; ++i) s[i] = lim(); s[14] = s[15] = 1.0;
        CASE("%zu x %zu x %zu", r, k, c); ADD(" rows:"); for (size_t x : rs) ADD(" %zu", x); ADD(" inner:"); for (size_t x : ks) ADD(" %zu", x); ADD(" columns:"); for (size_t x : cs) ADD(" %zu", x); ADD(" limits"); for (double x : s) ADD(" %g", x);
        // whole numbers: every type and every order of summation is exact
        Buf<double> a(r * k), b(k * c); for (size_t i = 0; i < a.n; ++i) a[i] = R(0, 2) ? R(-9, 9) : 0; for (size_t i = 0; i < b.n; ++i) b[i] = R(0, 2) ? R(-9, 9) : 0;
        a.keep(); b.keep(); show("a", a); show("b", b);
        D x(r * k), y(k * c); if (!kept(s, r, rs, ks, a, x) || !kept(s, k, ks, cs, b, y)) FAIL("no type");
        auto mul = [](size_t r, size_t k, size_t c, D const& x, D const& y) { D z(r * c); for (size_t j = 0; j < c; ++j) for (size_t l = 0; l < k; ++l) for (size_t i = 0; i < r; ++i) z[i + j * r] += x[i + l * r] * y[l + j * k]; return z; };
        D z = mul(r, k, c, x, y);
        Threshold T(limits(s)); reset(); g_keep = true;
        vc_real_product(r, k, c, a, b, rs.data(), rs.size(), ks.data(), ks.size(), cs.data(), cs.size(), &T);
        size_t w[5][4] = {{rs.size(), cs.size(), r, c}, {rs.size(), ks.size(), r, k}, {ks.size(), cs.size(), k, c}, {rs.size(), cs.size(), r, c}, {rs.size(), cs.size(), r, c}};
        D const* v[5] = {&z, &x, &y, &z, &z}; const char* nm[5] = {"product", "first factor", "second factor", "product in a used matrix", "product assigned to a factor"};
        if (g_counts.size() != 5 || g_hist.size() != 5) FAIL("%zu results", g_hist.size());
        for (int n = 0; n < 5; ++n) {
            for (int q = 0; q < 4; ++q) if (g_counts[n][q] != w[n][q]) FAIL("%s: shape", nm[n]);
            if (g_hist[n].r != w[n][2] || g_hist[n].c != w[n][3]) FAIL("%s: shape of the whole", nm[n]);
            for (size_t i = 0; i < v[n]->size(); ++i) if (double(g_hist[n].v[i]) != (*v[n])[i]) FAIL("%s: element %zu is %g, not %g", nm[n], i, double(g_hist[n].v[i]), (*v[n])[i]);
        }
        a.same("matrix"); b.same("matrix");
    }
}
static void c30()
{
    while (more()) {
        size_t r = Z(9, 1), c = Z(9, 1); auto rs = split(r), cs = split(c); double s[16];
        s[1] = R(0, 3) + 0.5; s[0] = s[1] + R(1, 4); for (int i = 2; i < 14; ++i) s[i] = lim(); s[14] = s[15] = 1.0;
        CASE("%zu x %zu", r, c); ADD(" rows:"); for (size_t x : rs) ADD(" %zu", x); ADD(" columns:"); for (size_t x : cs) ADD(" %zu", x); ADD(" limits"); for (double x : s) ADD(" %g", x);
        Buf<double> a(r * c); for (size_t i = 0; i < a.n; ++i) { int d = (i % r) * 3 / r + (i / r) * 3 / c; a[i] = R(0, 4) < d ? R(-9, 9) : 0; }
        a.keep(); show("a", a);
        std::vector<long> want, count(7); D norms; std::vector<long> dims;
        size_t co = 0;
        for (size_t wd : cs) { size_t ro = 0; for (size_t h : rs) {
            auto at = [&](size_t p, size_t q) { return double(a[ro + p + (co + q) * r]); };
            int t = choose(s, h, wd, at); want.push_back(t); ++count[t]; dims.push_back(h); dims.push_back(wd);
            double n = 0; for (size_t q = 0; q < wd; ++q) for (size_t p = 0; p < h; ++p) { auto x = keeps(t, at(p, q), s[0], s[1], false); n += (x.first + x.second) * (x.first + x.second); }
            norms.push_back(std::sqrt(n));
            ro += h; } co += wd; }
        want.insert(want.end(), dims.begin(), dims.end()); want.insert(want.end(), count.begin(), count.end());
        // composite blocks have no norm
        bool norm = !count[4] && !count[5];
        Threshold T(limits(s)); reset(); vc_scribble();
        vc_real_info(r, c, a, rs.data(), rs.size(), cs.data(), cs.size(), &T, norm);
        for (auto& x : g_counts) if (x[0] != rs.size() || x[1] != cs.size() || x[2] != rs.size() * cs.size()) FAIL("shape");
        size_t n = rs.size() * cs.size();
        for (size_t i = 0; i < want.size(); ++i) if (i >= g_ints.size() || g_ints[i] != want[i]) FAIL("%s %zu is %ld, not %ld", i < n ? "type of block" : i < 3 * n ? "dimension" : "number of blocks of type", i < n ? i : i < 3 * n ? i - n : i - 3 * n, i < g_ints.size() ? long(g_ints[i]) : -1L, want[i]);
        if (norm && (g_rows != rs.size() || g_cols != cs.size())) FAIL("shape of the norms");
        for (size_t i = 0; norm && i < n; ++i) if (std::fabs(double(g_out[i]) - norms[i]) > 1e-6 * (1 + norms[i])) FAIL("norm of block %zu is %.12g, not %.12g", i, double(g_out[i]), norms[i]);
        a.same("matrix");
    }
}
int main(int c, char** v) { return drv_main(c, v, {{"C28", c28}, {"C30", c30}}); }
