// deviations between two matrices
#include "hooks.h"
#include "deviation.cpp"
static void c29()
{
    while (more()) {
        size_t r = Z(6, 1), c = Z(6, 1), R = r + ::R(0, 3), C = c + ::R(0, 3), br = ::R(0, R - r), bc = ::R(0, C - c);
        CASE("%zu x %zu, block at (%zu,%zu) of %zu x %zu", r, c, br, bc, R, C);
        // quarters: differences, squares and sums are exact in both precisions
        Buf<double> a(r * c), b(r * c), p(R * C); Buf<float> f(r * c), g(r * c);
        auto val = [] { return ::R(0, 3) ? double(::R(-40, 40)) / 4 : 0.0; };
        for (size_t i = 0; i < a.n; ++i) { a[i] = val(), b[i] = ::R(0, 2) ? val() : a[i]; f[i] = val(); g[i] = ::R(0, 2) ? val() : f[i]; }
        for (size_t i = 0; i < p.n; ++i) p[i] = val();
        a.keep(); b.keep(); p.keep(); f.keep(); g.keep(); show("a", a); show("b", b); show("f", f); show("g", g); show("parent", p);
        auto col = [&](auto& x) { return [&x, r](size_t i, size_t j) { return double(x[i + j * r]); }; };
        auto row = [&](auto& x) { return [&x, c](size_t i, size_t j) { return double(x[j + i * c]); }; };
        auto blk = [&](size_t i, size_t j) { return double(p[br + i + (bc + j) * R]); };
        auto rblk = [&](size_t i, size_t j) { return double(p[bc + j + (br + i) * C]); };
        auto both = [&](const char* what, auto x, auto y, auto max, auto rms) {
            double m = 0, s = 0; for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) { double d = x(i, j) - y(i, j); m = std::max(m, std::fabs(d)); s += d * d; }
            reset(); max(); rms();
            if (g_reals.size() != 2) FAIL("%s: no result", what);
            if (double(g_reals[0]) != m) FAIL("%s: largest deviation %g, not %g", what, double(g_reals[0]), m);
            double w = std::sqrt(s / (r * c)); if (std::fabs(double(g_reals[1]) - w) > 1e-12 * (1 + w)) FAIL("%s: mean deviation %.17g, not %.17g", what, double(g_reals[1]), w);
        };
#define BOTH(N, X, Y, P, Q) both(#N, X, Y, [&] { vc_max_##N(r, c, P, Q); }, [&] { vc_rms_##N(r, c, P, Q); })
#define BOTHV(N, X, Y) both(#N, X, Y, [&] { vc_max_##N(R, C, p, r, c, br, bc, b); }, [&] { vc_rms_##N(R, C, p, r, c, br, bc, b); })
        BOTH(dd, col(a), col(b), a, b); BOTH(df, col(a), col(f), a, f); BOTH(fd, col(f), col(a), f, a); BOTH(ff, col(f), col(g), f, g); BOTH(rr, row(a), row(b), a, b);
        BOTH(cr, col(a), row(b), a, b); BOTH(rc, row(a), col(b), a, b); BOTH(fr, col(f), row(b), f, b);
        BOTHV(vd, blk, col(b)); BOTHV(dv, col(b), blk); BOTHV(vr, blk, row(b)); BOTHV(wr, rblk, row(b));
        a.same("matrix"); b.same("matrix"); p.same("parent"); f.same("matrix"); g.same("matrix");
    }
}
int main(int c, char** v) { return drv_main(c, v, {{"C29", c29}}); }
