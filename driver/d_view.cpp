// sub-matrix views: positions and traversal
#include "hooks.h"
#include "view.cpp"
static void c02()
{
    while (more()) {
        size_t Rr = Z(6), C = Z(6), r = R(0, Rr), c = R(0, C), br = R(0, Rr - r), bc = R(0, C - c);
        size_t r2 = R(0, r), c2 = R(0, c), br2 = R(0, r - r2), bc2 = R(0, c - c2);
        CASE("view %zu x %zu at %zu,%zu of %zu x %zu; view %zu x %zu at %zu,%zu in it", r, c, br, bc, Rr, C, r2, c2, br2, bc2);
        Buf<double> a(Rr * C); fill(a); Buf<float> f(Rr * C); fill(f);
        auto seq = [&](const char* nm, bool row, size_t m, size_t n, size_t x, size_t y, bool back) {
            if (g_addrs.size() != m * n) FAIL("%s: %zu elements visited", nm, g_addrs.size());
            size_t p = 0;
            for (size_t l = 0; l < (row ? m : n); ++l) for (size_t k = 0; k < (row ? n : m); ++k, ++p) {
                size_t i = x + (row ? l : k), j = y + (row ? k : l), q = back ? m * n - 1 - p : p;
                if (g_addrs[q] != a.p + (row ? i * C + j : i + j * Rr)) FAIL("%s: visit %zu is at %ld", nm, q, long((double*)g_addrs[q] - a.p));
            }
            reset();
        };
        reset();
        vc_walk(Rr, C, a, r, c, br, bc); seq("forward", 0, r, c, br, bc, 0);
        vc_walk_const(Rr, C, a, r, c, br, bc); seq("forward const", 0, r, c, br, bc, 0);
        vc_walk_nested(Rr, C, a, r, c, br, bc, r2, c2, br2, bc2); seq("nested", 0, r2, c2, br + br2, bc + bc2, 0);
        vc_walk_row(Rr, C, a, r, c, br, bc); seq("row-major", 1, r, c, br, bc, 0);
        vc_walk_back(Rr, C, a, r, c, br, bc); seq("backward", 0, r, c, br, bc, 1);
        vc_walk_back_const(Rr, C, a, r, c, br, bc); seq("backward const", 0, r, c, br, bc, 1);
        if (r * c) { vc_walk_reverse(Rr, C, a, r, c, br, bc); seq("reverse", 0, r, c, br, bc, 1); }
        auto pos = [&](size_t p) { return a.p + br + p % r + (bc + p / r) * Rr; };
        size_t n = R(0, r * c), b = R(0, n);
        ADD(" steps %zu forward %zu back", n, b);
        vc_walk_mixed(Rr, C, a, r, c, br, bc, n, b);
        for (bool x : g_bools) if (!x) FAIL("a step and its undoing");
        size_t k = 0;
        if (n < r * c && (g_addrs.size() <= k || g_addrs[k++] != pos(n))) FAIL("after %zu steps", n);
        if (n - b < r * c && (g_addrs.size() <= k || g_addrs[k++] != pos(n - b))) FAIL("after %zu steps and %zu back", n, b);
        auto in = [&](size_t i, size_t j) { return i >= br && i < br + r && j >= bc && j < bc + c; };
        auto ea = [&](size_t i, size_t j) { return a.copy[i + j * Rr]; };
        for (int w = 0; w < 2; ++w) {
            Buf<double> t(a.copy); reset();
            (w ? vc_walk_assign : vc_walk_write)(Rr, C, t, r, c, br, bc, 55);
            expect(Rr, C, 0, [&](size_t i, size_t j) { return in(i, j) ? 55 : ea(i, j); });
        }
        double s = 0, sf = 0; for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) s += ea(br + i, bc + j), sf += f.copy[br + i + (bc + j) * Rr];
        reset(); vc_walk_read(Rr, C, a, r, c, br, bc); if (g_reals.size() != 1 || g_reals[0] != s) FAIL("elements read");
        reset(); vc_walk_readf(Rr, C, f, r, c, br, bc); if (g_reals.size() != 1 || g_reals[0] != sf) FAIL("elements read float");
        reset(); vc_row_conv(Rr, C, a, r, c, br, bc); expect(r, c, 1, [&](size_t i, size_t j) { return a.copy[(br + i) * C + bc + j]; });
        reset(); vc_view_counts(Rr, C, a, r, c, br, bc); if (g_counts[0] != std::array<size_t, 4>{r, c, r * c, r * c}) FAIL("shape of the view");
        if (r && c) {
            size_t i = R(0, r - 1), j = R(0, c - 1); const void* p = a.p + (br + i) * C + bc + j;
            reset(); vc_row_at(Rr, C, a, r, c, br, bc, i, j); vc_row_at_const(Rr, C, a, r, c, br, bc, i, j);
            if (g_addrs[0] != p || g_addrs[1] != p) FAIL("row-major element (%zu,%zu)", i, j);
            if (r2 && c2) { i = R(0, r2 - 1), j = R(0, c2 - 1); reset(); vc_row_at_nested(Rr, C, a, r, c, br, bc, r2, c2, br2, bc2, i, j); if (g_addrs[0] != a.p + (br + br2 + i) * C + bc + bc2 + j) FAIL("nested row-major element"); }
        }
        a.same("parent"); f.same("parent");
    }
}
static void c01()
{
    while (more()) {
        size_t Rr = R(1, 7), C = R(1, 7), r = R(1, Rr), c = R(1, C), br = R(0, Rr - r), bc = R(0, C - c);
        size_t r2 = R(1, r), c2 = R(1, c), br2 = R(0, r - r2), bc2 = R(0, c - c2), i = R(0, r - 1), j = R(0, c - 1);
        Buf<double> a(Rr * C); Buf<float> f(Rr * C); fill(a); fill(f);
        CASE("view R=%zu C=%zu %zu x %zu at %zu,%zu of it %zu x %zu at %zu,%zu element %zu,%zu", Rr, C, r, c, br, bc, r2, c2, br2, bc2, i, j);
        const void *p = a.p + (br + i) * C + bc + j, *pf = f.p + (br + i) * C + bc + j;
        reset(); vc_row_at(Rr, C, a, r, c, br, bc, i, j); vc_row_at_const(Rr, C, a, r, c, br, bc, i, j); vc_row_atf(Rr, C, f, r, c, br, bc, i, j);
        if (g_addrs[0] != p || g_addrs[1] != p || g_addrs[2] != pf) FAIL("row-major element");
        size_t i2 = R(0, r2 - 1), j2 = R(0, c2 - 1);
        reset(); vc_row_at_nested(Rr, C, a, r, c, br, bc, r2, c2, br2, bc2, i2, j2); if (g_addrs[0] != a.p + (br + br2 + i2) * C + bc + bc2 + j2) FAIL("nested row-major element");
        reset(); vc_row_ld(Rr, C, a, r, c, br, bc); vc_nested_ld(Rr, C, a, r, c, br, bc, r2, c2, br2, bc2);
        for (auto& x : g_counts) if (x != std::array<size_t, 4>{Rr, C, Rr, C}) FAIL("leading dimensions");
        a.same("parent"); f.same("parent");
        for (int w = 0; w < 3; ++w) {
            Buf<double> t(a.copy); reset();
            if (w == 0) vc_view_set(Rr, C, t, r, c, br, bc, i, j, 77); else if (w == 1) vc_row_set(Rr, C, t, br + i, bc + j, 77); else vc_row_view_set(Rr, C, t, r, c, br, bc, i, j, 77);
            expect(Rr, C, w != 0, [&](size_t x, size_t y) { return x == br + i && y == bc + j ? 77 : a.copy[w ? x * C + y : x + y * Rr]; });
        }
    }
}
int main(int argc, char** argv) { return drv_main(argc, argv, {{"C02", c02}, {"C01", c01}}); }
