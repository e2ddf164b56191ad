#include "hooks.h"
#include "dense.cpp"

struct Win { size_t R, C, r, c, br, bc; };
static Win window(int mx, bool nonempty)
{
    Win w; size_t lo = nonempty ? 1 : 0;
    w.R = Z(mx, lo), w.C = Z(mx, lo), w.r = R(lo, w.R), w.c = R(lo, w.C), w.br = R(0, w.R - w.r), w.bc = R(0, w.C - w.c);
    return w;
}
template <class F> static void balanced(F f)
{
    reset(); g_out = {}; g_out.shrink_to_fit(); g_counts.reserve(8); g_addrs.reserve(8);
    Allocs al; f();
    al.at += g_out.capacity() * sizeof(double);
    al.same();
}

static void c01()
{
    while (more()) {
        Win w = window(7, true);
        Buf<double> a(w.R * w.C); Buf<float> b(w.R * w.C); fill(a); fill(b);
        CASE("address R=%zu C=%zu view %zu x %zu at %zu,%zu", w.R, w.C, w.r, w.c, w.br, w.bc);
        auto chk = [&](const void* base, size_t es, size_t pos, const char* what) {
            if (g_addrs.size() != 1 || g_addrs[0] != (const char*)base + es * pos) FAIL("%s: wrong cell (%ld instead of %zu)", what, g_addrs.empty() ? -1L : long(((const char*)g_addrs[0] - (const char*)base) / long(es)), pos);
            g_addrs.clear(); };
        for (size_t i = 0; i < w.R; ++i) for (size_t j = 0; j < w.C; ++j) {
            reset();
            vc_at_col(w.R, w.C, a, i, j); chk(a.p, 8, i + j * w.R, "column-major");
            vc_at_col_const(w.R, w.C, a, i, j); chk(a.p, 8, i + j * w.R, "column-major const");
            vc_at_colf(w.R, w.C, b, i, j); chk(b.p, 4, i + j * w.R, "column-major float");
            vc_at_row(w.R, w.C, a, i, j); chk(a.p, 8, i * w.C + j, "row-major");
            vc_at_row_const(w.R, w.C, a, i, j); chk(a.p, 8, i * w.C + j, "row-major const");
        }
        reset();
        vc_ld(w.R, w.C, a, w.r, w.c, w.br, w.bc);
        if (g_counts.size() != 1 || g_counts[0] != std::array<size_t, 4>{w.R, w.C, w.R, w.C}) FAIL("leading dimensions");
        size_t r2 = R(1, w.r), c2 = R(1, w.c), br2 = R(0, w.r - r2), bc2 = R(0, w.c - c2);
        ADD(" view of view %zu x %zu at %zu,%zu", r2, c2, br2, bc2);
        for (size_t i = 0; i < w.r; ++i) for (size_t j = 0; j < w.c; ++j) {
            size_t pos = w.br + i + (w.bc + j) * w.R;
            reset();
            vc_at_view(w.R, w.C, a, w.r, w.c, w.br, w.bc, i, j); chk(a.p, 8, pos, "view");
            vc_at_view_const(w.R, w.C, a, w.r, w.c, w.br, w.bc, i, j); chk(a.p, 8, pos, "view const");
            vc_at_viewf(w.R, w.C, b, w.r, w.c, w.br, w.bc, i, j); chk(b.p, 4, pos, "view float");
            if (i < r2 && j < c2) {
                vc_at_view_of_view(w.R, w.C, a, w.r, w.c, w.br, w.bc, r2, c2, br2, bc2, i, j);
                chk(a.p, 8, w.br + br2 + i + (w.bc + bc2 + j) * w.R, "view of view");
            }
        }
        a.same("matrix"); b.same("matrix");
        size_t pi = R(0, w.R - 1), pj = R(0, w.C - 1);
        reset();
        vc_set(w.R, w.C, a, pi, pj, 77);
        expect(w.R, w.C, false, [&](size_t i, size_t j) { return i == pi && j == pj ? 77 : a.copy[i + j * w.R]; });
    }
}

// entry(m, n, A, B) with element-wise result
template <class TA, class TB> struct E2 { const char* nm; void (*f)(size_t, size_t, TA*, TB*); int sign; bool row, inplace; };
template <class TA, class TB> static void elementwise(E2<TA, TB> const& e, size_t m, size_t n)
{
    Buf<TA> a(m * n); Buf<TB> b(m * n); fill(a); fill(b);
    CASE("%s m=%zu n=%zu", e.nm, m, n); show("A", a); show("B", b);
    balanced([&] { e.f(m, n, a, b); });
    if (!e.inplace) a.same("A");
    b.same("B");
    expect(m, n, e.row, [&](size_t i, size_t j) { size_t p = e.row ? i * n + j : i + j * m; return double(a.copy.data()[p]) + e.sign * double(b[p]); });
}
static void c09()
{
    std::vector<E2<double, double>> dd = {{"A+B", vc_add, 1, 0, 0}, {"A-B", vc_sub, -1, 0, 0}, {"A+B row-major", vc_addr_, 1, 1, 0}, {"A-B row-major", vc_subr, -1, 1, 0},
        {"A+=B", vc_addto, 1, 0, 1}, {"A-=B", vc_subto, -1, 0, 1}, {"A+=B row-major", vc_addtor, 1, 1, 1}, {"A-=B row-major", vc_subtor, -1, 1, 1}};
    std::vector<E2<float, float>> ff = {{"A+B float", vc_addf, 1, 0, 0}, {"A-B float", vc_subf, -1, 0, 0}, {"A+=B float", vc_addtof, 1, 0, 1}, {"A-=B float", vc_subtof, -1, 0, 1}};
    std::vector<E2<float, double>> fd = {{"A+B float,double", vc_addfd, 1, 0, 0}, {"A-B float,double", vc_subfd, -1, 0, 0}};
    std::vector<E2<double, float>> df = {{"A+B double,float", vc_adddf, 1, 0, 0}, {"A-B double,float", vc_subdf, -1, 0, 0}, {"A+=B double,float", vc_addtodf, 1, 0, 1}, {"A-=B double,float", vc_subtodf, -1, 0, 1}};
    while (more()) {
        size_t m = Z(6), n = Z(6);
        for (auto& e : dd) elementwise(e, m, n);
        for (auto& e : ff) elementwise(e, m, n);
        for (auto& e : fd) elementwise(e, m, n);
        for (auto& e : df) elementwise(e, m, n);
        Buf<double> a(m * n); fill(a);
        CASE("A-A m=%zu n=%zu", m, n); show("A", a);
        balanced([&] { vc_subself(m, n, a); }); a.same("A");
        expect(m, n, false, [&](size_t, size_t) { return 0.; });
        CASE("A+=A m=%zu n=%zu", m, n); show("A", a);
        balanced([&] { vc_addself(m, n, a); });
        expect(m, n, false, [&](size_t i, size_t j) { return 2 * a.copy.data()[i + j * m]; });
        { Buf<double> a(m * n); fill(a); CASE("A-=A m=%zu n=%zu", m, n); show("A", a);
          balanced([&] { vc_subselfto(m, n, a); }); expect(m, n, false, [&](size_t, size_t) { return 0.; }); }
        size_t r = Z(6), c = Z(6);
        if (R(0, 2) == 0) r = n, c = m;
        if (R(0, 2) == 0) r = m, c = n;
        Buf<double> b(m * n); fill(a); fill(b);
        CASE("into a matrix of shape r=%zu c=%zu m=%zu n=%zu", r, c, m, n); show("A", a); show("B", b);
        auto at = [&](double s) { return [&, s](size_t i, size_t j) { return a.copy.data()[i + j * m] + s * b[i + j * m]; }; };
        balanced([&] { vc_add_again(m, n, a, b, r, c); }); expect(m, n, false, at(1));
        balanced([&] { vc_sub_again(m, n, a, b, r, c); }); expect(m, n, false, at(-1));
        balanced([&] { vc_sub_assign(m, n, a, b, r, c); }); expect(m, n, false, at(-1));
        a.same("A"); b.same("B");
        balanced([&] { vc_sub_inplace(m, n, a, b); }); expect(m, n, false, at(-1)); b.same("B");
    }
}

template <class TA, class TB> static void conv(const char* nm, void (*f)(size_t, size_t, TA*), size_t m, size_t n, bool ra, bool rb, TB)
{
    Buf<TA> a(m * n); fill(a);
    for (size_t p = 0; p < a.n; ++p) if (R(0, 3) == 0) a[p] = TA(R(-1000000, 1000000)) / TA(3);
    a.keep();
    CASE("%s m=%zu n=%zu", nm, m, n); show("A", a);
    balanced([&] { f(m, n, a); });
    a.same("source");
    expect(m, n, rb, [&](size_t i, size_t j) { return double(TB(a[ra ? i * n + j : i + j * m])); });
}
static void c03()
{
    while (more()) {
        size_t m = Z(6), n = Z(6);
        conv<double>("copy", vc_conv_copy, m, n, 0, 0, 0.);
        conv<double>("double to float", vc_conv_df, m, n, 0, 0, 0.f);
        conv<float>("float to double", vc_conv_fd, m, n, 0, 0, 0.);
        conv<double>("column-major to row-major", vc_conv_cr, m, n, 0, 1, 0.);
        conv<double>("row-major to column-major", vc_conv_rc, m, n, 1, 0, 0.);
        conv<double>("column-major to row-major float", vc_conv_crf, m, n, 0, 1, 0.f);
        { Buf<double> a(m * n), b(m * n); fill(a); fill(b); CASE("copy() m=%zu n=%zu", m, n); show("A", a);
          balanced([&] { vc_copy(m, n, a, b); }); a.same("A"); expect(m, n, 0, [&](size_t i, size_t j) { return a[i + j * m]; }); }
        { Buf<double> a(m * n), b(m * n); fill(a); fill(b); CASE("copy() to row-major m=%zu n=%zu", m, n); show("A", a);
          balanced([&] { vc_copy_cr(m, n, a, b); }); a.same("A"); expect(m, n, 1, [&](size_t i, size_t j) { return a[i + j * m]; }); }
        { Buf<double> a(m * n); Buf<float> b(m * n); fill(a); fill(b); CASE("copy() to float m=%zu n=%zu", m, n); show("A", a);
          balanced([&] { vc_copy_df(m, n, a, b); }); a.same("A"); expect(m, n, 0, [&](size_t i, size_t j) { return double(float(a[i + j * m])); }); }
        { Buf<double> a(m * n); fill(a); CASE("A = x m=%zu n=%zu", m, n);
          balanced([&] { vc_assign_value(m, n, a, 3.5); }); expect(m, n, 0, [&](size_t, size_t) { return 3.5; }); }
        Win w = window(6, true);
        Buf<double> a(w.R * w.C), b(w.r * w.c); fill(a); fill(b);
        auto src = [&](size_t i, size_t j) { return a.copy.data()[w.br + i + (w.bc + j) * w.R]; };
        CASE("view to dense R=%zu C=%zu view %zu x %zu at %zu,%zu", w.R, w.C, w.r, w.c, w.br, w.bc); show("A", a);
        balanced([&] { vc_conv_view(w.R, w.C, a, w.r, w.c, w.br, w.bc); }); a.same("A"); expect(w.r, w.c, 0, src);
        balanced([&] { vc_conv_viewf(w.R, w.C, a, w.r, w.c, w.br, w.bc); }); a.same("A"); expect(w.r, w.c, 0, [&](size_t i, size_t j) { return double(float(src(i, j))); });
        balanced([&] { vc_copy_from_view(w.R, w.C, a, w.r, w.c, w.br, w.bc, b); }); a.same("A"); expect(w.r, w.c, 0, src);
        b.keep();
        fill(b); balanced([&] { vc_copy_to_view(w.R, w.C, a, w.r, w.c, w.br, w.bc, b); }); b.same("source");
        expect(w.R, w.C, 0, [&](size_t i, size_t j) { size_t x = i - w.br, y = j - w.bc; return x < w.r && y < w.c ? b[x + y * w.r] : a.copy[i + j * w.R]; });
    }
}

static void c04()
{
    while (more()) {
        size_t m = Z(6), n = Z(6);
        Buf<double> a(m * n); Buf<float> b(m * n); fill(a); fill(b);
        CASE("transpose m=%zu n=%zu", m, n); show("A", a);
        balanced([&] { vc_trans_col(m, n, a); }); a.same("A"); expect(n, m, 0, [&](size_t i, size_t j) { return a[j + i * m]; });
        balanced([&] { vc_trans_row(m, n, a); }); a.same("A"); expect(n, m, 1, [&](size_t i, size_t j) { return a[i + j * n]; });
        balanced([&] { vc_trans_f(m, n, b); }); b.same("A"); expect(n, m, 0, [&](size_t i, size_t j) { return double(b[j + i * m]); });
    }
}

static void c23()
{
    while (more()) {
        size_t m = Z(9), n = Z(9); double x = R(0, 3) ? R(-5, 5) + .5 : R(-2, 2);
        CASE("fill m=%zu n=%zu x=%g", m, n, x);
        auto all = [&](size_t, size_t) { return x; };
        balanced([&] { vc_fill_all(m, n, x); }); expect(m, n, 0, all);
        balanced([&] { vc_fill_allf(m, n, x); }); expect(m, n, 0, all);
        balanced([&] { vc_fill_all_row(m, n, x); }); expect(m, n, 1, all);
        balanced([&] { vc_fill_cont(m, n); }); expect(m, n, 0, [&](size_t i, size_t j) { return double(1 + i + j * m); });
        balanced([&] { vc_fill_cont_row(m, n); }); expect(m, n, 1, [&](size_t i, size_t j) { return double(1 + i * n + j); });
        auto hil = [&](size_t i, size_t j) { return 1. / double(i + j + 1); };
        balanced([&] { vc_fill_hilbert(m, n); }); expect(m, n, 0, hil, 1e-15);
        balanced([&] { vc_fill_hilbert_row(m, n); }); expect(m, n, 1, hil, 1e-15);
        auto dia = [&](size_t i, size_t j) { return i == j ? x : 0; };
        for (int row = 0; row < 2; ++row) for (int sq = 0; sq < 2; ++sq) {
            size_t k = sq ? m : n; bool thrown = false;
            reset();
            try { row ? vc_fill_diag_row(m, k, x) : vc_fill_diag(m, k, x); } catch (CoreException&) { thrown = true; }
            if (thrown != (m != k)) FAIL("diagonal %zu x %zu %s", m, k, thrown ? "rejected" : "accepted");
            if (!thrown) expect(m, k, row, dia);
        }
        Buf<double> a(m * n); fill(a); balanced([&] { vc_fill_no(m, n, a); }); a.same("matrix");
        CASE("fill m=%zu n=%zu x=%g over old values", m, n, x); show("A", a);
        balanced([&] { vc_fill_all_into(m, n, x, a); }); expect(m, n, 0, all); fill(a);
        if (a.n && R(0, 1)) a[0] = x;
        balanced([&] { vc_fill_all_into(m, n, x, a); }); expect(m, n, 0, all);
        balanced([&] { vc_fill_cont_into(m, n, a); }); expect(m, n, 0, [&](size_t i, size_t j) { return double(1 + i + j * m); }); fill(a);
        balanced([&] { vc_fill_hilbert_into(m, n, a); }); expect(m, n, 0, hil, 1e-15);
        Buf<double> q(m * m); fill(q); balanced([&] { vc_fill_diag_into(m, m, x, q); }); expect(m, m, 0, dia);
    }
}

static void shape(const char* nm, size_t r, size_t c, bool row)
{
    if (g_counts.size() != 2) FAIL("%s: no result", nm);
    auto& a = g_counts[0]; auto& b = g_counts[1];
    if (a[0] != r || a[1] != c || a[2] != r * c || a[3] != r * c) FAIL("%s: %zu x %zu with %zu elements and %zu cells, expected %zu x %zu", nm, a[0], a[1], a[2], a[3], r, c);
    if (b[0] != (row ? c : r) || b[1] != (row ? r : c)) FAIL("%s: major/minor %zu/%zu for %zu x %zu", nm, b[0], b[1], r, c);
}
static void c26()
{
    while (more()) {
        size_t m = Z(7), n = Z(7), r = Z(7), c = Z(7), r2 = R(0, 7), c2 = R(0, 7);
        if (R(0, 3) == 0) r = n, c = m;
        if (R(0, 7) == 0) r2 = r, c2 = c;
        CASE("shape m=%zu n=%zu r=%zu c=%zu r2=%zu c2=%zu", m, n, r, c, r2, c2);
        balanced([&] { vc_shape_new(m, n); }); shape("constructor", m, n, 0);
        balanced([&] { vc_shape_new_row(m, n); }); shape("constructor row-major", m, n, 1);
        balanced([&] { vc_shape_newf(m, n); }); shape("constructor float", m, n, 0);
        balanced([&] { vc_shape_empty(); }); shape("default constructor", 0, 0, 0);
        balanced([&] { vc_shape_resize(m, n, r, c); }); shape("resize", r, c, 0);
        balanced([&] { vc_shape_resize2(m, n, r, c, r2, c2); }); shape("resize twice", r2, c2, 0);
        balanced([&] { vc_shape_resize_row(m, n, r, c); }); shape("resize row-major", r, c, 1);
        balanced([&] { vc_resize_fill(m, n, r, c, 2.5); }); expect(r, c, 0, [](size_t, size_t) { return 2.5; });
        Buf<double> a(m * n); fill(a);
        balanced([&] { vc_shape_ext(m, n, a); }); shape("external memory", m, n, 0); a.same("external memory");
        balanced([&] { vc_resize_same(m, n, a); }); expect(m, n, 0, [&](size_t i, size_t j) { return a.copy.data()[i + j * m]; });
    }
}

int main(int argc, char** argv) { return drv_main(argc, argv, {{"C01", c01}, {"C03", c03}, {"C04", c04}, {"C09", c09}, {"C23", c23}, {"C26", c26}}); }
