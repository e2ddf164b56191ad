// sparse matrices: conversion, products, sums, transposition
#include "hooks.h"
#include <functional>
static std::function<bool(double)> g_accept;
extern "C" bool vc_accept(double x) { return g_accept(x); }
#include "sparse.cpp"

// what was observed of a sparse result
static bool g_sgot; static std::vector<double> g_sv; static std::vector<size_t> g_sk, g_so; static size_t g_srows, g_scols, g_ssize;
template <class T> static void takes(const T* v, const size_t* k, const size_t* o, size_t n, size_t no, size_t r, size_t c, size_t s)
{
    g_sgot = true; g_srows = r; g_scols = c; g_ssize = s;
    g_sv.assign(v, v + n); g_sk.assign(k, k + n); g_so.assign(o, o + no);
}
extern "C" void vc_sparse(const double* v, const size_t* k, const size_t* o, size_t n, size_t no, size_t r, size_t c, size_t s) { takes(v, k, o, n, no, r, c, s); }
extern "C" void vc_sparsef(const float* v, const size_t* k, const size_t* o, size_t n, size_t no, size_t r, size_t c, size_t s) { takes(v, k, o, n, no, r, c, s); }

typedef std::function<double(size_t, size_t)> Elem;
// a random well-formed sparse matrix; ascending keys in every line
template <class T> struct In {
    size_t r, c, n; bool row; std::vector<T> v; std::vector<size_t> k, o;
    Buf<T>* bv; Buf<size_t> *bk, *bo;
    In(size_t r, size_t c, bool row = false, const char* nm = "S", bool zeros = true) : r(r), c(c), row(row)
    {
        size_t lines = row ? r : c, len = row ? c : r;
        int dens = R(0, 5);     // 0 empty, 5 full
        o.push_back(0);
        ADD(" %s %zu x %zu%s {", nm, r, c, row ? " row-major" : "");
        for (size_t l = 0; l < lines; ++l) {
            for (size_t i = 0; i < len; ++i) if (dens == 5 || R(0, 4) < dens) {
                T x = T(R(-4, 4)); if (x == 0 && (!zeros || R(0, 3))) x = 3;
                v.push_back(x); k.push_back(i); if (v.size() < 40) ADD("(%zu,%zu)=%g ", row ? l : i, row ? i : l, (double)x);
            }
            o.push_back(v.size());
        }
        ADD("}");
        n = v.size();
        bv = new Buf<T>(v); bk = new Buf<size_t>(k); bo = new Buf<size_t>(o);
    }
    In(In const&) = delete;
    ~In() { delete bv; delete bk; delete bo; }
    double at(size_t i, size_t j) const { size_t l = row ? i : j, q = row ? j : i; for (size_t p = o[l]; p < o[l + 1]; ++p) if (k[p] == q) return v[p]; return 0; }
    bool has(size_t i, size_t j) const { size_t l = row ? i : j, q = row ? j : i; for (size_t p = o[l]; p < o[l + 1]; ++p) if (k[p] == q) return true; return false; }
    void same() { bv->same("values"); bk->same("keys"); bo->same("offsets"); }
    Elem elem() const { return [this](size_t i, size_t j) { return at(i, j); }; }
};
#define ARG(A) A.r, A.c, *A.bv, *A.bk, *A.bo, A.n
#define ARB(B) *B.bv, *B.bk, *B.bo, B.n

template <class F> static void balanced(F f)
{
    reset(); g_sgot = false; std::vector<double>().swap(g_out); std::vector<double>().swap(g_sv); std::vector<size_t>().swap(g_sk); std::vector<size_t>().swap(g_so); g_counts.reserve(8); g_addrs.reserve(8);
    Allocs al; f();
    al.at += g_out.capacity() * sizeof(double) + g_sv.capacity() * 8 + g_sk.capacity() * 8 + g_so.capacity() * 8;
    al.same();
}
// well-formed, of the shape, value everywhere; stored exactly where `stored` says
static void wants(const char* nm, size_t r, size_t c, bool row, Elem value, std::function<bool(size_t, size_t)> stored, bool sorted = true)
{
    if (!g_sgot) FAIL("%s: no result", nm);
    if (g_srows != r || g_scols != c || g_ssize != r * c) FAIL("%s: %zu x %zu with size %zu, expected %zu x %zu", nm, g_srows, g_scols, g_ssize, r, c);
    size_t lines = row ? r : c, len = row ? c : r;
    if (g_so.size() != lines + 1) FAIL("%s: %zu offsets for %zu lines", nm, g_so.size(), lines);
    if (g_so[0] != 0) FAIL("%s: first offset %zu", nm, g_so[0]);
    if (g_so[lines] != g_sv.size()) FAIL("%s: last offset %zu of %zu stored elements", nm, g_so[lines], g_sv.size());
    for (size_t l = 0; l < lines; ++l) {
        if (g_so[l] > g_so[l + 1]) FAIL("%s: offsets decrease at line %zu", nm, l);
        std::vector<int> seen(len, 0);
        for (size_t p = g_so[l]; p < g_so[l + 1]; ++p) {
            size_t q = g_sk[p];
            if (q >= len) FAIL("%s: key %zu of %zu", nm, q, len);
            if (seen[q]++) FAIL("%s: key %zu twice in line %zu", nm, q, l);
            if (sorted && p > g_so[l] && g_sk[p - 1] >= q) FAIL("%s: keys of line %zu not ascending", nm, l);
            size_t i = row ? l : q, j = row ? q : l;
            double y = value(i, j);
            if (g_sv[p] != y && !(g_sv[p] != g_sv[p] && y != y)) FAIL("%s: element (%zu,%zu) is %.17g, expected %.17g", nm, i, j, g_sv[p], y);
            if (stored && !stored(i, j)) FAIL("%s: element (%zu,%zu) stored", nm, i, j);
        }
        for (size_t q = 0; q < len; ++q) if (!seen[q]) {
            size_t i = row ? l : q, j = row ? q : l;
            if (stored ? stored(i, j) : value(i, j) != 0) FAIL("%s: element (%zu,%zu) missing", nm, i, j);
        }
    }
}
static size_t S() { return Z(6); }
static void expd(const char* nm, size_t r, size_t c, bool row, Elem e) { ADD(" [%s]", nm); expect(r, c, row, e); g_case[strlen(g_case) - strlen(nm) - 3] = 0; }

static void c06()
{
    while (more()) {
        size_t r = S(), c = S();
        CASE("expand");
        In<double> A(r, c), AR(r, c, true, "AR"); In<float> F(r, c, false, "F");
        balanced([&] { vc_exp_cc(ARG(A)); }); expd("column-major to column-major", r, c, 0, A.elem());
        balanced([&] { vc_exp_cr(ARG(A)); }); expd("column-major to row-major", r, c, 1, A.elem());
        balanced([&] { vc_exp_rr(ARG(AR)); }); expd("row-major to row-major", r, c, 1, AR.elem());
        balanced([&] { vc_exp_rc(ARG(AR)); }); expd("row-major to column-major", r, c, 0, AR.elem());
        balanced([&] { vc_exp_fd(ARG(F)); }); expd("float to double", r, c, 0, F.elem());
        balanced([&] { vc_exp_ff(ARG(F)); }); expd("float", r, c, 0, F.elem());
        balanced([&] { vc_exp_df(ARG(A)); }); expd("double to float", r, c, 0, A.elem());
        A.same(); AR.same(); F.same();
    }
}
static void c05()
{
    while (more()) {
        size_t r = S(), c = S(), br = R(0, r), bc = R(0, c), vr = R(0, r - br), vn = R(0, c - bc);
        double lo = R(0, 4), hi = lo + R(1, 6); int kind = R(0, 5);
        CASE("select accept=%d r=%zu c=%zu view %zu x %zu at %zu,%zu (%g,%g]", kind, r, c, vr, vn, br, bc, lo, hi);
        Buf<double> a(r * c); Buf<float> b(r * c); fill(a); fill(b); show("a", a); show("b", b);
        g_accept = [&](double x) { switch (kind) { case 0: return true; case 1: return false; case 2: return x > 0; case 3: return x != 0; case 4: return ((long)x & 1) != 0; default: return std::fabs(x) > lo; } };
        std::vector<double> ac = a.copy; std::vector<double> bcp(b.copy.begin(), b.copy.end());
        auto go = [&](const char* nm, std::function<void()> f, size_t m, size_t n, bool row, Elem e, std::function<bool(double)> acc) {
            balanced(f); wants(nm, m, n, row, e, [&](size_t i, size_t j) { return acc(e(i, j)); }); };
        Elem ec = [&](size_t i, size_t j) { return ac[i + j * r]; }, er = [&](size_t i, size_t j) { return ac[i * c + j]; }, ef = [&](size_t i, size_t j) { return bcp[i + j * r]; },
            ev = [&](size_t i, size_t j) { return ac[br + i + (bc + j) * r]; };
        go("double to double", [&] { vc_sel_cc(r, c, a); }, r, c, 0, ec, g_accept);
        go("double to float", [&] { vc_sel_df(r, c, a); }, r, c, 0, ec, g_accept);
        go("float to double", [&] { vc_sel_fd(r, c, b); }, r, c, 0, ef, g_accept);
        go("float to float", [&] { vc_sel_ff(r, c, b); }, r, c, 0, ef, g_accept);
        go("row-major", [&] { vc_sel_rr(r, c, a); }, r, c, 1, er, g_accept);
        go("column-major to row-major", [&] { vc_sel_cr(r, c, a); }, r, c, 1, ec, g_accept);
        go("row-major to column-major", [&] { vc_sel_rc(r, c, a); }, r, c, 0, er, g_accept);
        go("view", [&] { vc_sel_view(r, c, a, vr, vn, br, bc); }, vr, vn, 0, ev, g_accept);
        go("view to float", [&] { vc_sel_viewf(r, c, a, vr, vn, br, bc); }, vr, vn, 0, ev, g_accept);
        go("default test", [&] { vc_sel_default(r, c, a); }, r, c, 0, ec, [](double x) { return x != 0; });
        go("range test", [&] { vc_sel_range(r, c, a, lo, hi); }, r, c, 0, ec, [&](double x) { return lo < std::fabs(x) && std::fabs(x) <= hi; });
        a.same("matrix"); b.same("matrix");
    }
}
static void c08()
{
    while (more()) {
        size_t m = S(), k = S(), n = S(), r2 = S(), c2 = S();
        CASE("product %zu x %zu x %zu, other result shape %zu x %zu", m, k, n, r2, c2);
        In<double> A(m, k, false, "A"), B(k, n, false, "B"); In<float> F(m, k, false, "F"), G(k, n, false, "G");
        Buf<double> a(m * k), b(k * n); Buf<float> f(m * k), g(k * n); fill(a); fill(b); fill(f); fill(g);
        show("a", a); show("b", b); show("f", f); show("g", g);
        auto ea = [&](size_t i, size_t j) { return a.copy[i + j * m]; }; auto eb = [&](size_t i, size_t j) { return b.copy[i + j * k]; };
        auto ff = [&](size_t i, size_t j) { return (double)f.copy[i + j * m]; }; auto fg = [&](size_t i, size_t j) { return (double)g.copy[i + j * k]; };
        auto mul = [&](Elem x, Elem y) { return Elem([=](size_t i, size_t j) { double s = 0; for (size_t l = 0; l < k; ++l) s += x(i, l) * y(l, j); return s; }); };
        balanced([&] { vc_mul_sd(ARG(A), n, b); }); expd("sparse-dense", m, n, 0, mul(A.elem(), eb));
        balanced([&] { vc_mul_sdf(ARG(F), n, g); }); expd("sparse-dense float", m, n, 0, mul(F.elem(), fg));
        balanced([&] { vc_mul_sd_again(ARG(A), n, b, r2, c2); }); expd("sparse-dense into existing", m, n, 0, mul(A.elem(), eb));
        balanced([&] { vc_mul_ds(m, a, ARG(B)); }); expd("dense-sparse", m, n, 0, mul(ea, B.elem()));
        balanced([&] { vc_mul_dsf(m, f, ARG(G)); }); expd("dense-sparse float", m, n, 0, mul(ff, G.elem()));
        balanced([&] { vc_mul_ds_again(m, a, ARG(B), r2, c2); }); expd("dense-sparse into existing", m, n, 0, mul(ea, B.elem()));
        Elem ss = mul(A.elem(), B.elem()), fs = mul(F.elem(), G.elem());
        balanced([&] { vc_mul_ss(ARG(A), n, ARB(B)); }); wants("sparse-sparse", m, n, 0, ss, [&](size_t i, size_t j) { return ss(i, j) != 0; });
        balanced([&] { vc_mul_ssf(ARG(F), n, ARB(G)); }); wants("sparse-sparse float", m, n, 0, fs, [&](size_t i, size_t j) { return fs(i, j) != 0; });
        balanced([&] { vc_mul_ss_again(ARG(A), n, ARB(B), r2, c2); }); wants("sparse-sparse into existing", m, n, 0, ss, [&](size_t i, size_t j) { return ss(i, j) != 0; });
        In<double> AR(m, k, true, "AR"), BR(k, n, true, "BR");
        auto ear = [&](size_t i, size_t j) { return a.copy[i * k + j]; }; auto ebr = [&](size_t i, size_t j) { return b.copy[i * n + j]; };
        balanced([&] { vc_mul_sd_r(ARG(AR), n, b); }); expd("sparse-dense, row-major sparse", m, n, 0, mul(AR.elem(), eb));
        balanced([&] { vc_mul_ds_r(m, a, ARG(BR)); }); expd("dense-sparse, row-major sparse", m, n, 0, mul(ea, BR.elem()));
        balanced([&] { vc_mul_sd_rrr(ARG(AR), n, b); }); expd("sparse-dense, row-major", m, n, 1, mul(AR.elem(), ebr));
        balanced([&] { vc_mul_ds_rrr(m, a, ARG(BR)); }); expd("dense-sparse, row-major", m, n, 1, mul(ear, BR.elem()));
        balanced([&] { vc_mul_sd_rd(ARG(A), n, b); }); expd("sparse-dense, row-major dense", m, n, 0, mul(A.elem(), ebr));
        balanced([&] { vc_mul_ds_rd(m, a, ARG(B)); }); expd("dense-sparse, row-major dense", m, n, 0, mul(ear, B.elem()));
        balanced([&] { vc_mul_sd_rres(ARG(A), n, b); }); expd("sparse-dense, row-major result", m, n, 1, mul(A.elem(), eb));
        balanced([&] { vc_mul_ds_rres(m, a, ARG(B)); }); expd("dense-sparse, row-major result", m, n, 1, mul(ea, B.elem()));
        Elem s1 = mul(AR.elem(), B.elem()), s2 = mul(A.elem(), BR.elem());
        balanced([&] { vc_mul_ss_ra(ARG(AR), n, ARB(B)); }); wants("sparse-sparse, row-major first", m, n, 0, s1, [&](size_t i, size_t j) { return s1(i, j) != 0; });
        balanced([&] { vc_mul_ss_rb(ARG(A), n, ARB(BR)); }); wants("sparse-sparse, row-major second", m, n, 0, s2, [&](size_t i, size_t j) { return s2(i, j) != 0; });
        Elem sr = mul(AR.elem(), BR.elem());
        balanced([&] { vc_mul_ss_r(ARG(AR), n, ARB(BR)); }); wants("row-major sparse-sparse", m, n, 0, sr, [&](size_t i, size_t j) { return sr(i, j) != 0; });
        balanced([&] { vc_mul_ss_rrr(ARG(AR), n, ARB(BR)); }); wants("row-major sparse-sparse to row-major", m, n, 1, sr, [&](size_t i, size_t j) { return sr(i, j) != 0; });
        AR.same(); BR.same();
        A.same(); B.same(); F.same(); G.same(); a.same("a"); b.same("b"); f.same("f"); g.same("g");
    }
}
static void c10()
{
    while (more()) {
        size_t r = S(), c = S();
        CASE("sum");
        In<double> A(r, c, false, "A"), B(r, c, false, "B"); In<float> F(r, c, false, "F"), G(r, c, false, "G");
        Buf<double> a(r * c); Buf<float> f(r * c); fill(a); fill(f); show("a", a); show("f", f);
        auto ea = [&](size_t i, size_t j) { return a.copy[i + j * r]; }; auto ef = [&](size_t i, size_t j) { return (double)f.copy[i + j * r]; };
        auto op = [&](Elem x, Elem y, int s) { return Elem([=](size_t i, size_t j) { return x(i, j) + s * y(i, j); }); };
        balanced([&] { vc_add_ss(ARG(A), ARB(B)); }); wants("sparse + sparse", r, c, 0, op(A.elem(), B.elem(), 1), nullptr);
        balanced([&] { vc_sub_ss(ARG(A), ARB(B)); }); wants("sparse - sparse", r, c, 0, op(A.elem(), B.elem(), -1), nullptr);
        balanced([&] { vc_add_ssf(ARG(F), ARB(G)); }); wants("sparse + sparse float", r, c, 0, op(F.elem(), G.elem(), 1), nullptr);
        balanced([&] { vc_sub_ssfd(ARG(F), ARB(B)); }); wants("sparse float - sparse double", r, c, 0, op(F.elem(), B.elem(), -1), nullptr);
        balanced([&] { vc_add_ds(a, ARG(A)); }); expd("dense + sparse", r, c, 0, op(ea, A.elem(), 1)); a.same("dense operand");
        balanced([&] { vc_sub_ds(a, ARG(A)); }); expd("dense - sparse", r, c, 0, op(ea, A.elem(), -1)); a.same("dense operand");
        balanced([&] { vc_add_sd(a, ARG(A)); }); expd("sparse + dense", r, c, 0, op(A.elem(), ea, 1)); a.same("dense operand");
        balanced([&] { vc_sub_sd(a, ARG(A)); }); expd("sparse - dense", r, c, 0, op(A.elem(), ea, -1)); a.same("dense operand");
        balanced([&] { vc_sub_sdf(f, ARG(F)); }); expd("sparse - dense float", r, c, 0, op(F.elem(), ef, -1)); f.same("dense operand");
        balanced([&] { vc_sub_sfd(a, ARG(F)); }); expd("sparse float - dense double", r, c, 0, op(F.elem(), ea, -1)); a.same("dense operand");
        { Buf<double> t(a.copy); balanced([&] { vc_addto_ds(t, ARG(A)); }); expd("dense += sparse", r, c, 0, op(ea, A.elem(), 1)); }
        { Buf<double> t(a.copy); balanced([&] { vc_subto_ds(t, ARG(A)); }); expd("dense -= sparse", r, c, 0, op(ea, A.elem(), -1)); }
        { Buf<float> t(f.copy); balanced([&] { vc_subto_dsf(t, ARG(F)); }); expd("dense -= sparse float", r, c, 0, op(ef, F.elem(), -1)); }
        In<double> AR(r, c, true, "AR"), BR(r, c, true, "BR"); auto er = [&](size_t i, size_t j) { return a.copy[i * c + j]; };
        balanced([&] { vc_add_ds_r(a, ARG(AR)); }); expd("row-major dense + sparse", r, c, 1, op(er, AR.elem(), 1)); a.same("dense operand");
        balanced([&] { vc_sub_ds_r(a, ARG(AR)); }); expd("row-major dense - sparse", r, c, 1, op(er, AR.elem(), -1)); a.same("dense operand");
        balanced([&] { vc_add_sd_r(a, ARG(AR)); }); expd("row-major sparse + dense", r, c, 1, op(AR.elem(), er, 1)); a.same("dense operand");
        balanced([&] { vc_sub_sd_r(a, ARG(AR)); }); expd("row-major sparse - dense", r, c, 1, op(AR.elem(), er, -1)); a.same("dense operand");
        { Buf<double> t(a.copy); balanced([&] { vc_addto_ds_r(t, ARG(AR)); }); expd("row-major dense += sparse", r, c, 1, op(er, AR.elem(), 1)); }
        balanced([&] { vc_add_ss_r(ARG(AR), ARB(BR)); }); wants("row-major sparse + sparse", r, c, 1, op(AR.elem(), BR.elem(), 1), nullptr);
        balanced([&] { vc_sub_ss_r(ARG(AR), ARB(BR)); }); wants("row-major sparse - sparse", r, c, 1, op(AR.elem(), BR.elem(), -1), nullptr);
        AR.same(); BR.same();
        A.same(); B.same(); F.same(); G.same();
    }
}
static void c04()
{
    while (more()) {
        size_t r = S(), c = S();
        CASE("transpose");
        In<double> A(r, c, false, "A"); In<float> F(r, c, false, "F");
        balanced([&] { vc_trs(ARG(A)); }); wants("transpose", c, r, 0, [&](size_t i, size_t j) { return A.at(j, i); }, [&](size_t i, size_t j) { return A.has(j, i); });
        balanced([&] { vc_trsf(ARG(F)); }); wants("transpose float", c, r, 0, [&](size_t i, size_t j) { return F.at(j, i); }, [&](size_t i, size_t j) { return F.has(j, i); });
        balanced([&] { vc_conv_ss(ARG(A)); }); wants("to float", r, c, 0, A.elem(), [&](size_t i, size_t j) { return A.has(i, j); });
        In<double> AR(r, c, true, "AR");
        balanced([&] { vc_conv_scr(ARG(A)); }); wants("to row-major", r, c, 1, A.elem(), [&](size_t i, size_t j) { return A.has(i, j); });
        balanced([&] { vc_conv_src(ARG(AR)); }); wants("to column-major", r, c, 0, AR.elem(), [&](size_t i, size_t j) { return AR.has(i, j); });
        A.same(); F.same(); AR.same();
    }
}
int main(int argc, char** argv) { return drv_main(argc, argv, {{"C04", c04}, {"C05", c05}, {"C06", c06}, {"C08", c08}, {"C10", c10}}); }
