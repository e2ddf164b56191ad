// copies, moves, swaps and resizing of storage and matrices
#include "hooks.h"
#include "storage.cpp"
extern "C" void vc_sparse(const double* v, const size_t* k, const size_t* o, size_t n, size_t no, size_t r, size_t c, size_t s)
{ g_hist.push_back({r, c, s, std::vector<double>(v, v + n), std::vector<size_t>(k, k + n), std::vector<size_t>(o, o + no)}); }
typedef std::vector<double> D;
static const char* g_what; static size_t g_at;
template <class F> static void run(const char* what, F f)
{
    g_what = what; g_at = 0; reset(); std::vector<Seen>().swap(g_hist); std::vector<double>().swap(g_out); g_hist.reserve(4); g_counts.reserve(8); g_addrs.reserve(8); g_bools.reserve(64); g_reals.reserve(8);
    Allocs al; f();
    al.at += g_out.capacity() * 8; for (auto& s : g_hist) al.at += s.v.capacity() * 8 + s.k.capacity() * 8 + s.o.capacity() * 8;
    size_t n = __sanitizer_get_current_allocated_bytes(); if (n != al.at) FAIL("%s: memory balance %ld bytes", what, (long)(n - al.at));
}
static void sees(size_t r, size_t c, D const& v)
{
    if (g_at >= g_hist.size()) FAIL("%s: nothing seen", g_what);
    auto& s = g_hist[g_at++];
    if (s.r != r || s.c != c || s.s != r * c) FAIL("%s: %zu x %zu with %zu elements, expected %zu x %zu", g_what, s.r, s.c, s.s, r, c);
    if (s.v != v) FAIL("%s: content %zu differs", g_what, g_at - 1);
}
static void sees(D const& v) { sees(v.size(), 1, v); }
static void truth(bool want = true) { if (g_bools.empty()) FAIL("%s: no answer", g_what); for (bool b : g_bools) if (b != want) FAIL("%s: %s", g_what, want ? "memory shared or not handed over" : "not refused"); }
static D with(D v, size_t p, double x) { if (p < v.size()) v[p] = x; return v; }

static void flexible()
{
    size_t n = Z(6, 1), m = Z(6), p = R(0, n - 1); double x = R(20, 29);
    CASE("storage of %zu and %zu, change at %zu to %g", n, m, p, x);
    Buf<double> a(n), b(m); fill(a); fill(b); Buf<float> f(n); fill(f);
    D A = a.copy, B = b.copy;
    run("new", [&] { vc_st_new(m); }); if (g_counts[0][0] != m) FAIL("size");
    run("default", [&] { vc_st_default(); }); if (g_counts[0] != std::array<size_t, 4>{0, 0, 0, 0}) FAIL("default storage");
    run("external", [&] { vc_st_ext(n, a); }); sees(A); if (g_addrs[0] != a.p) FAIL("external memory not used");
    run("copy", [&] { vc_st_copy(n, a, p, x); }); sees(A); sees(with(A, p, x)); truth();
    run("copy of external", [&] { vc_st_copy_ext(n, a, p, x); }); sees(A); sees(with(A, p, x)); truth();
    run("conversion", [&] { vc_st_conv(n, f); }); sees(D(f.copy.begin(), f.copy.end()));
    run("assignment", [&] { vc_st_assign(n, a, m, b, p, x); }); sees(A); sees(with(A, p, x)); truth();
    run("assignment to external", [&] { vc_st_assign_to_ext(n, a, m, b); }); sees(A); if (m) truth();
    run("self assignment", [&] { vc_st_assign_self(n, a); }); sees(A);
    run("assignment of an empty one", [&] { vc_st_assign_empty(m, b); }); sees({});
    run("assignment to an empty one", [&] { vc_st_to_empty(m, b); }); sees(B); sees(B);
    run("move", [&] { vc_st_move(n, a); }); sees(A); truth();
    run("move of external", [&] { vc_st_move_ext(n, a); }); sees(A); truth();
    run("move assignment", [&] { vc_st_move_assign(n, a, m, b); }); sees(A); truth();
    run("move assignment of external", [&] { vc_st_move_assign_ext(n, a, m, b); }); sees(A); truth();
    run("self move", [&] { vc_st_move_self(n, a); }); sees(A);
    run("reuse after move", [&] { vc_st_move_reuse(n, a, m, b); }); sees(B); sees(A); sees(B);
    run("swap", [&] { vc_st_swap(n, a, m, b); }); sees(B); sees(A);
    run("swap with external", [&] { vc_st_swap_ext(n, a, m, b); }); sees(B); sees(A); truth();
    run("resize", [&] { vc_st_resize(n, a, m); }); sees(D(m, 7)); if (g_counts[0][0] != m) FAIL("resize: size");
    run("resize to the same", [&] { vc_st_resize_same(n, a); }); sees(A); truth();
    run("resize of external", [&] { vc_st_resize_ext(n, a, m); }); sees(A); truth(n == m);
    run("list", [&] { vc_st_list(x, x + 1, x + 2); }); sees({x, x + 1, x + 2});
    run("archive", [&] { Buf<double> z(n); vc_st_archive(n, a, m, b, z); }); sees(A); sees(A);
    run("archive to external", [&] { Buf<double> z(n); vc_st_archive_ext(n, a, m, b, z); }); sees(A); if (m) truth();
    a.same("external memory"); 
    if (m) { Buf<double> c(B); run("changed target", [&] { vc_st_assign_to_ext(n, a, m, c); }); c.same("memory given to the storage"); }
    b.same("second external memory");
}
static void fixed_size()
{
    size_t p = R(0, 3); double x = R(20, 29);
    CASE("fixed size storage, change at %zu to %g", p, x);
    Buf<double> a(4), b(4); fill(a); fill(b); show("a", a); show("b", b); D A = a.copy, B = b.copy;
    run("copy", [&] { vc_fh_copy(a, p, x); }); sees(A); sees(with(A, p, x));
    run("external", [&] { vc_fh_ext(a); }); sees(A); if (g_addrs[0] != a.p) FAIL("external memory not used");
    run("assignment", [&] { vc_fh_assign(a, b, p, x); }); sees(A); sees(with(A, p, x));
    run("assignment of external", [&] { vc_fh_assign_ext(a, b); }); sees(A); truth();
    run("move", [&] { vc_fh_move(a); }); sees(A);
    run("move assignment", [&] { vc_fh_move_assign(a, b); }); sees(A);
    run("move assignment of external", [&] { vc_fh_move_assign_ext(a, b); }); sees(A);
    run("swap", [&] { vc_fh_swap(a, b); }); sees(B); sees(A);
    run("list", [&] { vc_fh_list(1, 2, 3, x); }); sees({1, 2, 3, x});
    run("archive", [&] { Buf<double> z(4); vc_fh_archive(a, b, z); }); sees(A); sees(A);
    run("stack copy", [&] { vc_fs_copy(a, p, x); }); sees(A); sees(with(A, p, x));
    run("stack assignment", [&] { vc_fs_assign(a, b); }); sees(A); sees(A);
    a.same("a"); b.same("b");
}
static void matrices()
{
    size_t r = Z(5, 1), c = Z(5, 1), r2 = Z(5), c2 = Z(5), p = R(0, r * c - 1); double x = R(20, 29);
    CASE("matrices %zu x %zu and %zu x %zu, change at %zu", r, c, r2, c2, p);
    Buf<double> a(r * c), b(r2 * c2); fill(a); fill(b); D A = a.copy, B = b.copy;
    run("copy", [&] { vc_m_copy(r, c, a, p, x); }); sees(r, c, A); sees(r, c, with(A, p, x));
    run("assignment", [&] { vc_m_assign(r, c, a, r2, c2, b); }); sees(r, c, A); sees(r, c, A); truth();
    run("move", [&] { vc_m_move(r, c, a); }); sees(r, c, A);
    run("move row-major", [&] { vc_m_move_row(r, c, a); }); sees(r, c, A);
    run("move assignment", [&] { vc_m_move_assign(r, c, a, r2, c2, b); }); sees(r, c, A);
    run("self move", [&] { vc_m_move_self(r, c, a); }); sees(r, c, A);
    run("swap", [&] { vc_m_swap(r, c, a, r2, c2, b); }); sees(r2, c2, B); sees(r, c, A);
    run("swap with external", [&] { vc_m_swap_ext(r, c, a, r2, c2, b); }); sees(r2, c2, B); sees(r, c, A);
    run("std::swap", [&] { vc_m_std_swap(r, c, a, r2, c2, b); }); sees(r2, c2, B); sees(r, c, A);
    run("resize", [&] { vc_m_resize(r, c, a, r2, c2); }); sees(r2, c2, D(r2 * c2, 7));
    a.same("a"); b.same("b");
    double sa = 0, sb = 0, na = 0; for (double y : A) sa += std::fabs(y), na += y != 0; for (double y : B) sb += std::fabs(y);
    run("norm after swap", [&] { vc_m_swap_norm(r, c, a, r2, c2, b); }); if (g_reals[0] != sb || g_reals[1] != sa) FAIL("norm not swapped");
    run("norm after move assignment", [&] { vc_m_move_norm(r, c, a, r2, c2, b); }); if (g_reals[0] != sa) FAIL("norm %g of the old content, expected %g", g_reals[0], sa); if (g_reals[1] != na / (r * c)) FAIL("occupation %g of the old content", g_reals[1]);
    size_t vr = R(1, r), vc = R(1, c), br = R(0, r - vr), bc = R(0, c - vc), i = R(0, vr - 1), j = R(0, vc - 1);
    ADD(" view %zu x %zu at %zu,%zu element %zu,%zu", vr, vc, br, bc, i, j);
    std::array<size_t, 4> want{vr, vc, r, c}; const void* q = a.p + br + i + (bc + j) * r;
    run("move of a view", [&] { vc_v_move(r, c, a, vr, vc, br, bc, i, j); }); if (g_counts[0] != want || g_addrs[0] != q) FAIL("moved view differs");
    run("move assignment of a view", [&] { vc_v_assign(r, c, a, vr, vc, br, bc, i, j); }); if (g_counts[0] != want || g_addrs[0] != q) FAIL("assigned view differs");
    run("swap of views", [&] { vc_v_swap(r, c, a, vr, vc, br, bc, i, j); }); if (g_counts[0] != want || g_addrs[0] != q || g_counts[1] != std::array<size_t, 4>{0, 0, 0, 0}) FAIL("swapped view differs");
    a.same("a");
}
struct Sps { size_t r, c, n; D v; std::vector<size_t> k, o; Buf<double>* bv; Buf<size_t> *bk, *bo;
    Sps(size_t r, size_t c) : r(r), c(c) { o.push_back(0); for (size_t j = 0; j < c; ++j) { for (size_t i = 0; i < r; ++i) if (R(0, 2)) v.push_back(R(1, 9)), k.push_back(i); o.push_back(v.size()); } if (v.empty()) v.push_back(5), k.push_back(0), o[c] = 1; n = v.size(); bv = new Buf<double>(v); bk = new Buf<size_t>(k); bo = new Buf<size_t>(o); }
    ~Sps() { delete bv; delete bk; delete bo; } };
static void is(Sps& S) { if (g_at >= g_hist.size()) FAIL("%s: nothing seen", g_what); auto& s = g_hist[g_at++]; if (s.r != S.r || s.c != S.c || s.s != S.r * S.c) FAIL("%s: shape", g_what); if (s.v != S.v || s.k != S.k || s.o != S.o) FAIL("%s: content %zu differs", g_what, g_at - 1); }
static void sparse()
{
    Sps A(Z(5, 1), Z(5, 1)), B(Z(5, 1), Z(5, 1)); size_t p = R(0, A.n - 1);
    CASE("sparse matrices %zu x %zu and %zu x %zu with %zu and %zu stored, change at %zu", A.r, A.c, B.r, B.c, A.n, B.n, p);
#define AB A.r, A.c, A.n, *A.bv, *A.bk, *A.bo, B.r, B.c, B.n, *B.bv, *B.bk, *B.bo
    run("copy", [&] { vc_s_copy(AB, p, 77); }); is(A); is(A);
    run("assignment", [&] { vc_s_assign(AB, p, 77); }); is(A); is(A);
    run("move", [&] { vc_s_move(AB); }); is(A);
    run("move assignment", [&] { vc_s_move_assign(AB); }); is(A);
    run("swap", [&] { vc_s_swap(AB); }); is(B); is(A);
}
static void c12() { g_keep = true; while (more()) { flexible(); fixed_size(); matrices(); sparse(); } }
int main(int argc, char** argv) { return drv_main(argc, argv, {{"C12", c12}}); }
