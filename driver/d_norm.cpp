// norms and occupation
#include "hooks.h"
#include <functional>
static std::function<bool(double)> g_accept;
extern "C" bool vc_accept(double x) { return g_accept(x); }
#include "norm.cpp"
extern "C" void vc_sparse(const double*, const size_t*, const size_t*, size_t, size_t, size_t, size_t, size_t) {}
extern "C" void vc_sparsef(const float*, const size_t*, const size_t*, size_t, size_t, size_t, size_t, size_t) {}
typedef std::vector<double> D;
template <class T> struct Sps { size_t r, c, n; std::vector<T> v; std::vector<size_t> k, o; Buf<T>* bv; Buf<size_t> *bk, *bo;
    Sps(size_t r, size_t c) : r(r), c(c) { o.push_back(0); int d = R(0, 4); for (size_t j = 0; j < c; ++j) { for (size_t i = 0; i < r; ++i) if (R(0, 3) < d) v.push_back(T(R(-9, 9))), k.push_back(i); o.push_back(v.size()); } n = v.size(); bv = new Buf<T>(v); bk = new Buf<size_t>(k); bo = new Buf<size_t>(o); show("stored", *bv); }
    ~Sps() { delete bv; delete bk; delete bo; }
    D values() const { return D(v.begin(), v.end()); }
    D full() const { D f(r * c, 0); for (size_t j = 0; j < c; ++j) for (size_t p = o[j]; p < o[j + 1]; ++p) f[k[p] + j * r] += v[p]; return f; } };
#define ARG(A) A.r, A.c, *A.bv, *A.bk, *A.bo, A.n
#define ARB(A) *A.bv, *A.bk, *A.bo, A.n
static double n1(D const& v) { double s = 0; for (double x : v) s += std::fabs(x); return s; }
static double n2(D const& v) { double s = 0; for (double x : v) s += x * x; return std::sqrt(s); }
static double nm(D const& v) { double s = 0; for (double x : v) s = std::max(s, std::fabs(x)); return s; }
static double g_tol = 0, g_round = 0;
template <class F> static void gives(const char* what, D const& want, F f)
{
    std::vector<double>().swap(g_out); reset(); g_reals.reserve(16); g_ints.reserve(16); g_bools.reserve(64);
    Allocs al; f(); al.same();
    if (g_reals.size() != want.size()) FAIL("%s: %zu results", what, g_reals.size());
    for (size_t i = 0; i < want.size(); ++i) if (g_reals[i] != want[i] && !(want[i] != want[i] && g_reals[i] != g_reals[i]) && !(std::fabs(g_reals[i] - want[i]) <= g_tol * std::fabs(want[i]))) FAIL("%s: result %zu is %.17g, expected %.17g", what, i, g_reals[i], want[i]);
}
static void ints(const char* what, std::vector<long> const& want) { if (g_ints != want) FAIL("%s: counted %ld, expected %ld", what, g_ints.empty() ? -1 : g_ints.back(), want.back()); }
#define N3(what, v, E, ...) g_tol = g_round; gives("one-norm " what, {n1(v)}, [&] { vc_n1_##E(__VA_ARGS__); }); gives("two-norm " what, {n2(v)}, [&] { vc_n2_##E(__VA_ARGS__); }); g_tol = 0; gives("max-norm " what, {nm(v)}, [&] { vc_nm_##E(__VA_ARGS__); });
struct In {
    size_t r, c, br, bc, vr, vn; Buf<double> a; Buf<float> f; D A, F, V, VF;
    In() : r(Z(6)), c(Z(6)), br(R(0, r)), bc(R(0, c)), vr(R(0, r - br)), vn(R(0, c - bc)), a(r * c), f(r * c)
    {
        CASE("%zu x %zu, view %zu x %zu at %zu,%zu", r, c, vr, vn, br, bc);
        fill(a); fill(f); show("a", a); show("f", f);
        A = a.copy; F = D(f.copy.begin(), f.copy.end());
        for (size_t j = 0; j < vn; ++j) for (size_t i = 0; i < vr; ++i) V.push_back(A[br + i + (bc + j) * r]), VF.push_back(F[br + i + (bc + j) * r]);
    }
};
static void c13()
{
    while (more()) {
        In q; auto& a = q.a; auto& f = q.f; size_t r = q.r, c = q.c;
        Sps<double> S(r, c); Sps<float> T(r, c);
        N3("double", q.A, d, r, c, a) N3("float", q.F, f, r, c, f) N3("row-major", q.A, r, r, c, a)
        N3("view", q.V, v, r, c, a, q.vr, q.vn, q.br, q.bc) N3("float view", q.VF, vf, r, c, f, q.vr, q.vn, q.br, q.bc)
        N3("sparse", S.values(), s, ARG(S)) N3("float sparse", T.values(), sf, ARG(T)) N3("zero", D(), z, r, c)
        if (R(0, 2) == 0) {     // values which need all digits
            g_round = 1e-13;
            for (size_t i = 0; i < a.n; ++i) a[i] /= 7.0 + R(0, 3), f[i] /= 7.0f; a.keep(); f.keep(); D A = a.copy, F(f.copy.begin(), f.copy.end()), V;
            for (size_t j = 0; j < q.vn; ++j) for (size_t i = 0; i < q.vr; ++i) V.push_back(A[q.br + i + (q.bc + j) * r]);
            N3("digits", A, d, r, c, a) N3("float digits", F, f, r, c, f) N3("view digits", V, v, r, c, a, q.vr, q.vn, q.br, q.bc)
            g_round = 0; for (size_t i = 0; i < a.n; ++i) a[i] = q.A[i], f[i] = q.F[i]; a.keep(); f.keep();
        }
        D m = S.full(), ms = m; for (size_t i = 0; i < m.size(); ++i) m[i] += q.F[i], ms[i] += T.full()[i];
        N3("composite", m, m, ARG(S), f) N3("sparse composite", ms, ms, ARG(S), ARB(T))
        gives("matrix one-norm", {n1(q.A), n1(q.A)}, [&] { vc_p1(r, c, a); });
        gives("matrix two-norm", {n2(q.A), n2(q.A)}, [&] { vc_p2(r, c, a); });
        gives("matrix max-norm", {nm(q.A), nm(q.A)}, [&] { vc_pm(r, c, a); });
        gives("norm of copies", {n1(q.A), n1(q.A)}, [&] { vc_p_copy(r, c, a); });
        double n = n1(q.A), x = R(0, 1) ? n : n + R(-2, 2); ADD(" limit %g", x);
        gives("norm larger", {}, [&] { vc_p_large(r, c, a, x); }); if (g_bools != std::vector<bool>{n > x, n > x, n < x}) FAIL("norm %g larger than %g", n, x);
        gives("norm smaller", {}, [&] { vc_p_small(r, c, a, x); }); if (g_bools != std::vector<bool>{n < x, n < x, n > x}) FAIL("norm %g smaller than %g", n, x);
        gives("zero", {0}, [&] { vc_p_zero(r, c, x - n); }); if (g_bools != std::vector<bool>{0 > x - n, 0 < x - n}) FAIL("norm of zero compared with %g", x - n);
        D s = S.full(), d = q.A; for (size_t i = 0; i < s.size(); ++i) s[i] += q.A[i]; Buf<double> b(r * c); fill(b); for (size_t i = 0; i < d.size(); ++i) d[i] -= b[i];
        gives("norm of a sum", {n1(s)}, [&] { vc_p_sum(a, ARG(S)); });
        gives("norm of a difference", {n1(d)}, [&] { vc_p_diff(r, c, a, b); });
        a.same("matrix"); f.same("matrix");
    }
}
static void c14()
{
    while (more()) {
        In q; auto& a = q.a; auto& f = q.f; size_t r = q.r, c = q.c;
        Sps<double> S(r, c); Sps<float> T(r, c);
        int kind = R(0, 4); g_accept = [=](double x) { switch (kind) { case 0: return true; case 1: return false; case 2: return x > 0; case 3: return ((long)x & 1) != 0; default: return x != 0; } };
        ADD(" accept=%d", kind);
        auto cnt = [&](D const& v) { long n = 0; for (double x : v) n += g_accept(x); return n; };
        gives("count", {}, [&] { vc_cnt_d(r, c, a); }); ints("double", {cnt(q.A)});
        gives("count", {}, [&] { vc_cnt_f(r, c, f); }); ints("float", {cnt(q.F)});
        gives("count", {}, [&] { vc_cnt_r(r, c, a); }); ints("row-major", {cnt(q.A)});
        gives("count", {}, [&] { vc_cnt_v(r, c, a, q.vr, q.vn, q.br, q.bc); }); ints("view", {cnt(q.V)});
        gives("count", {}, [&] { vc_cnt_s(ARG(S)); }); ints("sparse", {cnt(S.values())});
        gives("count", {}, [&] { vc_cnt_sf(ARG(T)); }); ints("float sparse", {cnt(T.values())});
        gives("zero", {0}, [&] { vc_cnt_z(r, c); }); ints("zero", {0});
        double lo = R(0, 5), hi = lo + R(1, 6); ADD(" (%g,%g]", lo, hi);
        auto N = [&](D const& v, double l, double h) { long n = 0; for (double x : v) n += std::fabs(x) > l && std::fabs(x) <= h; return n; };
        const double inf = INFINITY;
        if (r * c) {
            double w = r * c;
            gives("occupation", {N(q.A, lo, inf) / w}, [&] { vc_occ_d(r, c, a, lo); }); ints("occupation", {N(q.A, lo, inf)});
            gives("float occupation", {N(q.F, lo, hi) / w}, [&] { vc_occ_f(r, c, f, lo, hi); }); ints("float occupation", {N(q.F, lo, hi)});
            gives("sparse occupation", {N(S.values(), lo, hi) / w}, [&] { vc_occ_s(ARG(S), lo, hi); }); ints("sparse occupation", {N(S.values(), lo, hi)});
            double o = N(q.A, lo, inf) / w, x = R(0, 2) ? o : o + R(-1, 1) * 0.125; ADD(" limit %g", x);
            gives("compare", {}, [&] { vc_occ_large(r, c, a, x, lo); }); if (g_bools != std::vector<bool>{o > x, o < x}) FAIL("occupation %g compared with %g", o, x);
        }
        if (q.vr * q.vn) { gives("view occupation", {N(q.V, lo, inf) / double(q.vr * q.vn)}, [&] { vc_occ_v(r, c, a, q.vr, q.vn, q.br, q.bc, lo); }); ints("view occupation", {N(q.V, lo, inf)}); }
        gives("many", {}, [&] { vc_occ_many(r, c, a, lo, hi); });
        ints("several tests", {N(q.A, lo, inf), N(q.A, lo, hi), N(q.A, hi, inf), N(q.A, lo, inf), N(q.A, lo, hi), N(q.A, hi, inf)});
        double x = R(-1, 1); gives("zero", {}, [&] { vc_occ_zero(x); }); if (g_bools != std::vector<bool>{0 > x, 0 < x}) FAIL("occupation of zero compared with %g", x);
        a.same("matrix"); f.same("matrix");
    }
}
int main(int argc, char** argv) { return drv_main(argc, argv, {{"C13", c13}, {"C14", c14}}); }
