// algebra of matrices whose type is known at run time only
// flags: -fno-sanitize=null
#include "hooks.h"
extern "C" bool vc_accept(double) { return true; }
static std::vector<Seen> g_sp;
#include "dynalg.cpp"
#include "algebra.h"
struct Op { size_t r, c; Sps<double> s; Sps<float> u; Buf<float> f; Buf<double> a; M v[7];
    Op(const char* nm, size_t r, size_t c) : r(r), c(c), s((ADD(" %s:", nm), "s"), r, c), u("u", r, c), f(r * c), a(r * c) { fill(f); fill(a); show("f", f); show("a", a); M S = full(s), U = full(u), F = dense(r, c, f), A = dense(r, c, a); v[0] = {r, c, D(r * c, 0)}; v[1] = U; v[2] = F; v[3] = S; v[4] = S + U; v[5] = S + F; v[6] = A; }
    void same(const char* w) { s.same(w); u.same(w); f.same(w); a.same(w); }
    void back() { for (size_t i = 0; i < f.n; ++i) f[i] = f.copy[i], a[i] = a.copy[i]; } };
#define ARGO(x) x.r, x.c, *x.s.bv, *x.s.bk, *x.s.bo, x.s.n, *x.u.bv, *x.u.bk, *x.u.bo, x.u.n, x.f, x.a
static const char* KIND[] = {"zero", "sparse float", "dense float", "sparse double", "sparse double + sparse float", "sparse double + dense float", "dense double"};
template <class F> static void gives(const char* what, int s, int t, M const& w, F f)
{
    reset(); g_keep = true; std::vector<Seen>().swap(g_hist); std::vector<Seen>().swap(g_sp); g_ints.reserve(16); g_counts.reserve(16); g_bools.reserve(64);
    char b[256]; snprintf(b, sizeof b, "%s %s %s", KIND[s], what, KIND[t]); ADD("\n%s", b);
    f();
    if (g_ints.size() != 1) FAIL("%s: %zu results", b, g_ints.size());
    if (g_ints[0] == 0) { if (g_counts.size() != 1 || g_counts[0][0] != w.r || g_counts[0][1] != w.c) FAIL("%s: zero matrix of a wrong shape", b); for (double x : w.v) if (x != 0) FAIL("%s: a zero matrix instead of %.17g", b, x); return; }
    if (g_hist.size() + g_sp.size() != 1) FAIL("%s: %zu results", b, g_hist.size() + g_sp.size());
    is(b, g_hist.size() ? g_hist[0] : g_sp[0], w);
}
static void c11()
{
    while (more()) {
        size_t r = Z(4), c = Z(4), h = Z(4); CASE("%zu x %zu, %zu", r, c, h);
        Op A("A", r, c), B("B", r, c), C("C", c, h);
        size_t base = strlen(g_case);
        for (int s = 0; s < 7; ++s) for (int t = 0; t < 7; ++t) {
            g_case[base] = 0;
            if (s || t) ++g_cases;
            gives("+", s, t, A.v[s] + B.v[t], [&] { vc_dyn_add(s, t, ARGO(A), ARGO(B)); });
            gives("-", s, t, A.v[s] - B.v[t], [&] { vc_dyn_sub(s, t, ARGO(A), ARGO(B)); });
            gives("*", s, t, A.v[s] * C.v[t], [&] { vc_dyn_mul(s, t, ARGO(A), ARGO(C)); });
            A.same("left operand"); B.same("right operand"); C.same("right factor");
            if (s == 2 || s == 6 || (t == 0 && s != 4 && s != 5)) {
                gives("+=", s, t, A.v[s] + B.v[t], [&] { vc_dyn_add_to(s, t, ARGO(A), ARGO(B)); if (g_bools != std::vector<bool>{true}) FAIL("assignment gives its left operand"); }); A.back();
                gives("-=", s, t, A.v[s] - B.v[t], [&] { vc_dyn_sub_to(s, t, ARGO(A), ARGO(B)); }); A.back();
                A.same("left operand"); B.same("right operand");
            }
        }
        g_case[base] = 0;
    }
}
int main(int argc, char** argv) { return drv_main(argc, argv, {{"C11", c11}}); }
