#include "hooks.h"
#include "gemm.cpp"
static int g_calls;
static size_t g_m, g_k, g_n;
static const void *g_a, *g_b;
template <class T> static void gemm(char ta, char tb, int m, int n, int k, T al, const T* a, int la, const T* b, int lb, T be, T* c, int lc)
{
    ++g_calls;
    if (ta != 'N' || tb != 'N') FAIL("transposition %c %c", ta, tb);
    if (m != (int)g_m || n != (int)g_n || k != (int)g_k) FAIL("sizes %d %d %d", m, n, k);
    if (al != 1 || be != 0) FAIL("scales %g %g", (double)al, (double)be);
    if (la != (int)g_m || lb != (int)g_k || lc != (int)g_m) FAIL("leading dimensions %d %d %d", la, lb, lc);
    if (a != g_a || b != g_b) FAIL("other operands");
    for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) { T s = 0; for (int l = 0; l < k; ++l) s += a[i + l * la] * b[l + j * lb]; c[i + j * lc] = s; }
}
extern "C" {
void vc_dgemm(char ta, char tb, int m, int n, int k, double al, const double* a, int la, const double* b, int lb, double be, double* c, int lc) { gemm(ta, tb, m, n, k, al, a, la, b, lb, be, c, lc); }
void vc_sgemm(char ta, char tb, int m, int n, int k, float al, const float* a, int la, const float* b, int lb, float be, float* c, int lc) { gemm(ta, tb, m, n, k, al, a, la, b, lb, be, c, lc); }
}
template <class T, class F> static void one(const char* nm, F f)
{
    size_t m = g_m, k = g_k, n = g_n;
    Buf<T> a(m * k), b(k * n); fill(a); fill(b);
    CASE("%s m=%zu k=%zu n=%zu", nm, m, k, n); show("A", a); show("B", b);
    reset(); g_calls = 0; g_a = a.p; g_b = b.p;
    Allocs al;
    f(a, b);
    al.at += g_out.capacity() * sizeof(double); al.same();
    if (g_calls != 1) FAIL("%d calls", g_calls);
    a.same("A"); b.same("B");
    expect(m, n, false, [&](size_t i, size_t j) { double s = 0; for (size_t l = 0; l < k; ++l) s += double(a[i + l * m]) * double(b[l + j * k]); return s; });
    g_out = std::vector<double>();
}
#define MULD(P, T) \
    one<T>(#P "_fresh", [&](T* a, T* b) { P##_fresh(g_m, g_k, g_n, a, b); }); \
    one<T>(#P "_again", [&](T* a, T* b) { P##_again(g_m, g_k, g_n, a, b, r, c); }); \
    one<T>(#P "_expr", [&](T* a, T* b) { P##_expr(g_m, g_k, g_n, a, b); });
static void c21()
{
    for (int round = 0; more() || round < 60; ++round) {
        int mx = round < 40 ? 3 : 8;
        g_m = Z(mx); g_k = Z(mx); g_n = Z(mx); size_t r = R(0, mx), c = R(0, mx);
        if (round % 5 == 0) r = g_m, c = g_n;
        if (round % 5 == 1) r = g_n, c = g_m;
        MULD(vc_open_d, double) MULD(vc_open_s, float) MULD(vc_mkl_d, double) MULD(vc_mkl_s, float)
    }
}
int main(int argc, char** argv) { return drv_main(argc, argv, {{"C21", c21}}); }
