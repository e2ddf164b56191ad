// flags: -I$REPO/src
// link: $VERIF/driver/blas_mkl.cpp $VERIF/driver/blas_stubs.cpp
#include "drv.h"
#include "openblas.cpp"
#include "blas_stubs.h"
#undef BLAS
#undef CDOT
#undef SPBLAS
#define BLAS(N, R, P, A, K) extern "C" R vc_mkl_##N P;
#define CDOT BLAS
#define SPBLAS BLAS
#include "blas_list.h"
extern "C" void vc_mkl_threads(int n);
static char g_cells[32][16];
struct P { int i; template <class T> operator T*() const { return (T*)g_cells[i]; } };
template <class T> static void eq(T x) { if (double(x) != double(T(g_re))) FAIL("result %g is not the routine's %g", double(x), g_re); }
template <class T> static void eq(std::complex<T> x) { if (x != std::complex<T>(T(g_re), T(g_im))) FAIL("result (%g,%g) is not the routine's", double(x.real()), double(x.imag())); }
template <class R, class F> struct Run { static void go(F f) { eq(f()); } };
template <class F> struct Run<void, F> { static void go(F f) { f(); } };
template <class Ret, class F> static void one(const char* lib, const char* n, int k, F f)
{
    CASE("%s %s", lib, n);
    g_ncalls = 0; g_routine = ""; g_re = double(R(1, 1000)); g_im = double(R(1, 1000));
    memset(g_cells, 7, sizeof g_cells);
    Run<Ret, F>::go(f);
    if (g_ncalls != 1) FAIL("%d calls", g_ncalls);
    if (strcmp(g_routine, n)) FAIL("calls %s", g_routine);
    for (int i = 0; i < k; ++i) if (g_args[i] != g_cells[i]) FAIL("argument %d is not passed on unchanged", i);
    for (auto& r : g_cells) for (char c : r) if (c != 7) FAIL("writes to an argument");
}
#undef BLAS
#undef CDOT
#undef SPBLAS
static const P v0{0}, v1{1}, v2{2}, v3{3}, v4{4}, v5{5}, v6{6}, v7{7}, v8{8}, v9{9}, v10{10}, v11{11}, v12{12}, v13{13}, v14{14}, v15{15}, v16{16}, v17{17};
static void all()
{
#define MKL_(N, R, P, A, K) { auto f = [] { return vc_mkl_##N A; }; one<R, decltype(f)>("MKL", #N, K, f); }
#define BLAS(N, R, P, A, K) { auto f = [] { return vc_open_##N A; }; one<R, decltype(f)>("OpenBLAS", #N, K, f); } MKL_(N, R, P, A, K)
#define CDOT BLAS
#define SPBLAS MKL_
#include "blas_list.h"
}
static void c20()
{
    while (more()) {
        all();
        int n = R(0, 1000); CASE("threads %d", n);
        g_ncalls = 0; vc_open_threads(n); if (g_ncalls != 1 || g_n != n) FAIL("OpenBLAS threads");
        g_ncalls = 0; vc_mkl_threads(n); if (g_ncalls != 1 || g_n != n) FAIL("MKL threads");
    }
}
int main(int c, char** v) { return drv_main(c, v, {{"C20", c20}}); }
