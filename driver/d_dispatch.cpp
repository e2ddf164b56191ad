#include "hooks.h"
#include "dispatch.cpp"
#include "BlasBooster/Core/MatrixConverter.h"
#include "BlasBooster/Utilities/exec_dyn.h"
#include "BlasBooster/Utilities/exec_dyn_2dim.h"
static bool g_p[2][8];
static std::vector<std::array<int, 2>> g_acts; static long g_ret;
extern "C" {
bool vc_pred(int d, int i) { return g_p[d][i]; }
long vc_act(int i) { g_acts.push_back({i, -1}); return g_ret; }
long vc_act2(int i, int j) { g_acts.push_back({i, j}); return g_ret; }
}
template <class F> static void go(F f, int a, int b, bool res)
{
    reset(); g_acts.clear(); g_ret = R(-1000, 1000);
    bool thrown = false;
    try { f(); } catch (std::exception const&) { thrown = true; }
    if (a < 0) { if (!thrown || !g_acts.empty()) FAIL("%s, %zu actions, expected an error", thrown ? "error" : "no error", g_acts.size()); return; }
    if (thrown) FAIL("error");
    if (g_acts.size() != 1) FAIL("%zu actions", g_acts.size());
    if (g_acts[0][0] != a || g_acts[0][1] != b) FAIL("action for (%d,%d), expected (%d,%d)", g_acts[0][0], g_acts[0][1], a, b);
    if (res && (g_ints.size() != 1 || g_ints[0] != g_ret)) FAIL("result");
}
static int first(int d, int n) { for (int i = 0; i < n; ++i) if (g_p[d][i]) return i; return -1; }
static void lists()
{
    for (auto& r : g_p) { int k = R(1, 9); for (auto& x : r) x = R(0, k) == 0; }
    CASE("predicates"); for (auto& r : g_p) { ADD(" "); for (bool x : r) ADD("%d", x); }
    char* at = g_case + strlen(g_case);
#define RUN1(n) strcpy(at, " one " #n); go([] { vc_disp_##n(); }, first(0, n), -1, true); go([] { vc_dispv_##n(); }, first(0, n), -1, false);
    LISTS(RUN1)
#define RUN2(n) { strcpy(at, " two " #n); int i = first(0, n), j = first(1, n); if (i < 0 || j < 0) i = j = -1; go([] { vc_disp2_##n(); }, i, j, true); go([] { vc_dispv2_##n(); }, i, j, false); }
    RUN2(1) RUN2(2) RUN2(3) RUN2(4) RUN2(5) RUN2(6) RUN2(7)
}
// tables
template <class... X> struct Ex1;
template <class X, class T> struct Ex1<X, T> { long operator()(DynamicMatrix const& p) const { if (dynamic_cast<T const*>(p.get()) == nullptr) FAIL("matrix of another type"); return vc_act(Nr::of((T*)0)); } };
template <class... X> struct Ex2;
template <class X, class T, class U> struct Ex2<X, T, U> { long operator()(DynamicMatrix const& p, DynamicMatrix const& q) const {
    if (dynamic_cast<T const*>(p.get()) == nullptr || dynamic_cast<U const*>(q.get()) == nullptr) FAIL("matrix of another type");
    return vc_act2(Nr::of((T*)0), Nr::of((U*)0)); } };
static DynamicMatrix make(int i)
{
    switch (i) {
    case 0: return DynamicMatrix(new Matrix<Zero>(2, 2));
    case 1: return DynamicMatrix(new Matrix<Sparse, float>());
    case 2: return DynamicMatrix(new Matrix<Dense, float>(2, 2));
    case 3: return DynamicMatrix(new Matrix<Sparse, double>());
    case 4: return DynamicMatrix(new MultipleMatrix<Matrix<Sparse, double>, Matrix<Sparse, float>>());
    case 5: return DynamicMatrix(new MultipleMatrix<Matrix<Sparse, double>, Matrix<Dense, float>>());
    default: return DynamicMatrix(new Matrix<Dense, double>(2, 2)); }
}
static void tables()
{
    for (int i = 0; i < 7; ++i) {
        DynamicMatrix a = make(i);
        CASE("table %d", i);
        go([&] { vc_int(exec_dyn<DynamicMatrixTypeList, Ex1, TypeList<int>, std::function<long (DynamicMatrix const&)>>(a)); }, i, -1, true);
        go([&] { vc_int(exec_if<DynamicMatrixTypeList>(TypeChecker(a->getTypeIndex()), ActM())); }, i, -1, true);
        for (int j = 0; j < 7; ++j) {
            DynamicMatrix b = make(j);
            CASE("table %d %d", i, j);
            go([&] { vc_int(exec_dyn_2dim<DynamicMatrixTypeList, Ex2, TypeList<int>, std::function<long (DynamicMatrix const&, DynamicMatrix const&)>>(a, b)); }, i, j, true);
        }
    }
    for (size_t i = 0; i < 9; ++i) {
        CASE("number %zu", i); go([&] { vc_disp_matrix(i); }, i < 7 ? i : -1, -1, true);
        for (size_t j = 0; j < 9; ++j) { CASE("numbers %zu %zu", i, j); bool ok = i < 7 && j < 7; go([&] { vc_disp2_matrix(i, j); }, ok ? i : -1, ok ? j : -1, true); }
    }
}
static void c22() { tables(); for (int round = 0; more() || round < 1000; ++round) lists(); tables(); }
int main(int argc, char** argv) { return drv_main(argc, argv, {{"C22", c22}}); }
