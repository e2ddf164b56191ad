#include "hooks.h"
#include "range.cpp"
#include <limits>

template <class T> static T nxt(T x, int d) { return d ? std::nextafter(x, d > 0 ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity()) : x; }
template <class T> static T pick()
{
    typedef std::numeric_limits<T> L;
    switch (R(0, 11)) {
    case 0: return 0; case 1: return -T(0); case 2: return L::infinity(); case 3: return L::min(); case 4: return L::denorm_min(); case 5: return L::max();
    case 6: return -T(R(0, 3)) / 2; case 7: return std::ldexp(T(1), R(-60, 60));
    default: return T(R(0, 6)) / 2; }
}
template <class T> static T near(double b) { T x = nxt((T)b, R(-1, 1)); return R(0, 1) ? x : -x; }

static bool in(char lo, char hi, double l, double h, double x)
{
    double a = x < 0 ? -x : x;
    return (lo == 'x' ? a > l : a >= l) && (hi == 'n' || (hi == 'x' ? a < h : a <= h));
}
// 1/0: accepted or not; -1: bounds rejected
template <class F> static int ask(F f)
{
    reset();
    try { f(); } catch (CoreException&) { return g_bools.empty() ? -1 : -2; }
    return g_bools.size() == 1 ? g_bools[0] : -3;
}
template <class B, class X, class F> static void one(const char* nm, char lo, char hi, F f)
{
    B l = pick<B>(), h = pick<B>();
    if (R(0, 3) == 0) h = l; else if (R(0, 3) == 0) h = near<B>(l);
    X x = R(0, 1) ? pick<X>() : near<X>(R(0, 1) ? l : h);
    if (R(0, 3) == 0) x = -x;
    if (R(0, 19) == 0) x = std::numeric_limits<X>::quiet_NaN();
    if (R(0, 3) == 0) x = R(0, 1) ? (X)l : (X)h;
    CASE("%s bounds %a %a value %a", nm, (double)l, (double)h, (double)x);
    bool bad = l < 0 || (hi != 'n' && (h < 0 || (lo == 'i' && hi == 'i' ? l > h : l >= h)));
    int want = bad ? -1 : in(lo, hi, l, h, x), got = ask([&] { f(l, h, x); });
    if (want != got) FAIL("%s instead of %s", got == 1 ? "accepted" : got == 0 ? "not accepted" : got == -1 ? "bounds rejected" : "no answer", want == 1 ? "accepted" : want == 0 ? "not accepted" : "bounds rejected");
}
#define DO1(N, B, lo, hi) one<B, double>(#N, lo, hi, [](B l, B, double x) { vc_rt_##N##_d(l, x); }); one<B, float>(#N, lo, hi, [](B l, B, float x) { vc_rt_##N##_f(l, x); });
#define DO2(N, B, lo, hi) one<B, double>(#N, lo, hi, [](B l, B h, double x) { vc_rt_##N##_d(l, h, x); }); one<B, float>(#N, lo, hi, [](B l, B h, float x) { vc_rt_##N##_f(l, h, x); });
static void c15()
{
    while (more()) {
        DO1(en, double, 'x', 'n') DO2(ei, double, 'x', 'i') DO2(ii, double, 'i', 'i') DO2(ee, double, 'x', 'x')
        DO1(enf, float, 'x', 'n') DO2(eif, float, 'x', 'i') DO2(iif, float, 'i', 'i') DO2(eef, float, 'x', 'x')
        double x = R(0, 9) ? pick<double>() : NAN;
        CASE("default test, value %a", x);
        if (ask([&] { vc_rt_default(x); }) != in('x', 'n', 0, 0, x)) FAIL("wrong answer");
        one<double, double>("copy", 'i', 'i', [](double l, double h, double x) { vc_rt_copy(l, h, 0.5, 2, x); });
    }
}

static size_t g_id[4];
struct T { int k; double a, b; };
static T test()
{
    T t; t.k = R(0, 3);
    do { t.a = std::fabs(pick<double>()); t.b = std::fabs(pick<double>()); if (R(0, 2) == 0) t.a = R(0, 2), t.b = R(0, 3); if (R(0, 9) == 0) t.b = near<double>(t.a); }
    while (t.k == 0 ? false : t.k == 2 ? !(t.a <= t.b) : !(t.a < t.b));
    return t;
}
typedef void (*LessF)(double, double, double, double);
static const LessF LESSF[4][4] = {{vc_less_en_en, vc_less_en_ei, vc_less_en_ii, vc_less_en_ee}, {vc_less_ei_en, vc_less_ei_ei, vc_less_ei_ii, vc_less_ei_ee},
    {vc_less_ii_en, vc_less_ii_ei, vc_less_ii_ii, vc_less_ii_ee}, {vc_less_ee_en, vc_less_ee_ei, vc_less_ee_ii, vc_less_ee_ee}};
static bool less(T const& x, T const& y)
{
    int r = ask([&] { LESSF[x.k][y.k](x.a, x.b, y.a, y.b); });
    if (r < 0) FAIL("no answer");
    if (g_counts.size() != 1 || g_counts[0][0] != g_id[x.k] || g_counts[0][1] != g_id[y.k]) FAIL("kind numbers");
    bool want = g_id[x.k] != g_id[y.k] ? g_id[x.k] < g_id[y.k] : x.a < y.a || (x.k && x.a == y.a && x.b < y.b);
    if (r != want) FAIL("order is %d instead of %d", r, want);
    return r;
}
static void c16()
{
    reset(); CASE("kinds"); vc_kind_ids();
    for (int i = 0; i < 4; ++i) { g_id[i] = g_counts.at(0)[i]; for (int j = 0; j < i; ++j) if (g_id[i] == g_id[j]) FAIL("kinds %d and %d have the same number", i, j); }
    while (more()) {
        T t[3] = {test(), test(), test()};
        if (R(0, 3) == 0) t[1].k = t[2].k = t[0].k, t[1] = R(0, 1) ? t[0] : t[1], t[2].k = t[1].k = t[0].k;
        for (auto& x : t) if (x.k == 2 ? x.a > x.b : x.k && x.a >= x.b) x.b = x.a + 1;
        for (auto& x : t) if (x.k && x.k != 2 && !(x.a < x.b)) x.a = 0, x.b = 1;
        CASE("tests (%d %a %a) (%d %a %a) (%d %a %a)", t[0].k, t[0].a, t[0].b, t[1].k, t[1].a, t[1].b, t[2].k, t[2].a, t[2].b);
        bool ab = less(t[0], t[1]), ba = less(t[1], t[0]), bc = less(t[1], t[2]), ac = less(t[0], t[2]), aa = less(t[0], t[0]);
        if (aa) FAIL("a test is before itself");
        if (ab && ba) FAIL("both are first");
        if (ab && bc && !ac) FAIL("not transitive");
        if (t[0].k == 1 && t[1].k == 1) {
            int r = ask([&] { vc_less_ptr(t[0].a, t[0].b, t[1].a, t[1].b); });
            if (r != ab) FAIL("through pointers: %d instead of %d", r, ab);
        }
    }
}
int main(int c, char** v) { return drv_main(c, v, {{"C15", c15}, {"C16", c16}}); }
