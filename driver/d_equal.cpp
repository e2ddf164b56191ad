#include "hooks.h"
#include "equal.cpp"
static double acc(char c) { return c == 'd' ? 1e-12 : c == 'f' ? 1e-4 : 0; }
static void answer(bool want) { if (g_bools.size() != 2) FAIL("no answer"); if (g_bools[0] != want || g_bools[1] == want) FAIL("equal %d notEqual %d, expected %d", (int)g_bools[0], (int)g_bools[1], (int)want); }
template <class T> static T num()
{
    switch (R(0, 7)) {
    case 0: return T(R(-9, 9));
    case 1: return std::numeric_limits<T>::infinity() * T(R(0, 1) ? 1 : -1);
    case 2: return std::numeric_limits<T>::quiet_NaN();
    case 3: return std::numeric_limits<T>::max();
    case 4: return T(-0.0);
    case 5: return std::numeric_limits<T>::denorm_min();
    default: return T(R(-1000000, 1000000)) / T(1000); }
}
// near the tolerance of either type
template <class T> static T near(double x) { static const double d[] = {0, 1e-13, 1e-12, 1.0000001e-12, 2e-12, 1e-8, 0.9999e-4, 1e-4, 1.0001e-4, 2e-4, 1}; return T(R(0, 9) == 0 ? double(num<T>()) : x + d[R(0, 10)] * (R(0, 1) ? 1 : -1)); }
template <class T, class U> static void one(const char* n, void (*f)(T, U))
{
    T a = num<T>(); U b = near<U>(a); if (R(0, 3) == 0) { a = 0; b = near<U>(0); }
    CASE("%s %.17g %.17g", n, (double)a, (double)b);
    reset(); f(a, b);
    bool want = std::fabs(a - b) <= std::max(acc(n[0]), acc(n[1]));
    if (g_bools.size() != 2 || g_bools[0] != want || g_bools[1] != want) FAIL("%d and exchanged %d, expected %d", (int)g_bools[0], (int)g_bools[1], (int)want);
}
template <class K> static void key(const char* n, void (*f)(K, K))
{
    K a = R(0, 3) ? K(R(0, 9)) : K(-R(0, 3)), b = R(0, 1) ? a : K(a + R(-2, 2));
    CASE("%s %zu %zu", n, (size_t)a, (size_t)b);
    reset(); f(a, b);
    if (g_bools[0] != (a == b) || g_bools[1] != (a == b)) FAIL("wrong answer");
}
template <class T, class U> static bool close(const char* k, Buf<T>& a, Buf<U>& b)
{
    if (a.n != b.n) return false;
    for (size_t i = 0; i < a.n; ++i) if (!((a[i] > b[i] ? a[i] - b[i] : b[i] - a[i]) <= std::max(acc(k[0]), acc(k[1])))) return false;
    return true;
}
template <class T, class U> static void mod(Buf<T>& a, Buf<U>& b)
{
    bool key = std::is_integral<T>::value;
    for (size_t i = 0; i < a.n; ++i) a[i] = key ? T(R(0, 20)) : T(R(-9, 9));
    for (size_t i = 0; i < b.n; ++i) b[i] = i < a.n ? U(a[i]) : U(R(0, 9));
    if (b.n && R(0, 2)) { size_t i = R(0, 3) ? (R(0, 1) ? b.n - 1 : 0) : R(0, b.n - 1); b[i] = key ? U(b[i] + R(-1, 1)) : R(0, 3) == 0 ? U(-b[i]) : near<U>(b[i]); }
    a.keep(); b.keep(); show("A", a); show("B", b);
}
template <class T, class U> static void sto(const char* n, void (*f)(T*, size_t, U*, size_t))
{
    size_t p = Z(6), q = R(0, 2) ? p : Z(6);
    CASE("storage %s %zu %zu", n, p, q);
    Buf<T> a(p); Buf<U> b(q); mod(a, b);
    reset(); f(a, p, b, q);
    a.same("left"); b.same("right");
    answer(close(n, a, b));
}
template <class T, class U> static void mat(const char* n, void (*f)(T*, size_t, size_t, U*, size_t, size_t))
{
    size_t r = Z(5), c = Z(5), s = R(0, 2) ? r : Z(5), d = R(0, 2) ? c : Z(5);
    if (R(0, 5) == 0) { s = c; d = r; }
    CASE("matrix %s %zux%zu %zux%zu", n, r, c, s, d);
    Buf<T> a(r * c); Buf<U> b(s * d); mod(a, b);
    reset(); f(a, r, c, b, s, d);
    answer(r == s && c == d && close(n, a, b));
}
template <class T, class U> static void spa(const char* n, void (*f)(T*, size_t*, size_t*, size_t, size_t, U*, size_t*, size_t*, size_t, size_t))
{
    size_t p = Z(4), q = R(0, 2) ? p : Z(4), o = Z(4), w = R(0, 2) ? o : Z(4);
    CASE("sparse %s %zu,%zu %zu,%zu", n, p, o, q, w);
    Buf<T> a(p); Buf<U> b(q); Buf<size_t> k(p), l(q), x(o), y(w);
    auto same = [](Buf<size_t>& u, Buf<size_t>& v) { for (size_t i = 0; i < u.n; ++i) u[i] = R(0, 9); for (size_t i = 0; i < v.n; ++i) v[i] = i < u.n ? u[i] : 0; show("k", u); show("k", v); };
    bool kind = R(0, 1);
    if (kind) { mod(k, l); same(x, y); for (size_t i = 0; i < p; ++i) a[i] = i; for (size_t i = 0; i < q; ++i) b[i] = i; }
    else if (R(0, 1)) { same(k, l); same(x, y); mod(a, b); }
    else { mod(x, y); same(k, l); for (size_t i = 0; i < p; ++i) a[i] = i; for (size_t i = 0; i < q; ++i) b[i] = i; }
    reset(); f(a, k, x, p, o, b, l, y, q, w);
    answer(close(n, a, b) && close("kk", k, l) && close("kk", x, y));
}
static void c25()
{
    while (more()) {
        for (int k = 0; k < 50; ++k) { one("dd", vc_eq_dd); one("df", vc_eq_df); one("fd", vc_eq_fd); one("ff", vc_eq_ff); key("kk", vc_eq_kk); key("uu", vc_eq_uu); }
        sto("dd", vc_st_dd); sto("df", vc_st_df); sto("fd", vc_st_fd); sto("ff", vc_st_ff); sto("kk", vc_st_kk);
        mat("dd", vc_mt_dd); mat("df", vc_mt_df); mat("ff", vc_mt_ff); mat("dd", vc_mt_rr);
        spa("dd", vc_sp_dd); spa("df", vc_sp_df); spa("ff", vc_sp_ff);
    }
}
int main(int c, char** v) { return drv_main(c, v, {{"C25", c25}}); }
