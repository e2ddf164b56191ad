// expanded matrices and what is seen of sparse results
#pragma once
template <class T> static void taken(const T* v, const size_t* k, const size_t* o, size_t n, size_t no, size_t r, size_t c, size_t s)
{
    if (s != r * c) FAIL("size %zu of %zu x %zu", s, r, c);
    if (no != c + 1) FAIL("%zu offsets for %zu columns", no, c);
    if (o[0] != 0 || o[c] != n) FAIL("offsets from %zu to %zu for %zu elements", o[0], o[c], n);
    Seen x{r, c, s, std::vector<double>(r * c, 0), {}, {}};
    for (size_t j = 0; j < c; ++j) { if (o[j] > o[j + 1]) FAIL("offsets fall in column %zu", j);
        for (size_t p = o[j]; p < o[j + 1]; ++p) { if (k[p] >= r) FAIL("row %zu of %zu", k[p], r); if (p > o[j] && k[p] <= k[p - 1]) FAIL("rows of column %zu do not rise", j); x.v[k[p] + j * r] += v[p]; } }
    g_sp.push_back(x);
}
extern "C" void vc_sparse(const double* v, const size_t* k, const size_t* o, size_t n, size_t no, size_t r, size_t c, size_t s) { taken(v, k, o, n, no, r, c, s); }
extern "C" void vc_sparsef(const float* v, const size_t* k, const size_t* o, size_t n, size_t no, size_t r, size_t c, size_t s) { taken(v, k, o, n, no, r, c, s); }
typedef std::vector<double> D;
template <class T> struct Sps { size_t r, c, n; std::vector<T> v; std::vector<size_t> k, o; Buf<T>* bv; Buf<size_t> *bk, *bo;
    Sps(const char* nm, size_t r, size_t c) : r(r), c(c) { o.push_back(0); int d = R(0, 4); for (size_t j = 0; j < c; ++j) { for (size_t i = 0; i < r; ++i) if (R(0, 3) < d) v.push_back(T(R(-9, 9))), k.push_back(i); o.push_back(v.size()); } n = v.size(); bv = new Buf<T>(v); bk = new Buf<size_t>(k); bo = new Buf<size_t>(o); show(nm, *bv); show("rows", *bk); show("starts", *bo); }
    ~Sps() { delete bv; delete bk; delete bo; }
    void same(const char* what) { bv->same(what); bk->same(what); bo->same(what); }
    D full() const { D f(r * c, 0); for (size_t j = 0; j < c; ++j) for (size_t p = o[j]; p < o[j + 1]; ++p) f[k[p] + j * r] += v[p]; return f; } };
#define ARG(A) A.r, A.c, *A.bv, *A.bk, *A.bo, A.n
#define ARB(A) *A.bv, *A.bk, *A.bo, A.n
struct M { size_t r, c; D v; };
static M operator+(M a, M const& b) { for (size_t i = 0; i < a.v.size(); ++i) a.v[i] += b.v[i]; return a; }
static M operator-(M a, M const& b) { for (size_t i = 0; i < a.v.size(); ++i) a.v[i] -= b.v[i]; return a; }
static M operator*(M const& a, M const& b) { M c{a.r, b.c, D(a.r * b.c, 0)}; for (size_t j = 0; j < b.c; ++j) for (size_t l = 0; l < a.c; ++l) for (size_t i = 0; i < a.r; ++i) c.v[i + j * a.r] += a.v[i + l * a.r] * b.v[l + j * b.r]; return c; }
static M neg(M a) { for (double& x : a.v) x = 0 - x; return a; }
template <class T> static M dense(size_t r, size_t c, Buf<T>& b) { return {r, c, D(b.copy.begin(), b.copy.end())}; }
template <class T> static M full(Sps<T> const& s) { return {s.r, s.c, s.full()}; }
static void is(const char* what, Seen const& s, M const& w)
{
    if (s.r != w.r || s.c != w.c) FAIL("%s: shape %zu x %zu, expected %zu x %zu", what, s.r, s.c, w.r, w.c);
    if (s.s != w.r * w.c) FAIL("%s: size %zu", what, s.s);
    for (size_t j = 0; j < w.c; ++j) for (size_t i = 0; i < w.r; ++i) if (s.v[i + j * w.r] != w.v[i + j * w.r]) FAIL("%s: element (%zu,%zu) is %.17g, expected %.17g", what, i, j, s.v[i + j * w.r], w.v[i + j * w.r]);
}
