// algebra of matrices whose type is known at run time only
#include "sparse.h"
#include "BlasBooster/Core/MatrixMultExp.h"
typedef Matrix<Zero> MZ;
typedef MultipleMatrix<SD, MF> MM; typedef MultipleMatrix<SD, SF> MS2;
#define KEEP(T, P) std::shared_ptr<T>(std::shared_ptr<void>(), P)
// one operand of every type over the same data
struct Kinds {
    Sp<double> s; Sp<float> u; MF f; MD a; MZ z; MM m; MS2 n;
    Kinds(size_t r, size_t c, double* v, size_t* k, size_t* o, size_t n1, float* w, size_t* l, size_t* q, size_t n2, float* f_, double* a_)
     : s(r, c, v, k, o, n1), u(r, c, w, l, q, n2), f(r, c, f_), a(r, c, a_), z(r, c), m(KEEP(SD, &s), KEEP(MF, &f)), n(KEEP(SD, &s), KEEP(SF, &u)) {}
    DynamicMatrix of(int t) { switch (t) { case 0: return KEEP(MZ, &z); case 1: return KEEP(SF, &u); case 2: return KEEP(MF, &f); case 3: return KEEP(SD, &s); case 4: return KEEP(MS2, &n); case 5: return KEEP(MM, &m); default: return KEEP(MD, &a); } }
};
static void show_dyn(DynamicMatrix const& x)
{
    vc_int(x->getTypeIndex());
    switch (x->getTypeIndex()) {
    case 0: { auto& y = static_cast<MZ const&>(*x); vc_counts(y.getNbRows(), y.getNbColumns(), y.getSize(), 0); } break;
    case 1: outsf(static_cast<SF const&>(*x)); break;
    case 2: outf(static_cast<MF const&>(*x)); break;
    case 3: outs(static_cast<SD const&>(*x)); break;
    case 6: out(static_cast<MD const&>(*x)); break; }
}
#define OPERAND(X) size_t r##X, size_t c##X, double *v##X, size_t *k##X, size_t *o##X, size_t n##X, float *w##X, size_t *l##X, size_t *q##X, size_t m##X, float *f##X, double *a##X
#define MK(X) Kinds K##X(r##X, c##X, v##X, k##X, o##X, n##X, w##X, l##X, q##X, m##X, f##X, a##X)
ENTRY vc_dyn_add(int s, int t, OPERAND(1), OPERAND(2)) { MK(1); MK(2); DynamicMatrix a = K1.of(s), b = K2.of(t); show_dyn(a + b); }
ENTRY vc_dyn_sub(int s, int t, OPERAND(1), OPERAND(2)) { MK(1); MK(2); DynamicMatrix a = K1.of(s), b = K2.of(t); show_dyn(a - b); }
ENTRY vc_dyn_mul(int s, int t, OPERAND(1), OPERAND(2)) { MK(1); MK(2); DynamicMatrix a = K1.of(s), b = K2.of(t); show_dyn((a * b).execute<Native>()); }
ENTRY vc_dyn_add_to(int s, int t, OPERAND(1), OPERAND(2)) { MK(1); MK(2); DynamicMatrix a = K1.of(s), b = K2.of(t); DynamicMatrix c = (a += b); vc_bool(c == a); show_dyn(a); }
ENTRY vc_dyn_sub_to(int s, int t, OPERAND(1), OPERAND(2)) { MK(1); MK(2); DynamicMatrix a = K1.of(s), b = K2.of(t); DynamicMatrix c = (a -= b); vc_bool(c == a); show_dyn(a); }
