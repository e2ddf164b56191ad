// zero and composite matrices in algebra
#include "sparse.h"
#include "BlasBooster/Core/MatrixMultExp.h"
typedef Matrix<Zero> MZ;
typedef MultipleMatrix<SD, MF> MM; typedef MultipleMatrix<SD, SF> MS2; typedef MultipleMatrix<MD, SD> MDS;
#define KEEP(T, P) std::shared_ptr<T>(std::shared_ptr<void>(), P)
#define RC size_t r, size_t c
#define OUTZ(C) vc_counts((C).getNbRows(), (C).getNbColumns(), (C).getSize(), 0)
// ---- zero
ENTRY vc_dz_add(RC, double* a) { MD A(r, c, a); MZ Z(r, c); MD C(A + Z); out(C); }
ENTRY vc_dz_sub(RC, double* a) { MD A(r, c, a); MZ Z(r, c); MD C(A - Z); out(C); }
ENTRY vc_zd_add(RC, double* a) { MD A(r, c, a); MZ Z(r, c); MD C(Z + A); out(C); }
ENTRY vc_zd_sub(RC, double* a) { MD A(r, c, a); MZ Z(r, c); MD C(Z - A); out(C); }
ENTRY vc_fz_add(RC, float* a) { MF A(r, c, a); MZ Z(r, c); MF C(A + Z); outf(C); }
ENTRY vc_zf_sub(RC, float* a) { MF A(r, c, a); MZ Z(r, c); MF C(Z - A); outf(C); }
ENTRY vc_dz_add_to(RC, double* a) { MD A(r, c, a); MZ Z(r, c); A += Z; out(A); }
ENTRY vc_dz_sub_to(RC, double* a) { MD A(r, c, a); MZ Z(r, c); A -= Z; out(A); }
ENTRY vc_sz_add(SPA(double)) { Sp<double> A(r, c, v, k, o, n); MZ Z(r, c); SD C(A.m() + Z); outs(C); }
ENTRY vc_sz_sub(SPA(double)) { Sp<double> A(r, c, v, k, o, n); MZ Z(r, c); SD C(A.m() - Z); outs(C); }
ENTRY vc_zs_add(SPA(double)) { Sp<double> A(r, c, v, k, o, n); MZ Z(r, c); SD C(Z + A.m()); outs(C); }
ENTRY vc_zs_sub(SPA(double)) { Sp<double> A(r, c, v, k, o, n); MZ Z(r, c); SD C(Z - A.m()); outs(C); }
ENTRY vc_zsf_sub(SPA(float)) { Sp<float> A(r, c, v, k, o, n); MZ Z(r, c); SF C(Z - A.m()); outsf(C); }
ENTRY vc_zz(RC, size_t d) { MZ A(r, c), B(r, c), D(c, d); MZ S(A + B); OUTZ(S); MZ T(A - B); OUTZ(T); A += B; OUTZ(A); A -= B; OUTZ(A); MZ P((A * D).execute<Native>()); OUTZ(P); }
ENTRY vc_dz_mul(RC, size_t d, double* a) { MD A(r, c, a); MZ Z(c, d); MZ C((A * Z).execute<Native>()); OUTZ(C); }
ENTRY vc_zd_mul(RC, size_t d, double* a) { MD A(r, c, a); MZ Z(d, r); MZ C((Z * A).execute<Native>()); OUTZ(C); }
ENTRY vc_sz_mul(SPA(double), size_t d) { Sp<double> A(r, c, v, k, o, n); MZ Z(c, d); MZ C((A.m() * Z).execute<Native>()); OUTZ(C); }
ENTRY vc_zs_mul(SPA(double), size_t d) { Sp<double> A(r, c, v, k, o, n); MZ Z(d, r); MZ C((Z * A.m()).execute<Native>()); OUTZ(C); }
ENTRY vc_z_dense(RC) { MZ Z(r, c); MD C(Z); out(C); }
ENTRY vc_z_from(RC, double* a) { MD A(r, c, a); MZ C(A); OUTZ(C); }
// ---- composite: sparse double + dense float, sparse double + sparse float
#define PAIR SPA(double), float* b
#define MKM Sp<double> S(r, c, v, k, o, n); MF D(r, c, b); MM M(KEEP(SD, &S), KEEP(MF, &D))
#define PAIR2 SPA(double), float *w, size_t *l, size_t *q, size_t p
#define MK2 Sp<double> S(r, c, v, k, o, n); Sp<float> D(r, c, w, l, q, p); MS2 M(KEEP(SD, &S), KEEP(SF, &D))
#define COMP(E, ARGS, MAKE) \
    ENTRY vc_##E##_dense ARGS { MAKE; MD C(M); out(C); } \
    ENTRY vc_##E##_shape ARGS { MAKE; OUTZ(M); vc_bool(&M.getMatrix1() == &S); vc_bool(&M.getMatrix2() == &D); }
#define COMPD(E, ARGS, MAKE) \
    ENTRY vc_d##E##_add ARGS { MAKE; MD A(r, c, a); MD C(A + M); out(C); } \
    ENTRY vc_##E##d_add ARGS { MAKE; MD A(r, c, a); MD C(M + A); out(C); } \
    ENTRY vc_d##E##_sub ARGS { MAKE; MD A(r, c, a); MD C(A - M); out(C); } \
    ENTRY vc_##E##d_sub ARGS { MAKE; MD A(r, c, a); MD C(M - A); out(C); } \
    ENTRY vc_d##E##_add_to ARGS { MAKE; MD A(r, c, a); A += M; out(A); } \
    ENTRY vc_d##E##_sub_to ARGS { MAKE; MD A(r, c, a); A -= M; out(A); }
COMP(m, (PAIR), MKM)
COMP(n, (PAIR2), MK2)
COMPD(m, (double* a, PAIR), MKM)
COMPD(n, (double* a, PAIR2), MK2)
ENTRY vc_sn_add(SPA(double), float *w, size_t *l, size_t *q, size_t p, double *x, size_t *y, size_t *z, size_t u) { MK2; Sp<double> A(r, c, x, y, z, u); SD C(A.m() + M); outs(C); }
ENTRY vc_ns_sub(SPA(double), float *w, size_t *l, size_t *q, size_t p, double *x, size_t *y, size_t *z, size_t u) { MK2; Sp<double> A(r, c, x, y, z, u); SD C(M - A.m()); outs(C); }
ENTRY vc_sn_sub(SPA(double), float *w, size_t *l, size_t *q, size_t p, double *x, size_t *y, size_t *z, size_t u) { MK2; Sp<double> A(r, c, x, y, z, u); SD C(A.m() - M); outs(C); }
// two composites
#define TWO SPA(double), float *b, double *x, size_t *y, size_t *z, size_t u, float *d
#define MKT MKM; Sp<double> S2(r, c, x, y, z, u); MF D2(r, c, d); MM N(KEEP(SD, &S2), KEEP(MF, &D2))
ENTRY vc_mm_add(TWO) { MKT; MD C(M + N); out(C); }
ENTRY vc_mm_sub(TWO) { MKT; MD C(M - N); out(C); }
#define TWO2 PAIR2, double *x, size_t *y, size_t *z, size_t u, float *d, size_t *e, size_t *f, size_t g
#define MKT2 MK2; Sp<double> S2(r, c, x, y, z, u); Sp<float> D2(r, c, d, e, f, g); MS2 N(KEEP(SD, &S2), KEEP(SF, &D2))
ENTRY vc_nn_add(TWO2) { MKT2; SD C(M + N); outs(C); }
ENTRY vc_nn_sub(TWO2) { MKT2; SD C(M - N); outs(C); }
// a dense first part takes part in assignments
#define PAIR3 SPA(double), double* b
#define MK3 Sp<double> S(r, c, v, k, o, n); MD D(r, c, b); MDS M(KEEP(MD, &D), KEEP(SD, &S))
ENTRY vc_ds_dense(PAIR3) { MK3; MD C(M); out(C); out(D); }
ENTRY vc_ds_add_d(PAIR3, double* a) { MK3; MD A(r, c, a); M += A; out(D); outs(S.m()); }
ENTRY vc_ds_sub_d(PAIR3, double* a) { MK3; MD A(r, c, a); M -= A; out(D); outs(S.m()); }
ENTRY vc_ds_add_to(PAIR3, double* a) { MK3; MD A(r, c, a); A += M; out(A); }
// products with a composite
ENTRY vc_dm_mul(size_t h, double* a, PAIR) { MKM; MD A(h, r, a); MD C((A * M).execute<Native>()); out(C); }
ENTRY vc_md_mul(size_t h, double* a, PAIR) { MKM; MD A(c, h, a); MD C((M * A).execute<Native>()); out(C); }
ENTRY vc_dn_mul(size_t h, double* a, PAIR2) { MK2; MD A(h, r, a); MD C((A * M).execute<Native>()); out(C); }
ENTRY vc_nd_mul(size_t h, double* a, PAIR2) { MK2; MD A(c, h, a); MD C((M * A).execute<Native>()); out(C); }
ENTRY vc_mm_mul(PAIR, size_t c2, double *x, size_t *y, size_t *z, size_t u, float *d) { MKM; Sp<double> S2(c, c2, x, y, z, u); MF D2(c, c2, d); MM N(KEEP(SD, &S2), KEEP(MF, &D2)); MD C((M * N).execute<Native>()); out(C); }
ENTRY vc_nn_mul(PAIR2, size_t c2, double *x, size_t *y, size_t *z, size_t u, float *d, size_t *e, size_t *f, size_t g) { MK2; Sp<double> S2(c, c2, x, y, z, u); Sp<float> D2(c, c2, d, e, f, g); MS2 N(KEEP(SD, &S2), KEEP(SF, &D2)); SD C((M * N).execute<Native>()); outs(C); }
