#include "sparse.h"
typedef Matrix<Dense, double, PS> SubD_;
// ---- C06 sparse to dense
ENTRY vc_exp_cc(SPA(double)) { Sp<double> A(r, c, v, k, o, n); MD B(A.m()); out(B); }
ENTRY vc_exp_cr(SPA(double)) { Sp<double> A(r, c, v, k, o, n); MDR B(A.m()); out(B); }
ENTRY vc_exp_rr(SPA(double)) { Sp<double, PR> A(r, c, v, k, o, n); MDR B(A.m()); out(B); }
ENTRY vc_exp_rc(SPA(double)) { Sp<double, PR> A(r, c, v, k, o, n); MD B(A.m()); out(B); }
ENTRY vc_exp_fd(SPA(float)) { Sp<float> A(r, c, v, k, o, n); MD B(A.m()); out(B); }
ENTRY vc_exp_ff(SPA(float)) { Sp<float> A(r, c, v, k, o, n); MF B(A.m()); outf(B); }
ENTRY vc_exp_df(SPA(double)) { Sp<double> A(r, c, v, k, o, n); MF B(A.m()); outf(B); }
// ---- C05 dense to sparse
ENTRY vc_sel_cc(size_t r, size_t c, double* a) { MD A(r, c, a); SD B(A, Accept()); outs(B); }
ENTRY vc_sel_df(size_t r, size_t c, double* a) { MD A(r, c, a); SF B(A, Accept()); outsf(B); }
ENTRY vc_sel_fd(size_t r, size_t c, float* a) { MF A(r, c, a); SD B(A, Accept()); outs(B); }
ENTRY vc_sel_ff(size_t r, size_t c, float* a) { MF A(r, c, a); SF B(A, Accept()); outsf(B); }
ENTRY vc_sel_rr(size_t r, size_t c, double* a) { MDR A(r, c, a); SDR B(A, Accept()); outs(B); }
ENTRY vc_sel_cr(size_t r, size_t c, double* a) { MD A(r, c, a); SDR B(A, Accept()); outs(B); }
ENTRY vc_sel_rc(size_t r, size_t c, double* a) { MDR A(r, c, a); SD B(A, Accept()); outs(B); }
ENTRY vc_sel_view(size_t R, size_t C, double* a, size_t r, size_t c, size_t br, size_t bc) { MD A(R, C, a); SubD_ S(A, r, c, br, bc); SD B(S, Accept()); outs(B); }
ENTRY vc_sel_viewf(size_t R, size_t C, double* a, size_t r, size_t c, size_t br, size_t bc) { MD A(R, C, a); SubD_ S(A, r, c, br, bc); SF B(S, Accept()); outsf(B); }
ENTRY vc_sel_default(size_t r, size_t c, double* a) { MD A(r, c, a); SD B(A); outs(B); }
ENTRY vc_sel_range(size_t r, size_t c, double* a, double lo, double hi) { MD A(r, c, a); SD B(A, AbsoluteValueRangeChecker<double, ExclusiveBound, InclusiveBound>(lo, hi)); outs(B); }
// ---- C08 products
#define SPB(T) T *w, size_t *l, size_t *q, size_t p
ENTRY vc_mul_sd(SPA(double), size_t d, double* b) { Sp<double> A(r, c, v, k, o, n); MD B(c, d, b); MD C(A.m() * B); out(C); }
ENTRY vc_mul_sdf(SPA(float), size_t d, float* b) { Sp<float> A(r, c, v, k, o, n); MF B(c, d, b); MF C(A.m() * B); outf(C); }
ENTRY vc_mul_sd_again(SPA(double), size_t d, double* b, size_t r2, size_t c2) { Sp<double> A(r, c, v, k, o, n); MD B(c, d, b), C(r2, c2); MultiplicationFunctor<Sparse,double,PC,Dense,double,PC,Dense,double,PC,Native>()(A.m(), B, C); out(C); }
ENTRY vc_mul_ds(size_t m, double* a, SPA(double)) { MD A(m, r, a); Sp<double> B(r, c, v, k, o, n); MD C(A * B.m()); out(C); }
ENTRY vc_mul_dsf(size_t m, float* a, SPA(float)) { MF A(m, r, a); Sp<float> B(r, c, v, k, o, n); MF C(A * B.m()); outf(C); }
ENTRY vc_mul_ds_again(size_t m, double* a, SPA(double), size_t r2, size_t c2) { MD A(m, r, a), C(r2, c2); Sp<double> B(r, c, v, k, o, n); MultiplicationFunctor<Dense,double,PC,Sparse,double,PC,Dense,double,PC,Native>()(A, B.m(), C); out(C); }
ENTRY vc_mul_ss(SPA(double), size_t d, SPB(double)) { Sp<double> A(r, c, v, k, o, n), B(c, d, w, l, q, p); SD C(A.m() * B.m()); outs(C); }
ENTRY vc_mul_ssf(SPA(float), size_t d, SPB(float)) { Sp<float> A(r, c, v, k, o, n), B(c, d, w, l, q, p); SF C(A.m() * B.m()); outsf(C); }
ENTRY vc_mul_ss_again(SPA(double), size_t d, SPB(double), size_t r2, size_t c2) { Sp<double> A(r, c, v, k, o, n), B(c, d, w, l, q, p); SD C(r2, c2); MultiplicationFunctor<Sparse,double,PC,Sparse,double,PC,Sparse,double,PC,Native>()(A.m(), B.m(), C); outs(C); }
// row-major operands
ENTRY vc_mul_sd_r(SPA(double), size_t d, double* b) { Sp<double, PR> A(r, c, v, k, o, n); MD B(c, d, b); MD C; MultiplicationFunctor<Sparse,double,PR,Dense,double,PC,Dense,double,PC,Native>()(A.m(), B, C); out(C); }
ENTRY vc_mul_ds_r(size_t m, double* a, SPA(double)) { MD A(m, r, a); Sp<double, PR> B(r, c, v, k, o, n); MD C; MultiplicationFunctor<Dense,double,PC,Sparse,double,PR,Dense,double,PC,Native>()(A, B.m(), C); out(C); }
ENTRY vc_mul_ss_r(SPA(double), size_t d, SPB(double)) { Sp<double, PR> A(r, c, v, k, o, n), B(c, d, w, l, q, p); SD C(A.m() * B.m()); outs(C); }
ENTRY vc_mul_ss_rrr(SPA(double), size_t d, SPB(double)) { Sp<double, PR> A(r, c, v, k, o, n), B(c, d, w, l, q, p); SDR C; MultiplicationFunctor<Sparse,double,PR,Sparse,double,PR,Sparse,double,PR,Native>()(A.m(), B.m(), C); outs(C); }
ENTRY vc_mul_sd_rrr(SPA(double), size_t d, double* b) { Sp<double, PR> A(r, c, v, k, o, n); MDR B(c, d, b), C; MultiplicationFunctor<Sparse,double,PR,Dense,double,PR,Dense,double,PR,Native>()(A.m(), B, C); out(C); }
ENTRY vc_mul_ds_rrr(size_t m, double* a, SPA(double)) { MDR A(m, r, a), C; Sp<double, PR> B(r, c, v, k, o, n); MultiplicationFunctor<Dense,double,PR,Sparse,double,PR,Dense,double,PR,Native>()(A, B.m(), C); out(C); }
ENTRY vc_mul_sd_rd(SPA(double), size_t d, double* b) { Sp<double> A(r, c, v, k, o, n); MDR B(c, d, b); MD C; MultiplicationFunctor<Sparse,double,PC,Dense,double,PR,Dense,double,PC,Native>()(A.m(), B, C); out(C); }
ENTRY vc_mul_ds_rd(size_t m, double* a, SPA(double)) { MDR A(m, r, a); Sp<double> B(r, c, v, k, o, n); MD C; MultiplicationFunctor<Dense,double,PR,Sparse,double,PC,Dense,double,PC,Native>()(A, B.m(), C); out(C); }
ENTRY vc_mul_sd_rres(SPA(double), size_t d, double* b) { Sp<double> A(r, c, v, k, o, n); MD B(c, d, b); MDR C; MultiplicationFunctor<Sparse,double,PC,Dense,double,PC,Dense,double,PR,Native>()(A.m(), B, C); out(C); }
ENTRY vc_mul_ds_rres(size_t m, double* a, SPA(double)) { MD A(m, r, a); MDR C; Sp<double> B(r, c, v, k, o, n); MultiplicationFunctor<Dense,double,PC,Sparse,double,PC,Dense,double,PR,Native>()(A, B.m(), C); out(C); }
ENTRY vc_mul_ss_ra(SPA(double), size_t d, SPB(double)) { Sp<double, PR> A(r, c, v, k, o, n); Sp<double> B(c, d, w, l, q, p); SD C; MultiplicationFunctor<Sparse,double,PR,Sparse,double,PC,Sparse,double,PC,Native>()(A.m(), B.m(), C); outs(C); }
ENTRY vc_mul_ss_rb(SPA(double), size_t d, SPB(double)) { Sp<double> A(r, c, v, k, o, n); Sp<double, PR> B(c, d, w, l, q, p); SD C; MultiplicationFunctor<Sparse,double,PC,Sparse,double,PR,Sparse,double,PC,Native>()(A.m(), B.m(), C); outs(C); }
// ---- C10 sums and differences
ENTRY vc_add_ss(SPA(double), SPB(double)) { Sp<double> A(r, c, v, k, o, n), B(r, c, w, l, q, p); SD C(A.m() + B.m()); outs(C); }
ENTRY vc_sub_ss(SPA(double), SPB(double)) { Sp<double> A(r, c, v, k, o, n), B(r, c, w, l, q, p); SD C(A.m() - B.m()); outs(C); }
ENTRY vc_add_ssf(SPA(float), SPB(float)) { Sp<float> A(r, c, v, k, o, n), B(r, c, w, l, q, p); SF C(A.m() + B.m()); outsf(C); }
ENTRY vc_sub_ssfd(SPA(float), SPB(double)) { Sp<float> A(r, c, v, k, o, n); Sp<double> B(r, c, w, l, q, p); SD C(A.m() - B.m()); outs(C); }
ENTRY vc_add_ds(double* a, SPA(double)) { MD A(r, c, a); Sp<double> B(r, c, v, k, o, n); MD C(A + B.m()); out(C); }
ENTRY vc_sub_ds(double* a, SPA(double)) { MD A(r, c, a); Sp<double> B(r, c, v, k, o, n); MD C(A - B.m()); out(C); }
ENTRY vc_add_sd(double* a, SPA(double)) { MD A(r, c, a); Sp<double> B(r, c, v, k, o, n); MD C(B.m() + A); out(C); }
ENTRY vc_sub_sd(double* a, SPA(double)) { MD A(r, c, a); Sp<double> B(r, c, v, k, o, n); MD C(B.m() - A); out(C); }
ENTRY vc_sub_sdf(float* a, SPA(float)) { MF A(r, c, a); Sp<float> B(r, c, v, k, o, n); MF C(B.m() - A); outf(C); }
ENTRY vc_sub_sfd(double* a, SPA(float)) { MD A(r, c, a); Sp<float> B(r, c, v, k, o, n); MD C(B.m() - A); out(C); }
ENTRY vc_addto_ds(double* a, SPA(double)) { MD A(r, c, a); Sp<double> B(r, c, v, k, o, n); A += B.m(); out(A); }
ENTRY vc_subto_ds(double* a, SPA(double)) { MD A(r, c, a); Sp<double> B(r, c, v, k, o, n); A -= B.m(); out(A); }
ENTRY vc_subto_dsf(float* a, SPA(float)) { MF A(r, c, a); Sp<float> B(r, c, v, k, o, n); A -= B.m(); outf(A); }
// row-major operands
ENTRY vc_add_ds_r(double* a, SPA(double)) { MDR A(r, c, a); Sp<double, PR> B(r, c, v, k, o, n); MDR C(A + B.m()); out(C); }
ENTRY vc_sub_ds_r(double* a, SPA(double)) { MDR A(r, c, a); Sp<double, PR> B(r, c, v, k, o, n); MDR C(A - B.m()); out(C); }
ENTRY vc_add_sd_r(double* a, SPA(double)) { MDR A(r, c, a); Sp<double, PR> B(r, c, v, k, o, n); MDR C(B.m() + A); out(C); }
ENTRY vc_sub_sd_r(double* a, SPA(double)) { MDR A(r, c, a); Sp<double, PR> B(r, c, v, k, o, n); MDR C(B.m() - A); out(C); }
ENTRY vc_addto_ds_r(double* a, SPA(double)) { MDR A(r, c, a); Sp<double, PR> B(r, c, v, k, o, n); A += B.m(); out(A); }
ENTRY vc_add_ss_r(SPA(double), SPB(double)) { Sp<double, PR> A(r, c, v, k, o, n), B(r, c, w, l, q, p); SDR C(A.m() + B.m()); outs(C); }
ENTRY vc_sub_ss_r(SPA(double), SPB(double)) { Sp<double, PR> A(r, c, v, k, o, n), B(r, c, w, l, q, p); SDR C(A.m() - B.m()); outs(C); }
// ---- C04 transposition
ENTRY vc_trs(SPA(double)) { Sp<double> A(r, c, v, k, o, n); SD B(transpose(A.m())); outs(B); }
ENTRY vc_trsf(SPA(float)) { Sp<float> A(r, c, v, k, o, n); SF B(transpose(A.m())); outsf(B); }
// ---- conversions between sparse matrices
ENTRY vc_conv_ss(SPA(double)) { Sp<double> A(r, c, v, k, o, n); SF B(A.m()); outsf(B); }
ENTRY vc_conv_scr(SPA(double)) { Sp<double> A(r, c, v, k, o, n); SDR B(A.m()); outs(B); }
ENTRY vc_conv_src(SPA(double)) { Sp<double, PR> A(r, c, v, k, o, n); SD B(A.m()); outs(B); }
