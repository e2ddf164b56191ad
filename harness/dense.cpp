#include "common.h"
#include "BlasBooster/Core/MatrixFiller.h"
#include "BlasBooster/Core/Transposition.h"
#include "BlasBooster/Core/Copy.h"

typedef Parameter<size_t, RowMajor> PRM;
typedef Matrix<Dense, float, PS> SubF;
typedef Matrix<Dense, float, PR> MFR;
template <class M> static inline void out(M const& C) { vc_dense(C.getDataPointer(), C.getNbRows(), C.getNbColumns(), C.getSize()); }
template <class M> static inline void outf(M const& C) { vc_densef(C.getDataPointer(), C.getNbRows(), C.getNbColumns(), C.getSize()); }

// ---- C01 element addressing
ENTRY vc_at_col(size_t r, size_t c, double* a, size_t i, size_t j) { MD A(r, c, a); vc_addr(&A(i, j)); }
ENTRY vc_at_col_const(size_t r, size_t c, double* a, size_t i, size_t j) { const MD A(r, c, a); vc_addr(&A(i, j)); }
ENTRY vc_at_colf(size_t r, size_t c, float* a, size_t i, size_t j) { MF A(r, c, a); vc_addr(&A(i, j)); }
ENTRY vc_at_row(size_t r, size_t c, double* a, size_t i, size_t j) { MDR A(r, c, a); vc_addr(&A(i, j)); }
ENTRY vc_at_row_const(size_t r, size_t c, double* a, size_t i, size_t j) { const MDR A(r, c, a); vc_addr(&A(i, j)); }
ENTRY vc_at_view(size_t R, size_t C, double* a, size_t r, size_t c, size_t br, size_t bc, size_t i, size_t j)
{ MD A(R, C, a); SubD S(A, r, c, br, bc); vc_addr(&S(i, j)); }
ENTRY vc_at_view_const(size_t R, size_t C, double* a, size_t r, size_t c, size_t br, size_t bc, size_t i, size_t j)
{ MD A(R, C, a); const SubD S(A, r, c, br, bc); vc_addr(&S(i, j)); }
ENTRY vc_at_viewf(size_t R, size_t C, float* a, size_t r, size_t c, size_t br, size_t bc, size_t i, size_t j)
{ MF A(R, C, a); SubF S(A, r, c, br, bc); vc_addr(&S(i, j)); }
ENTRY vc_at_view_of_view(size_t R, size_t C, double* a, size_t r, size_t c, size_t br, size_t bc,
    size_t r2, size_t c2, size_t br2, size_t bc2, size_t i, size_t j)
{ MD A(R, C, a); SubD S(A, r, c, br, bc); SubD S2(S, r2, c2, br2, bc2); vc_addr(&S2(i, j)); }
ENTRY vc_set(size_t r, size_t c, double* a, size_t i, size_t j, double x)
{ MD A(r, c, a); A(i, j) = x; out(A); }
ENTRY vc_ld(size_t R, size_t C, double* a, size_t r, size_t c, size_t br, size_t bc)
{ MD A(R, C, a); SubD S(A, r, c, br, bc); vc_counts(A.getLdRows(), A.getLdColumns(), S.getLdRows(), S.getLdColumns()); }

// ---- C09 element-wise
ENTRY vc_add(size_t m, size_t n, double* a, double* b) { MD A(m, n, a), B(m, n, b); MD C(A + B); out(C); }
ENTRY vc_sub(size_t m, size_t n, double* a, double* b) { MD A(m, n, a), B(m, n, b); MD C(A - B); out(C); }
ENTRY vc_addf(size_t m, size_t n, float* a, float* b) { MF A(m, n, a), B(m, n, b); MF C(A + B); outf(C); }
ENTRY vc_subf(size_t m, size_t n, float* a, float* b) { MF A(m, n, a), B(m, n, b); MF C(A - B); outf(C); }
ENTRY vc_addfd(size_t m, size_t n, float* a, double* b) { MF A(m, n, a); MD B(m, n, b); MD C(A + B); out(C); }
ENTRY vc_subfd(size_t m, size_t n, float* a, double* b) { MF A(m, n, a); MD B(m, n, b); MD C(A - B); out(C); }
ENTRY vc_adddf(size_t m, size_t n, double* a, float* b) { MD A(m, n, a); MF B(m, n, b); MD C(A + B); out(C); }
ENTRY vc_subdf(size_t m, size_t n, double* a, float* b) { MD A(m, n, a); MF B(m, n, b); MD C(A - B); out(C); }
ENTRY vc_addr_(size_t m, size_t n, double* a, double* b) { MDR A(m, n, a), B(m, n, b); MDR C(A + B); out(C); }
ENTRY vc_subr(size_t m, size_t n, double* a, double* b) { MDR A(m, n, a), B(m, n, b); MDR C(A - B); out(C); }
ENTRY vc_addto(size_t m, size_t n, double* a, double* b) { MD A(m, n, a), B(m, n, b); A += B; out(A); }
ENTRY vc_subto(size_t m, size_t n, double* a, double* b) { MD A(m, n, a), B(m, n, b); A -= B; out(A); }
ENTRY vc_addtof(size_t m, size_t n, float* a, float* b) { MF A(m, n, a), B(m, n, b); A += B; outf(A); }
ENTRY vc_subtof(size_t m, size_t n, float* a, float* b) { MF A(m, n, a), B(m, n, b); A -= B; outf(A); }
ENTRY vc_addtodf(size_t m, size_t n, double* a, float* b) { MD A(m, n, a); MF B(m, n, b); A += B; out(A); }
ENTRY vc_subtodf(size_t m, size_t n, double* a, float* b) { MD A(m, n, a); MF B(m, n, b); A -= B; out(A); }
ENTRY vc_subtor(size_t m, size_t n, double* a, double* b) { MDR A(m, n, a), B(m, n, b); A -= B; out(A); }
ENTRY vc_addtor(size_t m, size_t n, double* a, double* b) { MDR A(m, n, a), B(m, n, b); A += B; out(A); }
ENTRY vc_addself(size_t m, size_t n, double* a) { MD A(m, n, a); A += A; out(A); }
ENTRY vc_subself(size_t m, size_t n, double* a) { MD A(m, n, a); MD C(A - A); out(C); }

ENTRY vc_subselfto(size_t m, size_t n, double* a) { MD A(m, n, a); A -= A; out(A); }
ENTRY vc_add_again(size_t m, size_t n, double* a, double* b, size_t r, size_t c) { MD A(m, n, a), B(m, n, b), C(r, c); BinaryOperationFunctor<Plus,Dense,double,PC,Dense,double,PC,Dense,double,PC>()(A, B, C); out(C); }
ENTRY vc_sub_again(size_t m, size_t n, double* a, double* b, size_t r, size_t c) { MD A(m, n, a), B(m, n, b), C(r, c); BinaryOperationFunctor<Minus,Dense,double,PC,Dense,double,PC,Dense,double,PC>()(A, B, C); out(C); }
ENTRY vc_sub_inplace(size_t m, size_t n, double* a, double* b) { MD A(m, n, a), B(m, n, b); BinaryOperationFunctor<Minus,Dense,double,PC,Dense,double,PC,Dense,double,PC>()(A, B, A); out(A); }
ENTRY vc_sub_assign(size_t m, size_t n, double* a, double* b, size_t r, size_t c) { MD A(m, n, a), B(m, n, b), C(r, c); C = A - B; out(C); }

// ---- C03 conversions
ENTRY vc_conv_copy(size_t m, size_t n, double* a) { MD A(m, n, a); MD B(A); out(B); }
ENTRY vc_conv_df(size_t m, size_t n, double* a) { MD A(m, n, a); MF B(A); outf(B); }
ENTRY vc_conv_fd(size_t m, size_t n, float* a) { MF A(m, n, a); MD B(A); out(B); }
ENTRY vc_conv_cr(size_t m, size_t n, double* a) { MD A(m, n, a); MDR B(A); out(B); }
ENTRY vc_conv_rc(size_t m, size_t n, double* a) { MDR A(m, n, a); MD B(A); out(B); }
ENTRY vc_conv_crf(size_t m, size_t n, double* a) { MD A(m, n, a); MFR B(A); outf(B); }
ENTRY vc_conv_view(size_t R, size_t C, double* a, size_t r, size_t c, size_t br, size_t bc)
{ MD A(R, C, a); SubD S(A, r, c, br, bc); MD B(S); out(B); }
ENTRY vc_conv_viewf(size_t R, size_t C, double* a, size_t r, size_t c, size_t br, size_t bc)
{ MD A(R, C, a); SubD S(A, r, c, br, bc); MF B(S); outf(B); }
ENTRY vc_copy(size_t m, size_t n, double* a, double* b) { MD A(m, n, a), B(m, n, b); copy(A, B); out(B); }
ENTRY vc_copy_cr(size_t m, size_t n, double* a, double* b) { MD A(m, n, a); MDR B(m, n, b); copy(A, B); out(B); }
ENTRY vc_copy_df(size_t m, size_t n, double* a, float* b) { MD A(m, n, a); MF B(m, n, b); copy(A, B); outf(B); }
ENTRY vc_copy_to_view(size_t R, size_t C, double* a, size_t r, size_t c, size_t br, size_t bc, double* b)
{ MD A(R, C, a), B(r, c, b); SubD S(A, r, c, br, bc); copy(B, S); out(A); }
ENTRY vc_copy_from_view(size_t R, size_t C, double* a, size_t r, size_t c, size_t br, size_t bc, double* b)
{ MD A(R, C, a), B(r, c, b); SubD S(A, r, c, br, bc); copy(S, B); out(B); }
ENTRY vc_assign_value(size_t m, size_t n, double* a, double x) { MD A(m, n, a); A = x; out(A); }

// ---- C04 transposition, dense
ENTRY vc_trans_col(size_t m, size_t n, double* a) { MD A(m, n, a); MD B(transpose(A)); out(B); }
ENTRY vc_trans_row(size_t m, size_t n, double* a) { MDR A(m, n, a); MDR B(transpose(A)); out(B); }
ENTRY vc_trans_f(size_t m, size_t n, float* a) { MF A(m, n, a); MF B(transpose(A)); outf(B); }

// ---- C23 fillers
ENTRY vc_fill_all(size_t m, size_t n, double x) { MD A(m, n, AllFiller<double>(x)); out(A); }
ENTRY vc_fill_allf(size_t m, size_t n, float x) { MF A(m, n, AllFiller<float>(x)); outf(A); }
ENTRY vc_fill_all_row(size_t m, size_t n, double x) { MDR A(m, n, AllFiller<double>(x)); out(A); }
ENTRY vc_fill_cont(size_t m, size_t n) { MD A(m, n, ContinuousNumberFiller()); out(A); }
ENTRY vc_fill_cont_row(size_t m, size_t n) { MDR A(m, n, ContinuousNumberFiller()); out(A); }
ENTRY vc_fill_hilbert(size_t m, size_t n) { MD A(m, n, HilbertFiller()); out(A); }
ENTRY vc_fill_hilbert_row(size_t m, size_t n) { MDR A(m, n, HilbertFiller()); out(A); }
ENTRY vc_fill_diag(size_t m, size_t n, double x) { MD A(m, n, DiagonalFiller<double>(x)); out(A); }
ENTRY vc_fill_diag_row(size_t m, size_t n, double x) { MDR A(m, n, DiagonalFiller<double>(x)); out(A); }
ENTRY vc_fill_all_into(size_t m, size_t n, double x, double* a) { MD A(m, n, a); AllFiller<double>{x}(A); out(A); }
ENTRY vc_fill_cont_into(size_t m, size_t n, double* a) { MD A(m, n, a); ContinuousNumberFiller()(A); out(A); }
ENTRY vc_fill_hilbert_into(size_t m, size_t n, double* a) { MD A(m, n, a); HilbertFiller()(A); out(A); }
ENTRY vc_fill_diag_into(size_t m, size_t n, double x, double* a) { MD A(m, n, a); DiagonalFiller<double>{x}(A); out(A); }
ENTRY vc_fill_no(size_t m, size_t n, double* a) { MD A(m, n, a); NoFiller()(A); out(A); }

// ---- C26 shape
template <class M> static inline void shape(M const& A)
{ vc_counts(A.getNbRows(), A.getNbColumns(), A.getSize(), A.end() - A.begin()); vc_counts(A.getMajorDimension(), A.getMinorDimension(), 0, 0); }
ENTRY vc_shape_new(size_t m, size_t n) { MD A(m, n); shape(A); }
ENTRY vc_shape_new_row(size_t m, size_t n) { MDR A(m, n); shape(A); }
ENTRY vc_shape_newf(size_t m, size_t n) { MF A(m, n); shape(A); }
ENTRY vc_shape_ext(size_t m, size_t n, double* a) { MD A(m, n, a); shape(A); }
ENTRY vc_shape_empty() { MD A; shape(A); }
ENTRY vc_shape_resize(size_t m, size_t n, size_t r, size_t c) { MD A(m, n); A.resize(r, c); shape(A); }
ENTRY vc_shape_resize2(size_t m, size_t n, size_t r, size_t c, size_t r2, size_t c2) { MD A(m, n); A.resize(r, c); A.resize(r2, c2); shape(A); }
ENTRY vc_shape_resize_row(size_t m, size_t n, size_t r, size_t c) { MDR A(m, n); A.resize(r, c); shape(A); }
ENTRY vc_resize_same(size_t m, size_t n, double* a) { MD A(m, n, a); A.resize(m, n); out(A); }
ENTRY vc_resize_fill(size_t m, size_t n, size_t r, size_t c, double x) { MD A(m, n); A.resize(r, c, AllFiller<double>(x)); out(A); }
