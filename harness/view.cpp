// sub-matrix views and their strided traversal
#include "common.h"
typedef Parameter<size_t, RowMajor, VariableSize, LeadingDimension> PSR;
typedef Matrix<Dense, double, PSR> SubR;
typedef Matrix<Dense, float, PS> SubF;
#define VW size_t R, size_t C, double *a, size_t r, size_t c, size_t br, size_t bc
#define V MD A(R, C, a); SubD S(A, r, c, br, bc)
#define VR MDR A(R, C, a); SubR S(A, r, c, br, bc)
// ---- positions
ENTRY vc_row_atf(size_t R, size_t C, float *a, size_t r, size_t c, size_t br, size_t bc, size_t i, size_t j) { Matrix<Dense, float, Parameter<size_t, RowMajor>> A(R, C, a); Matrix<Dense, float, PSR> S(A, r, c, br, bc); vc_addr(&S(i, j)); }
ENTRY vc_row_ld(VW) { VR; vc_counts(A.getLdRows(), A.getLdColumns(), S.getLdRows(), S.getLdColumns()); }
ENTRY vc_nested_ld(VW, size_t r2, size_t c2, size_t br2, size_t bc2) { V; SubD T(S, r2, c2, br2, bc2); vc_counts(S.getLdRows(), S.getLdColumns(), T.getLdRows(), T.getLdColumns()); }
ENTRY vc_view_set(VW, size_t i, size_t j, double x) { V; S(i, j) = x; vc_dense(A.getDataPointer(), A.getNbRows(), A.getNbColumns(), A.getSize()); }
ENTRY vc_row_set(size_t R, size_t C, double *a, size_t i, size_t j, double x) { MDR A(R, C, a); A(i, j) = x; vc_dense(A.getDataPointer(), A.getNbRows(), A.getNbColumns(), A.getSize()); }
ENTRY vc_row_view_set(VW, size_t i, size_t j, double x) { VR; S(i, j) = x; vc_dense(A.getDataPointer(), A.getNbRows(), A.getNbColumns(), A.getSize()); }
ENTRY vc_row_at(VW, size_t i, size_t j) { VR; vc_addr(&S(i, j)); }
ENTRY vc_row_at_const(VW, size_t i, size_t j) { VR; SubR const& T = S; vc_addr(&T(i, j)); }
ENTRY vc_row_at_nested(VW, size_t r2, size_t c2, size_t br2, size_t bc2, size_t i, size_t j) { VR; SubR T(S, r2, c2, br2, bc2); vc_addr(&T(i, j)); }
// ---- traversal: every address visited
ENTRY vc_walk(VW) { V; for (auto it = S.begin(), e = S.end(); it != e; ++it) vc_addr(&*it); }
ENTRY vc_walk_const(VW) { V; SubD const& T = S; for (auto it = T.begin(), e = T.end(); it != e; ++it) vc_addr(&*it); }
ENTRY vc_walk_nested(VW, size_t r2, size_t c2, size_t br2, size_t bc2) { V; SubD T(S, r2, c2, br2, bc2); for (auto it = T.begin(), e = T.end(); it != e; ++it) vc_addr(&*it); }
ENTRY vc_walk_row(VW) { VR; for (auto it = S.begin(), e = S.end(); it != e; ++it) vc_addr(&*it); }
ENTRY vc_walk_back(VW) { V; auto it = S.end(), e = S.begin(); while (it != e) { --it; vc_addr(&*it); } }
ENTRY vc_walk_back_const(VW) { V; SubD const& T = S; auto it = T.end(), e = T.begin(); while (it != e) { --it; vc_addr(&*it); } }
ENTRY vc_walk_reverse(VW) { V; for (auto it = S.rbegin(), e = S.rend(); it != e; --it) vc_addr(&*it); }
// n steps forward, one step forward and back, b steps back
ENTRY vc_walk_mixed(VW, size_t n, size_t b)
{
    V; auto it = S.begin();
    for (size_t p = 0; p < n; ++p) ++it;
    auto x = it; if (x != S.end()) { ++x; --x; vc_bool(x == it); vc_addr(&*x); }
    auto y = it; if (y != S.begin()) { --y; ++y; vc_bool(y == it); }
    for (size_t p = 0; p < b; ++p) --it;
    if (it != S.end()) vc_addr(&*it);
}
ENTRY vc_walk_write(VW, double x) { V; for (auto it = S.begin(), e = S.end(); it != e; ++it) *it = x; vc_dense(a, R, C, A.getSize()); }
ENTRY vc_walk_assign(VW, double x) { V; std::fill(S.begin(), S.end(), x); vc_dense(a, R, C, A.getSize()); }
ENTRY vc_walk_read(VW) { V; double s = 0; for (auto x : S) s += x; vc_real(s); }
ENTRY vc_walk_readf(size_t R, size_t C, float* a, size_t r, size_t c, size_t br, size_t bc) { MF A(R, C, a); SubF S(A, r, c, br, bc); double s = 0; for (auto x : S) s += x; vc_real(s); }
ENTRY vc_row_conv(VW) { VR; MDR B(S); vc_dense(B.getDataPointer(), B.getNbRows(), B.getNbColumns(), B.getSize()); }
ENTRY vc_view_counts(VW) { V; vc_counts(S.getNbRows(), S.getNbColumns(), S.getSize(), static_cast<SubD::storage&>(S).size()); }
