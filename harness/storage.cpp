// life cycle of storage and matrices
#include "common.h"
#include "vc_archive.h"
typedef Storage<double, false, false, 0> ST;
typedef Storage<float, false, false, 0> SF_;
typedef Storage<double, false, true, 4> FH;
typedef Storage<double, true, true, 4> FS;
typedef Matrix<Sparse, double, PC> MS;
// what a storage holds
static inline void show(ST const& s) { vc_dense(s.getDataPointer(), s.size(), 1, s.size()); }
static inline void show4(FH const& s) { vc_dense(s.getDataPointer(), 4, 1, s.size()); }
static inline void show4(FS const& s) { vc_dense(s.getDataPointer(), 4, 1, s.size()); }
template <class M> static inline void out(M const& C) { vc_dense(C.getDataPointer(), C.getNbRows(), C.getNbColumns(), C.getSize()); }
// own(n, a): a storage that owns a copy of a
static inline void put(ST& s, double* a) { for (size_t i = 0; i < s.size(); ++i) s.getDataPointer()[i] = a[i]; }
static inline void put4(FH& s, double* a) { for (size_t i = 0; i < 4; ++i) s.getDataPointer()[i] = a[i]; }
#define OWN(s, n, a) ST s(n); put(s, a)

// ---- flexible storage.  p: place of a change made to the copy afterwards
ENTRY vc_st_new(size_t n) { ST s(n); vc_counts(s.size(), s.getDataPointer() != nullptr, 0, 0); }
ENTRY vc_st_default() { ST s; vc_counts(s.size(), s.getDataPointer() != nullptr, 0, 0); }
ENTRY vc_st_ext(size_t n, double* a) { ST s(a, n); vc_addr(s.getDataPointer()); show(s); }
ENTRY vc_st_copy(size_t n, double* a, size_t p, double x) { OWN(s, n, a); ST t(s); vc_bool(t.getDataPointer() != s.getDataPointer()); t.getDataPointer()[p] = x; show(s); show(t); }
ENTRY vc_st_copy_ext(size_t n, double* a, size_t p, double x) { ST s(a, n); ST t(s); vc_bool(t.getDataPointer() != a); t.getDataPointer()[p] = x; show(s); show(t); }
ENTRY vc_st_conv(size_t n, float* a) { SF_ s(a, n); ST t(s); show(t); }
ENTRY vc_st_assign(size_t n, double* a, size_t m, double* b, size_t p, double x) { OWN(s, n, a); OWN(t, m, b); t = s; vc_bool(t.getDataPointer() != s.getDataPointer()); t.getDataPointer()[p] = x; show(s); show(t); }
ENTRY vc_st_assign_to_ext(size_t n, double* a, size_t m, double* b) { OWN(s, n, a); ST t(b, m); t = s; vc_bool(t.getDataPointer() != b); show(t); }
ENTRY vc_st_assign_self(size_t n, double* a) { OWN(s, n, a); ST& r = s; s = r; show(s); }
ENTRY vc_st_assign_empty(size_t m, double* b) { ST s; OWN(t, m, b); t = s; show(t); }
ENTRY vc_st_to_empty(size_t m, double* b) { ST s; OWN(t, m, b); s = t; show(s); show(t); }
ENTRY vc_st_move(size_t n, double* a) { OWN(s, n, a); const void* d = s.getDataPointer(); ST t(std::move(s)); vc_bool(t.getDataPointer() == d); show(t); }
ENTRY vc_st_move_ext(size_t n, double* a) { ST s(a, n); ST t(std::move(s)); vc_bool(t.getDataPointer() == a); show(t); }
ENTRY vc_st_move_assign(size_t n, double* a, size_t m, double* b) { OWN(s, n, a); OWN(t, m, b); const void* d = s.getDataPointer(); t = std::move(s); vc_bool(t.getDataPointer() == d); show(t); }
ENTRY vc_st_move_assign_ext(size_t n, double* a, size_t m, double* b) { ST s(a, n); OWN(t, m, b); t = std::move(s); vc_bool(t.getDataPointer() == a); show(t); }
ENTRY vc_st_move_self(size_t n, double* a) { OWN(s, n, a); ST& r = s; s = std::move(r); show(s); }
ENTRY vc_st_move_reuse(size_t n, double* a, size_t m, double* b) { OWN(s, n, a); ST t(std::move(s)); OWN(u, m, b); s = u; show(s); show(t); show(u); }
ENTRY vc_st_swap(size_t n, double* a, size_t m, double* b) { OWN(s, n, a); OWN(t, m, b); swap(s, t); show(s); show(t); }
ENTRY vc_st_swap_ext(size_t n, double* a, size_t m, double* b) { OWN(s, n, a); ST t(b, m); swap(s, t); vc_bool(s.getDataPointer() == b); show(s); show(t); }
ENTRY vc_st_resize(size_t n, double* a, size_t m) { OWN(s, n, a); s.resize(m); vc_counts(s.size(), 0, 0, 0); for (size_t i = 0; i < m; ++i) s.getDataPointer()[i] = 7; show(s); }
ENTRY vc_st_resize_same(size_t n, double* a) { OWN(s, n, a); const void* d = s.getDataPointer(); s.resize(n); vc_bool(s.getDataPointer() == d); show(s); }
ENTRY vc_st_resize_ext(size_t n, double* a, size_t m) { ST s(a, n); try { s.resize(m); vc_bool(true); } catch (std::exception&) { vc_bool(false); } show(s); }
ENTRY vc_st_resize_ext_raw(size_t n, double* a, size_t m) { ST s(a, n); s.resize(m); show(s); }
ENTRY vc_st_list(double x, double y, double z) { ST s{x, y, z}; show(s); }
ENTRY vc_st_archive(size_t n, double* a, size_t m, double* b, double* z) { OWN(s, n, a); OWN(t, m, b); VcArchive ar(z); vc_save(ar, s); vc_load(ar, t); show(s); show(t); }
ENTRY vc_st_archive_ext(size_t n, double* a, size_t m, double* b, double* z) { OWN(s, n, a); ST t(b, m); VcArchive ar(z); vc_save(ar, s); vc_load(ar, t); vc_bool(t.getDataPointer() != b); show(t); }

// ---- fixed size storage on the heap and on the stack (4 elements)
ENTRY vc_fh_copy(double* a, size_t p, double x) { FH s; put4(s, a); FH t(s); t.getDataPointer()[p] = x; show4(s); show4(t); }
ENTRY vc_fh_ext(double* a) { FH s(a, 4); vc_addr(s.getDataPointer()); show4(s); }
ENTRY vc_fh_assign(double* a, double* b, size_t p, double x) { FH s, t; put4(s, a); put4(t, b); t = s; t.getDataPointer()[p] = x; show4(s); show4(t); }
ENTRY vc_fh_assign_ext(double* a, double* b) { FH s(a, 4), t; put4(t, b); t = s; vc_bool(t.getDataPointer() != a); show4(t); }
ENTRY vc_fh_move(double* a) { FH s; put4(s, a); FH t(std::move(s)); show4(t); }
ENTRY vc_fh_move_assign(double* a, double* b) { FH s, t; put4(s, a); put4(t, b); t = std::move(s); show4(t); }
ENTRY vc_fh_move_assign_ext(double* a, double* b) { FH s(a, 4), t; put4(t, b); t = std::move(s); show4(t); }
ENTRY vc_fh_swap(double* a, double* b) { FH s, t; put4(s, a); put4(t, b); swap(s, t); show4(s); show4(t); }
ENTRY vc_fh_list(double x, double y, double z, double u) { FH s{x, y, z, u}; show4(s); }
ENTRY vc_fh_archive(double* a, double* b, double* z) { FH s, t; put4(s, a); put4(t, b); VcArchive ar(z); vc_save(ar, s); vc_load(ar, t); show4(s); show4(t); }
ENTRY vc_fs_copy(double* a, size_t p, double x) { FS s; for (size_t i = 0; i < 4; ++i) s.getDataPointer()[i] = a[i]; FS t(s); t.getDataPointer()[p] = x; show4(s); show4(t); }
ENTRY vc_fs_assign(double* a, double* b) { FS s, t; for (size_t i = 0; i < 4; ++i) s.getDataPointer()[i] = a[i], t.getDataPointer()[i] = b[i]; t = s; show4(s); show4(t); }

// ---- dense matrices
#define MOWN(M_, A, r, c, a) M_ A(r, c); for (size_t p_ = 0; p_ < A.getSize(); ++p_) A.getDataPointer()[p_] = a[p_]
ENTRY vc_m_copy(size_t r, size_t c, double* a, size_t p, double x) { MOWN(MD, A, r, c, a); MD B(A); B.getDataPointer()[p] = x; out(A); out(B); }
ENTRY vc_m_assign(size_t r, size_t c, double* a, size_t r2, size_t c2, double* b) { MOWN(MD, A, r, c, a); MOWN(MD, B, r2, c2, b); B = A; vc_bool(B.getDataPointer() != A.getDataPointer()); out(A); out(B); }
ENTRY vc_m_move(size_t r, size_t c, double* a) { MOWN(MD, A, r, c, a); MD B(std::move(A)); out(B); }
ENTRY vc_m_move_row(size_t r, size_t c, double* a) { MOWN(MDR, A, r, c, a); MDR B(std::move(A)); out(B); }
ENTRY vc_m_move_assign(size_t r, size_t c, double* a, size_t r2, size_t c2, double* b) { MOWN(MD, A, r, c, a); MOWN(MD, B, r2, c2, b); B = std::move(A); out(B); }
ENTRY vc_m_move_self(size_t r, size_t c, double* a) { MOWN(MD, A, r, c, a); MD& B = A; A = std::move(B); out(A); }
ENTRY vc_m_swap(size_t r, size_t c, double* a, size_t r2, size_t c2, double* b) { MOWN(MD, A, r, c, a); MOWN(MD, B, r2, c2, b); swap(A, B); out(A); out(B); }
ENTRY vc_m_swap_ext(size_t r, size_t c, double* a, size_t r2, size_t c2, double* b) { MD A(r, c, a); MOWN(MD, B, r2, c2, b); swap(A, B); out(A); out(B); }
ENTRY vc_m_std_swap(size_t r, size_t c, double* a, size_t r2, size_t c2, double* b) { MOWN(MD, A, r, c, a); MOWN(MD, B, r2, c2, b); std::swap(A, B); out(A); out(B); }
ENTRY vc_m_resize(size_t r, size_t c, double* a, size_t r2, size_t c2) { MOWN(MD, A, r, c, a); A.resize(r2, c2); A = 7.0; out(A); }
ENTRY vc_m_resize_ext(size_t r, size_t c, double* a, size_t r2, size_t c2) { MD A(r, c, a); try { A.resize(r2, c2); vc_bool(true); } catch (std::exception&) { vc_bool(false); } }
// the norm remembered by one operand belongs to it
ENTRY vc_m_swap_norm(size_t r, size_t c, double* a, size_t r2, size_t c2, double* b) { typedef Matrix<Dense, double, Parameter<size_t, ColumnMajor, VariableSize, NoLeadingDimension, NoUnblockedDimension, NormOne>> M1; MOWN(M1, A, r, c, a); MOWN(M1, B, r2, c2, b); A.getNorm(); B.getNorm(); swap(A, B); vc_real(A.getNorm()); vc_real(B.getNorm()); }
ENTRY vc_m_move_norm(size_t r, size_t c, double* a, size_t r2, size_t c2, double* b) { typedef Matrix<Dense, double, Parameter<size_t, ColumnMajor, VariableSize, NoLeadingDimension, NoUnblockedDimension, NormOne>> M1; MOWN(M1, A, r, c, a); MOWN(M1, B, r2, c2, b); B.getNorm(); B = std::move(A); vc_real(B.getNorm()); vc_real(B.getOccupation(AbsoluteValueRangeChecker<double>())); }
ENTRY vc_v_move(size_t R, size_t C, double* a, size_t r, size_t c, size_t br, size_t bc, size_t i, size_t j) { MD A(R, C, a); SubD S(A, r, c, br, bc); SubD T(std::move(S)); vc_counts(T.getNbRows(), T.getNbColumns(), T.getLdRows(), T.getLdColumns()); vc_addr(&T(i, j)); }
ENTRY vc_v_assign(size_t R, size_t C, double* a, size_t r, size_t c, size_t br, size_t bc, size_t i, size_t j) { MD A(R, C, a); SubD S(A, r, c, br, bc), T(A, size_t(0), size_t(0)); T = std::move(S); vc_counts(T.getNbRows(), T.getNbColumns(), T.getLdRows(), T.getLdColumns()); vc_addr(&T(i, j)); }
ENTRY vc_v_swap(size_t R, size_t C, double* a, size_t r, size_t c, size_t br, size_t bc, size_t i, size_t j) { MD A(R, C, a); SubD S(A, r, c, br, bc), T(A, size_t(0), size_t(0)); swap(S, T); vc_counts(T.getNbRows(), T.getNbColumns(), T.getLdRows(), T.getLdColumns()); vc_addr(&T(i, j)); vc_counts(S.getNbRows(), S.getNbColumns(), S.getSize(), 0); }

// ---- sparse matrices: copy, move, assign and swap everything
static inline void fills(MS& A, double* v, size_t* k, size_t* o)
{ for (size_t i = 0; i < A.nnz(); ++i) { A.begin()[i] = v[i]; A.beginKey()[i] = k[i]; } for (size_t i = 0; i < A.sizeOffset(); ++i) A.beginOffset()[i] = o[i]; }
extern "C" void vc_sparse(const double*, const size_t* key, const size_t* off, size_t nnz, size_t noff, size_t rows, size_t cols, size_t size);
static inline void outs(MS const& C) { vc_sparse(&*C.begin(), &*C.beginKey(), &*C.beginOffset(), C.nnz(), C.sizeOffset(), C.getNbRows(), C.getNbColumns(), C.getSize()); }
#define SOWN(A, r, c, n, v, k, o) MS A(r, c, n); fills(A, v, k, o)
#define TWO size_t r, size_t c, size_t n, double *v, size_t *k, size_t *o, size_t r2, size_t c2, size_t n2, double *w, size_t *l, size_t *q
ENTRY vc_s_copy(TWO, size_t p, double x) { SOWN(A, r, c, n, v, k, o); MS B(A); B.begin()[p] = x; B.beginKey()[p] = 99; outs(A); B.begin()[p] = v[p]; B.beginKey()[p] = k[p]; outs(B); }
ENTRY vc_s_assign(TWO, size_t p, double x) { SOWN(A, r, c, n, v, k, o); SOWN(B, r2, c2, n2, w, l, q); B = A; B.begin()[p] = x; outs(A); B.begin()[p] = v[p]; outs(B); }
ENTRY vc_s_move(TWO) { SOWN(A, r, c, n, v, k, o); MS B(std::move(A)); outs(B); }
ENTRY vc_s_move_assign(TWO) { SOWN(A, r, c, n, v, k, o); SOWN(B, r2, c2, n2, w, l, q); B = std::move(A); outs(B); }
ENTRY vc_s_swap(TWO) { SOWN(A, r, c, n, v, k, o); SOWN(B, r2, c2, n2, w, l, q); swap(A, B); outs(A); outs(B); }
