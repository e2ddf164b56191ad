// block sizes, splitting and reassembling
#include "common.h"
#include "BlasBooster/Core/BlockSizeGenerator.h"
#include "BlasBooster/Core/BlockedMatrixGenerator.h"
#undef FAIL
typedef MultipleMatrix<Matrix<Sparse, double>, Matrix<Sparse, float>> MSS;
typedef MultipleMatrix<Matrix<Sparse, double>, Matrix<Dense, float>> MSD;
static void sizes(std::vector<size_t> const& v) { for (size_t x : v) vc_int(x); }
ENTRY vc_sizes(double const* d, size_t n, size_t lo, size_t hi) { sizes(BlockSizeGenerator(lo, hi).get_block_size(std::vector<double>(d, d + n))); }
ENTRY vc_sizes_f(float const* d, size_t n, size_t lo, size_t hi) { sizes(BlockSizeGenerator(lo, hi).get_block_size(std::vector<float>(d, d + n))); }
ENTRY vc_sizes_of(size_t r, size_t c, double* a, size_t lo, size_t hi) { MD A(r, c, a); auto t = BlockSizeGenerator(lo, hi)(A); sizes(std::get<0>(t)); vc_point(1); sizes(std::get<1>(t)); vc_point(2); }
ENTRY vc_sizes_off(size_t r, size_t c, float* a, size_t lo, size_t hi) { MF A(r, c, a); auto t = BlockSizeGenerator(lo, hi)(A); sizes(std::get<0>(t)); vc_point(1); sizes(std::get<1>(t)); vc_point(2); }
ENTRY vc_sizes_mult(size_t m, size_t k, size_t n, double* a, double* b, size_t lo, size_t hi) { MD A(m, k, a), B(k, n, b); auto t = BlockSizeGenerator(lo, hi).matrix_matrix_mult(A, B); sizes(std::get<0>(t)); vc_point(1); sizes(std::get<1>(t)); vc_point(2); sizes(std::get<2>(t)); vc_point(3); }
static void types(BlockedDenseMatrix const& B) { vc_counts(B.getNbRows(), B.getNbColumns(), B.getUnblockedRows(), B.getUnblockedColumns()); for (size_t j = 0; j < B.getNbColumns(); ++j) for (size_t i = 0; i < B.getNbRows(); ++i) { vc_int(B(i, j)->getTypeIndex()); vc_counts(i, j, getNbRows(B(i, j)), getNbColumns(B(i, j))); } }
ENTRY vc_split(size_t r, size_t c, double* a, size_t const* rs, size_t nr, size_t const* cs, size_t nc, Threshold const* t)
{
    MD A(r, c, a); BlockedDenseMatrix B(BlockedMatrixGenerator()(A, std::vector<size_t>(rs, rs + nr), std::vector<size_t>(cs, cs + nc), *t));
    types(B);
    MD C(B);
    vc_dense(C.getDataPointer(), C.getNbRows(), C.getNbColumns(), C.getSize());
}
ENTRY vc_split_f(size_t r, size_t c, float* a, size_t const* rs, size_t nr, size_t const* cs, size_t nc, Threshold const* t)
{
    MF A(r, c, a); BlockedDenseMatrix B(BlockedMatrixGenerator()(A, std::vector<size_t>(rs, rs + nr), std::vector<size_t>(cs, cs + nc), *t));
    types(B);
    MF C(B);
    vc_densef(C.getDataPointer(), C.getNbRows(), C.getNbColumns(), C.getSize());
}
ENTRY vc_auto(size_t r, size_t c, double* a, size_t lo, size_t hi, Threshold const* t)
{
    MD A(r, c, a); auto s = BlockSizeGenerator(lo, hi)(A); BlockedDenseMatrix B(BlockedMatrixGenerator()(A, std::get<0>(s), std::get<1>(s), *t));
    types(B);
    MD C(B);
    vc_dense(C.getDataPointer(), C.getNbRows(), C.getNbColumns(), C.getSize());
}
// one matrix asked for each type, in a list of lists
ENTRY vc_assemble(size_t r1, size_t r2, size_t c1, size_t c2, double* a, double* b, double* c, double* d)
{
    DynamicMatrix A(new MD(r1, c1, a)), B(new MD(r1, c2, b)), C(new MD(r2, c1, c)), D(new MD(r2, c2, d));
    MD M(BlockedDenseMatrix{{A, B}, {C, D}});
    vc_dense(M.getDataPointer(), M.getNbRows(), M.getNbColumns(), M.getSize());
}
