// products of blocked matrices with real blocks
#include "common.h"
#include "BlasBooster/Core/BlockedMatrixGenerator.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "BlasBooster/Core/BinaryFunctors.h"
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
static std::vector<size_t> lst(size_t const* a, size_t n) { return std::vector<size_t>(a, a + n); }
static void seen(BlockedDenseMatrix const& B) { vc_counts(B.getNbRows(), B.getNbColumns(), B.getUnblockedRows(), B.getUnblockedColumns()); MD M(B); vc_dense(M.getDataPointer(), M.getNbRows(), M.getNbColumns(), M.getSize()); }
ENTRY vc_real_product(size_t r, size_t k, size_t c, double* a, double* b, size_t const* rs, size_t nr, size_t const* ks, size_t nk, size_t const* cs, size_t nc, Threshold const* t)
{
    MD A(r, k, a), B(k, c, b);
    BlockedDenseMatrix X(BlockedMatrixGenerator()(A, lst(rs, nr), lst(ks, nk), *t)), Y(BlockedMatrixGenerator()(B, lst(ks, nk), lst(cs, nc), *t));
    BlockedDenseMatrix Z(X * Y);
    seen(Z);
    seen(X); seen(Y);
    BlockedDenseMatrix W((r + k) % 3 ? nr : nk, nc, r + 5, c + 7);          // into a matrix which was something else
    MultiplicationFunctor<Dense, DynamicMatrix, BlockedDenseMatrixParameter, Dense, DynamicMatrix, BlockedDenseMatrixParameter, Dense, DynamicMatrix, BlockedDenseMatrixParameter, Native>()(X, Y, W);
    seen(W);
    Y = (X * Y).execute<Native>();          // into one of the factors
    seen(Y);
}
#include "BlasBooster/Core/GenerateTypeMatrix.h"
ENTRY vc_real_info(size_t r, size_t c, double* a, size_t const* rs, size_t nr, size_t const* cs, size_t nc, Threshold const* t, bool norms)
{
    MD A(r, c, a);
    BlockedDenseMatrix B(BlockedMatrixGenerator()(A, lst(rs, nr), lst(cs, nc), *t));
    TypeMatrix T(generateTypeMatrix(B)); vc_counts(T.getNbRows(), T.getNbColumns(), T.getSize(), 0);
    for (size_t j = 0; j < nc; ++j) for (size_t i = 0; i < nr; ++i) vc_int(T(i, j));
    DimensionMatrix D(generateDimensionMatrix(B)); vc_counts(D.getNbRows(), D.getNbColumns(), D.getSize(), 0);
    for (size_t j = 0; j < nc; ++j) for (size_t i = 0; i < nr; ++i) { vc_int(D(i, j).first); vc_int(D(i, j).second); }
    auto n = get_type_counting(B); for (size_t x : n) vc_int(x);
    if (norms) { NormMatrix N(generateNormMatrix(B)); vc_dense(N.getDataPointer(), N.getNbRows(), N.getNbColumns(), N.getSize()); }
}
// leaves something behind on the stack
ENTRY vc_scribble() { volatile size_t x[4000]; for (size_t i = 0; i < 4000; ++i) x[i] = i + 1; }
