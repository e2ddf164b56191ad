// splitting into blocks and reassembling with the blocks themselves abstract:
// std::shared_ptr<MatrixBase> is replaced by a number, the conversion of a block,
// its dimensions, its conversion back and copy by their contracts
#include <cstddef>
#include <memory>
extern "C" {
size_t vc_block_of(double const*, size_t r, size_t c, size_t ld);   // the block made of a part of a matrix
size_t vc_block_of_f(float const*, size_t r, size_t c, size_t ld);
size_t vc_block_rows(size_t);
size_t vc_block_columns(size_t);
double* vc_block_data(size_t);
void vc_place(double const* src, size_t r, size_t c, double* dst, size_t dr, size_t dc, size_t ld);
void vc_blocks_are(void const*, size_t r, size_t c, size_t R, size_t C);
}
namespace BlasBooster { struct MatrixBase; }
namespace std {
template <> class shared_ptr<BlasBooster::MatrixBase> {
public:
    typedef BlasBooster::MatrixBase element_type;
    size_t id;
    shared_ptr() noexcept : id(0) {}
    shared_ptr(nullptr_t) noexcept : id(0) {}
    struct is {};
    shared_ptr(is, size_t i) : id(i) {}
    template <class Y> explicit shared_ptr(Y*);
    template <class Y> shared_ptr(shared_ptr<Y> const&);
    element_type* get() const noexcept;
    element_type& operator*() const noexcept;
    element_type* operator->() const noexcept;
    explicit operator bool() const noexcept { return id != 0; }
    void reset() noexcept { id = 0; }
};
template <class T> shared_ptr<T> static_pointer_cast(shared_ptr<BlasBooster::MatrixBase> const&) noexcept;
}
#include "BlasBooster/Core/DynamicMatrix.h"
namespace BlasBooster {
// stays a call: taken by contract
size_t getNbRows(DynamicMatrix const&) __attribute__((noinline, disable_tail_calls));
size_t getNbColumns(DynamicMatrix const&) __attribute__((noinline, disable_tail_calls));
}
#include "common.h"
#include "BlasBooster/Core/BlockedMatrixGenerator.h"
typedef Matrix<Dense, double, Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension>> Part;
typedef Matrix<Dense, float, Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension>> PartF;
typedef Matrix<Dense, double, Parameter<size_t, RowMajor, VariableSize, LeadingDimension>> PartR;
namespace BlasBooster {
#define CONVERSION(P, OF, LD) template <> inline DynamicMatrix MatrixConverter::operator()(P const& m, Threshold const&) const \
{ return DynamicMatrix(DynamicMatrix::is(), OF(m.getDataPointer(), m.getNbRows(), m.getNbColumns(), m.LD())); }
CONVERSION(Part, vc_block_of, getLdRows)
CONVERSION(PartF, vc_block_of_f, getLdRows)
CONVERSION(PartR, vc_block_of, getLdColumns)
template <> __attribute__((always_inline)) inline MD::Matrix(DynamicMatrix const& m) : MD(vc_block_rows(m.id), vc_block_columns(m.id), vc_block_data(m.id)) {}
template <> inline void copy(MD const& s, Part& d)
{
    vc_place(s.getDataPointer(), s.getNbRows(), s.getNbColumns(), d.getDataPointer(), d.getNbRows(), d.getNbColumns(), d.getLdRows());
}
}
#define SPLIT(NAME, M, T) ENTRY NAME(size_t r, size_t c, T* a, size_t* rs, size_t nr, size_t* cs, size_t nc, Threshold const* t) \
{ \
    M A(r, c, a); \
    std::vector<size_t> R(rs, rs + nr), C(cs, cs + nc); \
    BlockedDenseMatrix B(BlockedMatrixGenerator()(A, R, C, *t)); \
    vc_blocks_are(B.getDataPointer(), B.getNbRows(), B.getNbColumns(), B.getUnblockedRows(), B.getUnblockedColumns()); \
}
SPLIT(vc_split, MD, double)
SPLIT(vc_split_f, MF, float)
SPLIT(vc_split_row, MDR, double)
// block (i,j) is number 1 + i + j*nr
ENTRY vc_join(size_t nr, size_t nc, size_t R, size_t C)
{
    BlockedDenseMatrix B(nr, nc, R, C);
    for (size_t k = 0; k < nr * nc; ++k) B.getDataPointer()[k] = DynamicMatrix(DynamicMatrix::is(), k + 1);
    MD M(B);
    vc_dense(M.getDataPointer(), M.getNbRows(), M.getNbColumns(), M.getSize());
}
