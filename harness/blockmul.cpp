// the product of two blocked matrices with the blocks themselves abstract:
// std::shared_ptr<MatrixBase> is replaced by a number; the product of two blocks and
// the sum of two blocks are taken by contract
#include <cstddef>
#include <memory>
extern "C" {
size_t vc_mul(size_t, size_t);
void vc_blocks_are(void const*, size_t r, size_t c, size_t R, size_t C);
}
namespace BlasBooster { struct MatrixBase; }
namespace std {
template <> class shared_ptr<BlasBooster::MatrixBase> {
public:
    typedef BlasBooster::MatrixBase element_type;
    size_t id;
    shared_ptr() noexcept : id(0) {}
    shared_ptr(nullptr_t) noexcept : id(0) {}
    struct is {};
    shared_ptr(is, size_t i) : id(i) {}
    template <class Y> explicit shared_ptr(Y*);
    template <class Y> shared_ptr(shared_ptr<Y> const&);
    element_type* get() const noexcept;
    element_type& operator*() const noexcept;
    element_type* operator->() const noexcept;
    explicit operator bool() const noexcept { return id != 0; }
    void reset() noexcept { id = 0; }
};
template <class T> shared_ptr<T> static_pointer_cast(shared_ptr<BlasBooster::MatrixBase> const&) noexcept;
}
#include "BlasBooster/Core/DynamicMatrix.h"
namespace BlasBooster {
// stays a call: taken by contract
DynamicMatrix operator+(DynamicMatrix const&, DynamicMatrix const&) __attribute__((noinline, disable_tail_calls));
}
#include "common.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/BinaryFunctors.h"
#include "BlasBooster/Core/DynamicMatrix.h"
namespace BlasBooster {
template <> inline DynamicMatrix MatrixMultExp<DynamicMatrix, DynamicMatrix>::execute<TheBestPolicy>() const { return DynamicMatrix(DynamicMatrix::is(), vc_mul(ptrA.id, ptrB.id)); }
}
typedef BlockedDenseMatrix BM;
static inline void put(BM& M, size_t const* a) { for (size_t k = 0; k < M.getSize(); ++k) M.getDataPointer()[k] = DynamicMatrix(DynamicMatrix::is(), a[k]); }
#define SEEN(M) vc_blocks_are(M.getDataPointer(), M.getNbRows(), M.getNbColumns(), M.getUnblockedRows(), M.getUnblockedColumns())
ENTRY vc_blocked_product(size_t r, size_t k, size_t c, size_t R, size_t K, size_t C, size_t const* a, size_t const* b)
{
    BM A(r, k, R, K), B(k, c, K, C);
    put(A, a); put(B, b);
    BM D(A * B);
    SEEN(D); SEEN(A); SEEN(B);
}
// into a matrix of any shape and content
ENTRY vc_blocked_into(size_t r, size_t k, size_t c, size_t R, size_t K, size_t C, size_t const* a, size_t const* b, size_t dr, size_t dc, size_t const* d)
{
    BM A(r, k, R, K), B(k, c, K, C), D(dr, dc, dr, dc);
    put(A, a); put(B, b); put(D, d);
    D = (A * B).execute<Native>();
    SEEN(D);
}
ENTRY vc_blocked_functor(size_t r, size_t k, size_t c, size_t R, size_t K, size_t C, size_t const* a, size_t const* b, size_t dr, size_t dc, size_t const* d)
{
    BM A(r, k, R, K), B(k, c, K, C), D(dr, dc, dr, dc);
    put(A, a); put(B, b); put(D, d);
    MultiplicationFunctor<Dense, DynamicMatrix, BlockedDenseMatrixParameter, Dense, DynamicMatrix, BlockedDenseMatrixParameter, Dense, DynamicMatrix, BlockedDenseMatrixParameter, Native>()(A, B, D);
    SEEN(D);
}
