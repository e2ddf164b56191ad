// what is known of the blocks of a blocked matrix, with the blocks themselves abstract:
// std::shared_ptr<MatrixBase> is replaced by a number; type, dimensions and norm of a
// block are taken by contract
#include <cstddef>
#include <memory>
#include <boost/serialization/base_object.hpp>
extern "C" {
int vc_type_of(size_t);
void vc_ints_are(int const*, size_t r, size_t c);
void vc_pairs_are(void const*, size_t r, size_t c);
void vc_reals_are(double const*, size_t r, size_t c);
void vc_counts_are(size_t const*, size_t n);
}
// stands for the block an element points to
struct vc_block { size_t id; int getTypeIndex() const { return vc_type_of(id); } };
namespace BlasBooster { struct MatrixBase; }
namespace std {
template <> class shared_ptr<BlasBooster::MatrixBase> {
public:
    typedef BlasBooster::MatrixBase element_type;
    size_t id;
    shared_ptr() noexcept : id(0) {}
    shared_ptr(nullptr_t) noexcept : id(0) {}
    struct is {};
    shared_ptr(is, size_t i) : id(i) {}
    template <class Y> explicit shared_ptr(Y*);
    template <class Y> shared_ptr(shared_ptr<Y> const&);
    element_type* get() const noexcept;
    element_type& operator*() const noexcept;
    vc_block* operator->() const noexcept { return (vc_block*)this; }
    explicit operator bool() const noexcept { return id != 0; }
    void reset() noexcept { id = 0; }
};
template <class T> shared_ptr<T> static_pointer_cast(shared_ptr<BlasBooster::MatrixBase> const&) noexcept;
}
#include "BlasBooster/Core/DynamicMatrix.h"
namespace BlasBooster {
// stay calls: taken by contract
size_t getNbRows(DynamicMatrix const&) __attribute__((noinline, disable_tail_calls));
size_t getNbColumns(DynamicMatrix const&) __attribute__((noinline, disable_tail_calls));
double getNorm(DynamicMatrix const&) __attribute__((noinline, disable_tail_calls));
}
#include "common.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "BlasBooster/Core/DynamicMatrixFunctions.h"
#include "BlasBooster/Core/GenerateTypeMatrix.h"
#define MAKE BlockedDenseMatrix B(r, c, R, C); for (size_t k = 0; k < r * c; ++k) B.getDataPointer()[k] = DynamicMatrix(DynamicMatrix::is(), k + 1);
ENTRY vc_types(size_t r, size_t c, size_t R, size_t C) { MAKE TypeMatrix M(generateTypeMatrix(B)); vc_ints_are(M.getDataPointer(), M.getNbRows(), M.getNbColumns()); }
ENTRY vc_dimensions(size_t r, size_t c, size_t R, size_t C) { MAKE DimensionMatrix M(generateDimensionMatrix(B)); vc_pairs_are(M.getDataPointer(), M.getNbRows(), M.getNbColumns()); }
ENTRY vc_norms(size_t r, size_t c, size_t R, size_t C) { MAKE NormMatrix M(generateNormMatrix(B)); vc_reals_are(M.getDataPointer(), M.getNbRows(), M.getNbColumns()); }
ENTRY vc_type_count(size_t r, size_t c, size_t R, size_t C) { MAKE auto n = get_type_counting(B); vc_counts_are(&n[0], n.size()); }
