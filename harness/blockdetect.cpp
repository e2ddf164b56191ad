// the arrays that lead the search for block borders; the search itself is taken
// by its contract (harness/blocksize.cpp): it only uses the length of the array
#include "common.h"
#include "BlasBooster/Core/BlockSizeGenerator.h"
extern "C" {
void vc_lengths(size_t lo, size_t hi);
void vc_search(double const* d, size_t n);
void vc_sizes_of(size_t const*, size_t n, size_t which);
}
namespace BlasBooster {
// length n+1 as one block: which dimension was asked for is visible in the result
template <> std::vector<size_t> BlockSizeGenerator::get_block_size<double>(std::vector<double> const& d) const
{
    vc_lengths(min_block_size, max_block_size);
    vc_search(d.data(), d.size());
    return std::vector<size_t>(1, d.size() + 1);
}
}
ENTRY vc_block_sizes(size_t r, size_t c, size_t lo, size_t hi, double* a)
{
    MD A(r, c, a);
    auto t = BlockSizeGenerator(lo, hi)(A);
    vc_sizes_of(std::get<0>(t).data(), std::get<0>(t).size(), 0);
    vc_sizes_of(std::get<1>(t).data(), std::get<1>(t).size(), 1);
}
ENTRY vc_block_sizes_mult(size_t r, size_t q, size_t c, size_t lo, size_t hi, double* a, double* b)
{
    MD A(r, q, a), B(q, c, b);
    auto t = BlockSizeGenerator(lo, hi).matrix_matrix_mult(A, B);
    vc_sizes_of(std::get<0>(t).data(), std::get<0>(t).size(), 0);
    vc_sizes_of(std::get<1>(t).data(), std::get<1>(t).size(), 1);
    vc_sizes_of(std::get<2>(t).data(), std::get<2>(t).size(), 2);
}
