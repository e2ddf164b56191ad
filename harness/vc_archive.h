// an archive that keeps the numbers written to it in given memory
#pragma once
#include <boost/serialization/access.hpp>
#include <cstddef>
struct VcArchive {
    double *w, *r; size_t n;
    VcArchive(double* p) : w(p), r(p), n(0) {}
    VcArchive& operator<<(size_t const& x) { n = x; return *this; }
    VcArchive& operator>>(size_t& x) { x = n; return *this; }
    VcArchive& operator<<(double const& x) { *w++ = x; return *this; }
    VcArchive& operator>>(double& x) { x = *r++; return *this; }
};
template <class T> void vc_save(VcArchive& a, T const& x) { boost::serialization::access::member_save(a, x, 0u); }
template <class T> void vc_load(VcArchive& a, T& x) { boost::serialization::access::member_load(a, x, 0u); }
