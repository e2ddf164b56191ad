// sparse matrices looking at given arrays, and what is observed of a sparse result
#pragma once
#include "common.h"
#include "BlasBooster/Core/MatrixConverter.h"
typedef Storage<size_t, false, false, 0> KS;
typedef Matrix<Sparse, float, PC> SF;
typedef Matrix<Sparse, double, PR> SDR;
typedef Matrix<Dense, float, PR> MFR;
template <class T, class P = PC> struct Sp : Matrix<Sparse, T, P> {
    Sp(size_t r, size_t c, T* v, size_t* k, size_t* o, size_t n) {
        this->nbRows_ = r; this->nbColumns_ = c; this->full_size_ = r * c;
        this->value_ = Storage<T, false, false, 0>(v, n); this->key_ = KS(k, n); this->offset_ = KS(o, this->getMinorDimension() + 1);
    }
    Matrix<Sparse, T, P> const& m() const { return *this; }
};
extern "C" {
void vc_sparse(const double*, const size_t* key, const size_t* off, size_t nnz, size_t noff, size_t rows, size_t cols, size_t size);
void vc_sparsef(const float*, const size_t* key, const size_t* off, size_t nnz, size_t noff, size_t rows, size_t cols, size_t size);
bool vc_accept(double);
}
template <class M> static inline void outs(M const& C) { vc_sparse(&*C.begin(), &*C.beginKey(), &*C.beginOffset(), C.nnz(), C.sizeOffset(), C.getNbRows(), C.getNbColumns(), C.getSize()); }
template <class M> static inline void outsf(M const& C) { vc_sparsef(&*C.begin(), &*C.beginKey(), &*C.beginOffset(), C.nnz(), C.sizeOffset(), C.getNbRows(), C.getNbColumns(), C.getSize()); }
template <class M> static inline void out(M const& C) { vc_dense(C.getDataPointer(), C.getNbRows(), C.getNbColumns(), C.getSize()); }
template <class M> static inline void outf(M const& C) { vc_densef(C.getDataPointer(), C.getNbRows(), C.getNbColumns(), C.getSize()); }
// any significance test
struct Accept { bool operator()(double x) const { return vc_accept(x); } };
#define SPA(T) size_t r, size_t c, T *v, size_t *k, size_t *o, size_t n
