#include "common.h"

typedef MultiplicationFunctor<Dense,double,PC,Dense,double,PC,Dense,double,PC,Native> MulDDD;

// the result starts out empty
ENTRY vc_dense_product(size_t m, size_t k, size_t n, double* a, double* b)
{
    MD A(m, k, a), B(k, n, b), C;
    MulDDD()(A, B, C);
    vc_dense(C.getDataPointer(), C.getNbRows(), C.getNbColumns(), C.getSize());
}

// the result already has some shape and content
ENTRY vc_dense_product_again(size_t m, size_t k, size_t n, double* a, double* b, size_t r, size_t c)
{
    MD A(m, k, a), B(k, n, b), C(r, c);
    MulDDD()(A, B, C);
    vc_dense(C.getDataPointer(), C.getNbRows(), C.getNbColumns(), C.getSize());
}

ENTRY vc_dense_product_float(size_t m, size_t k, size_t n, float* a, float* b)
{
    MF A(m, k, a), B(k, n, b), C;
    MultiplicationFunctor<Dense,float,PC,Dense,float,PC,Dense,float,PC,Native>()(A, B, C);
    vc_densef(C.getDataPointer(), C.getNbRows(), C.getNbColumns(), C.getSize());
}

ENTRY vc_dense_product_mixed(size_t m, size_t k, size_t n, float* a, double* b)
{
    MF A(m, k, a);
    MD B(k, n, b), C;
    MultiplicationFunctor<Dense,float,PC,Dense,double,PC,Dense,double,PC,Native>()(A, B, C);
    vc_dense(C.getDataPointer(), C.getNbRows(), C.getNbColumns(), C.getSize());
}

ENTRY vc_dense_product_mixed2(size_t m, size_t k, size_t n, double* a, float* b)
{
    MF B(k, n, b);
    MD A(m, k, a), C;
    MultiplicationFunctor<Dense,double,PC,Dense,float,PC,Dense,double,PC,Native>()(A, B, C);
    vc_dense(C.getDataPointer(), C.getNbRows(), C.getNbColumns(), C.getSize());
}

// the second algorithm (cursors), column- and row-major
ENTRY vc_cursor_product(size_t m, size_t k, size_t n, double* a, double* b)
{
    MD A(m, k, a), B(k, n, b), C;
    GeneralDenseMultiplicationFunctorUsingCursor<double,PC,double,PC,double,PC>()(A, B, C);
    vc_dense(C.getDataPointer(), C.getNbRows(), C.getNbColumns(), C.getSize());
}

ENTRY vc_cursor_product_again(size_t m, size_t k, size_t n, double* a, double* b, size_t r, size_t c)
{
    MD A(m, k, a), B(k, n, b), C(r, c);
    GeneralDenseMultiplicationFunctorUsingCursor<double,PC,double,PC,double,PC>()(A, B, C);
    vc_dense(C.getDataPointer(), C.getNbRows(), C.getNbColumns(), C.getSize());
}

ENTRY vc_cursor_product_rowmajor(size_t m, size_t k, size_t n, double* a, double* b)
{
    MDR A(m, k, a), B(k, n, b), C;
    GeneralDenseMultiplicationFunctorUsingCursor<double,PR,double,PR,double,PR>()(A, B, C);
    vc_dense(C.getDataPointer(), C.getNbRows(), C.getNbColumns(), C.getSize());
}

// operands and result of different orders
#define MIX(NAME, A_, PA, B_, PB, C_, PCC) ENTRY vc_dense_product_##NAME(size_t m, size_t k, size_t n, double* a, double* b) \
{ A_ A(m, k, a); B_ B(k, n, b); C_ C; MultiplicationFunctor<Dense,double,PA,Dense,double,PB,Dense,double,PCC,Native>()(A, B, C); \
  vc_dense(C.getDataPointer(), C.getNbRows(), C.getNbColumns(), C.getSize()); }
MIX(rrc, MDR, PR, MDR, PR, MD, PC)
MIX(rcc, MDR, PR, MD, PC, MD, PC)
MIX(crc, MD, PC, MDR, PR, MD, PC)
MIX(rrr, MDR, PR, MDR, PR, MDR, PR)
MIX(ccr, MD, PC, MD, PC, MDR, PR)
// the operator chooses the type of the result
ENTRY vc_dense_product_op(size_t m, size_t k, size_t n, double* a, double* b)
{ MDR A(m, k, a), B(k, n, b); MD C(A * B); vc_dense(C.getDataPointer(), C.getNbRows(), C.getNbColumns(), C.getSize()); }
