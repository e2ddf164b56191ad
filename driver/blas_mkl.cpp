// the MKL wrappers with stand-ins for the routines, in a translation unit of their own
#define cdotc_ mkl_stub_cdotc_
#define cdotu_ mkl_stub_cdotu_
#define zdotc_ mkl_stub_zdotc_
#define zdotu_ mkl_stub_zdotu_
#include "mkl.cpp"
