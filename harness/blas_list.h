// routine, result, parameters, arguments, number of arguments
BLAS(scabs1, float, (const std::complex<float>* v0), (v0), 1)
BLAS(sasum, float, (const int* v0, const float* v1, const int* v2), (v0, v1, v2), 3)
BLAS(saxpy, void, (const int* v0, const float* v1, const float* v2, const int* v3, float* v4, const int* v5), (v0, v1, v2, v3, v4, v5), 6)
BLAS(saxpby, void, (const int* v0, const float* v1, const float* v2, const int* v3, const float* v4, float* v5, const int* v6), (v0, v1, v2, v3, v4, v5, v6), 7)
BLAS(scasum, float, (const int* v0, const std::complex<float>* v1, const int* v2), (v0, v1, v2), 3)
BLAS(scnrm2, float, (const int* v0, const std::complex<float>* v1, const int* v2), (v0, v1, v2), 3)
BLAS(scopy, void, (const int* v0, const float* v1, const int* v2, float* v3, const int* v4), (v0, v1, v2, v3, v4), 5)
BLAS(sdot, float, (const int* v0, const float* v1, const int* v2, const float* v3, const int* v4), (v0, v1, v2, v3, v4), 5)
BLAS(sdsdot, float, (const int* v0, const float* v1, const float* v2, const int* v3, const float* v4, const int* v5), (v0, v1, v2, v3, v4, v5), 6)
BLAS(snrm2, float, (const int* v0, const float* v1, const int* v2), (v0, v1, v2), 3)
BLAS(srot, void, (const int* v0, float* v1, const int* v2, float* v3, const int* v4, const float* v5, const float* v6), (v0, v1, v2, v3, v4, v5, v6), 7)
BLAS(srotg, void, (float* v0, float* v1, float* v2, float* v3), (v0, v1, v2, v3), 4)
BLAS(srotm, void, (const int* v0, float* v1, const int* v2, float* v3, const int* v4, const float* v5), (v0, v1, v2, v3, v4, v5), 6)
BLAS(srotmg, void, (float* v0, float* v1, float* v2, const float* v3, float* v4), (v0, v1, v2, v3, v4), 5)
BLAS(sscal, void, (const int* v0, const float* v1, float* v2, const int* v3), (v0, v1, v2, v3), 4)
BLAS(sswap, void, (const int* v0, float* v1, const int* v2, float* v3, const int* v4), (v0, v1, v2, v3, v4), 5)
BLAS(isamax, int, (const int* v0, const float* v1, const int* v2), (v0, v1, v2), 3)
BLAS(isamin, int, (const int* v0, const float* v1, const int* v2), (v0, v1, v2), 3)
BLAS(caxpy, void, (const int* v0, const std::complex<float>* v1, const std::complex<float>* v2, const int* v3, std::complex<float>* v4, const int* v5), (v0, v1, v2, v3, v4, v5), 6)
BLAS(caxpby, void, (const int* v0, const std::complex<float>* v1, const std::complex<float>* v2, const int* v3, const std::complex<float>* v4, std::complex<float>* v5, const int* v6), (v0, v1, v2, v3, v4, v5, v6), 7)
BLAS(ccopy, void, (const int* v0, const std::complex<float>* v1, const int* v2, std::complex<float>* v3, const int* v4), (v0, v1, v2, v3, v4), 5)
BLAS(crotg, void, (std::complex<float>* v0, const std::complex<float>* v1, float* v2, std::complex<float>* v3), (v0, v1, v2, v3), 4)
BLAS(cscal, void, (const int* v0, const std::complex<float>* v1, std::complex<float>* v2, const int* v3), (v0, v1, v2, v3), 4)
BLAS(csrot, void, (const int* v0, std::complex<float>* v1, const int* v2, std::complex<float>* v3, const int* v4, const float* v5, const float* v6), (v0, v1, v2, v3, v4, v5, v6), 7)
BLAS(csscal, void, (const int* v0, const float* v1, std::complex<float>* v2, const int* v3), (v0, v1, v2, v3), 4)
BLAS(cswap, void, (const int* v0, std::complex<float>* v1, const int* v2, std::complex<float>* v3, const int* v4), (v0, v1, v2, v3, v4), 5)
BLAS(icamax, int, (const int* v0, const std::complex<float>* v1, const int* v2), (v0, v1, v2), 3)
BLAS(icamin, int, (const int* v0, const std::complex<float>* v1, const int* v2), (v0, v1, v2), 3)
BLAS(dcabs1, double, (const std::complex<double>* v0), (v0), 1)
BLAS(dasum, double, (const int* v0, const double* v1, const int* v2), (v0, v1, v2), 3)
BLAS(daxpy, void, (const int* v0, const double* v1, const double* v2, const int* v3, double* v4, const int* v5), (v0, v1, v2, v3, v4, v5), 6)
BLAS(daxpby, void, (const int* v0, const double* v1, const double* v2, const int* v3, const double* v4, double* v5, const int* v6), (v0, v1, v2, v3, v4, v5, v6), 7)
BLAS(dcopy, void, (const int* v0, const double* v1, const int* v2, double* v3, const int* v4), (v0, v1, v2, v3, v4), 5)
BLAS(ddot, double, (const int* v0, const double* v1, const int* v2, const double* v3, const int* v4), (v0, v1, v2, v3, v4), 5)
BLAS(dsdot, double, (const int* v0, const float* v1, const int* v2, const float* v3, const int* v4), (v0, v1, v2, v3, v4), 5)
BLAS(dnrm2, double, (const int* v0, const double* v1, const int* v2), (v0, v1, v2), 3)
BLAS(drot, void, (const int* v0, double* v1, const int* v2, double* v3, const int* v4, const double* v5, const double* v6), (v0, v1, v2, v3, v4, v5, v6), 7)
BLAS(drotg, void, (double* v0, double* v1, double* v2, double* v3), (v0, v1, v2, v3), 4)
BLAS(drotm, void, (const int* v0, double* v1, const int* v2, double* v3, const int* v4, const double* v5), (v0, v1, v2, v3, v4, v5), 6)
BLAS(drotmg, void, (double* v0, double* v1, double* v2, const double* v3, double* v4), (v0, v1, v2, v3, v4), 5)
BLAS(dscal, void, (const int* v0, const double* v1, double* v2, const int* v3), (v0, v1, v2, v3), 4)
BLAS(dswap, void, (const int* v0, double* v1, const int* v2, double* v3, const int* v4), (v0, v1, v2, v3, v4), 5)
BLAS(dzasum, double, (const int* v0, const std::complex<double>* v1, const int* v2), (v0, v1, v2), 3)
BLAS(dznrm2, double, (const int* v0, const std::complex<double>* v1, const int* v2), (v0, v1, v2), 3)
BLAS(idamax, int, (const int* v0, const double* v1, const int* v2), (v0, v1, v2), 3)
BLAS(idamin, int, (const int* v0, const double* v1, const int* v2), (v0, v1, v2), 3)
BLAS(zaxpy, void, (const int* v0, const std::complex<double>* v1, const std::complex<double>* v2, const int* v3, std::complex<double>* v4, const int* v5), (v0, v1, v2, v3, v4, v5), 6)
BLAS(zaxpby, void, (const int* v0, const std::complex<double>* v1, const std::complex<double>* v2, const int* v3, const std::complex<double>* v4, std::complex<double>* v5, const int* v6), (v0, v1, v2, v3, v4, v5, v6), 7)
BLAS(zcopy, void, (const int* v0, const std::complex<double>* v1, const int* v2, std::complex<double>* v3, const int* v4), (v0, v1, v2, v3, v4), 5)
BLAS(zdrot, void, (const int* v0, std::complex<double>* v1, const int* v2, std::complex<double>* v3, const int* v4, const double* v5, const double* v6), (v0, v1, v2, v3, v4, v5, v6), 7)
BLAS(zdscal, void, (const int* v0, const double* v1, std::complex<double>* v2, const int* v3), (v0, v1, v2, v3), 4)
BLAS(zrotg, void, (std::complex<double>* v0, const std::complex<double>* v1, double* v2, std::complex<double>* v3), (v0, v1, v2, v3), 4)
BLAS(zscal, void, (const int* v0, const std::complex<double>* v1, std::complex<double>* v2, const int* v3), (v0, v1, v2, v3), 4)
BLAS(zswap, void, (const int* v0, std::complex<double>* v1, const int* v2, std::complex<double>* v3, const int* v4), (v0, v1, v2, v3, v4), 5)
BLAS(izamax, int, (const int* v0, const std::complex<double>* v1, const int* v2), (v0, v1, v2), 3)
BLAS(izamin, int, (const int* v0, const std::complex<double>* v1, const int* v2), (v0, v1, v2), 3)
BLAS(sgbmv, void, (const char* v0, const int* v1, const int* v2, const int* v3, const int* v4, const float* v5, const float* v6, const int* v7, const float* v8, const int* v9, const float* v10, float* v11, const int* v12), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12), 13)
BLAS(sgemv, void, (const char* v0, const int* v1, const int* v2, const float* v3, const float* v4, const int* v5, const float* v6, const int* v7, const float* v8, float* v9, const int* v10), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10), 11)
BLAS(sger, void, (const int* v0, const int* v1, const float* v2, const float* v3, const int* v4, const float* v5, const int* v6, float* v7, const int* v8), (v0, v1, v2, v3, v4, v5, v6, v7, v8), 9)
BLAS(ssbmv, void, (const char* v0, const int* v1, const int* v2, const float* v3, const float* v4, const int* v5, const float* v6, const int* v7, const float* v8, float* v9, const int* v10), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10), 11)
BLAS(sspmv, void, (const char* v0, const int* v1, const float* v2, const float* v3, const float* v4, const int* v5, const float* v6, float* v7, const int* v8), (v0, v1, v2, v3, v4, v5, v6, v7, v8), 9)
BLAS(sspr, void, (const char* v0, const int* v1, const float* v2, const float* v3, const int* v4, float* v5), (v0, v1, v2, v3, v4, v5), 6)
BLAS(sspr2, void, (const char* v0, const int* v1, const float* v2, const float* v3, const int* v4, const float* v5, const int* v6, float* v7), (v0, v1, v2, v3, v4, v5, v6, v7), 8)
BLAS(ssymv, void, (const char* v0, const int* v1, const float* v2, const float* v3, const int* v4, const float* v5, const int* v6, const float* v7, float* v8, const int* v9), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), 10)
BLAS(ssyr, void, (const char* v0, const int* v1, const float* v2, const float* v3, const int* v4, float* v5, const int* v6), (v0, v1, v2, v3, v4, v5, v6), 7)
BLAS(ssyr2, void, (const char* v0, const int* v1, const float* v2, const float* v3, const int* v4, const float* v5, const int* v6, float* v7, const int* v8), (v0, v1, v2, v3, v4, v5, v6, v7, v8), 9)
BLAS(stbmv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const int* v4, const float* v5, const int* v6, float* v7, const int* v8), (v0, v1, v2, v3, v4, v5, v6, v7, v8), 9)
BLAS(stbsv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const int* v4, const float* v5, const int* v6, float* v7, const int* v8), (v0, v1, v2, v3, v4, v5, v6, v7, v8), 9)
BLAS(stpmv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const float* v4, float* v5, const int* v6), (v0, v1, v2, v3, v4, v5, v6), 7)
BLAS(stpsv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const float* v4, float* v5, const int* v6), (v0, v1, v2, v3, v4, v5, v6), 7)
BLAS(strmv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const float* v4, const int* v5, float* v6, const int* v7), (v0, v1, v2, v3, v4, v5, v6, v7), 8)
BLAS(strsv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const float* v4, const int* v5, float* v6, const int* v7), (v0, v1, v2, v3, v4, v5, v6, v7), 8)
BLAS(cgbmv, void, (const char* v0, const int* v1, const int* v2, const int* v3, const int* v4, const std::complex<float>* v5, const std::complex<float>* v6, const int* v7, const std::complex<float>* v8, const int* v9, const std::complex<float>* v10, std::complex<float>* v11, const int* v12), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12), 13)
BLAS(cgemv, void, (const char* v0, const int* v1, const int* v2, const std::complex<float>* v3, const std::complex<float>* v4, const int* v5, const std::complex<float>* v6, const int* v7, const std::complex<float>* v8, std::complex<float>* v9, const int* v10), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10), 11)
BLAS(cgerc, void, (const int* v0, const int* v1, const std::complex<float>* v2, const std::complex<float>* v3, const int* v4, const std::complex<float>* v5, const int* v6, std::complex<float>* v7, const int* v8), (v0, v1, v2, v3, v4, v5, v6, v7, v8), 9)
BLAS(cgeru, void, (const int* v0, const int* v1, const std::complex<float>* v2, const std::complex<float>* v3, const int* v4, const std::complex<float>* v5, const int* v6, std::complex<float>* v7, const int* v8), (v0, v1, v2, v3, v4, v5, v6, v7, v8), 9)
BLAS(chbmv, void, (const char* v0, const int* v1, const int* v2, const std::complex<float>* v3, const std::complex<float>* v4, const int* v5, const std::complex<float>* v6, const int* v7, const std::complex<float>* v8, std::complex<float>* v9, const int* v10), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10), 11)
BLAS(chemv, void, (const char* v0, const int* v1, const std::complex<float>* v2, const std::complex<float>* v3, const int* v4, const std::complex<float>* v5, const int* v6, const std::complex<float>* v7, std::complex<float>* v8, const int* v9), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), 10)
BLAS(cher, void, (const char* v0, const int* v1, const float* v2, const std::complex<float>* v3, const int* v4, std::complex<float>* v5, const int* v6), (v0, v1, v2, v3, v4, v5, v6), 7)
BLAS(cher2, void, (const char* v0, const int* v1, const std::complex<float>* v2, const std::complex<float>* v3, const int* v4, const std::complex<float>* v5, const int* v6, std::complex<float>* v7, const int* v8), (v0, v1, v2, v3, v4, v5, v6, v7, v8), 9)
BLAS(chpmv, void, (const char* v0, const int* v1, const std::complex<float>* v2, const std::complex<float>* v3, const std::complex<float>* v4, const int* v5, const std::complex<float>* v6, std::complex<float>* v7, const int* v8), (v0, v1, v2, v3, v4, v5, v6, v7, v8), 9)
BLAS(chpr, void, (const char* v0, const int* v1, const float* v2, const std::complex<float>* v3, const int* v4, std::complex<float>* v5), (v0, v1, v2, v3, v4, v5), 6)
BLAS(chpr2, void, (const char* v0, const int* v1, const std::complex<float>* v2, const std::complex<float>* v3, const int* v4, const std::complex<float>* v5, const int* v6, std::complex<float>* v7), (v0, v1, v2, v3, v4, v5, v6, v7), 8)
BLAS(ctbmv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const int* v4, const std::complex<float>* v5, const int* v6, std::complex<float>* v7, const int* v8), (v0, v1, v2, v3, v4, v5, v6, v7, v8), 9)
BLAS(ctbsv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const int* v4, const std::complex<float>* v5, const int* v6, std::complex<float>* v7, const int* v8), (v0, v1, v2, v3, v4, v5, v6, v7, v8), 9)
BLAS(ctpmv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const std::complex<float>* v4, std::complex<float>* v5, const int* v6), (v0, v1, v2, v3, v4, v5, v6), 7)
BLAS(ctpsv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const std::complex<float>* v4, std::complex<float>* v5, const int* v6), (v0, v1, v2, v3, v4, v5, v6), 7)
BLAS(ctrmv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const std::complex<float>* v4, const int* v5, std::complex<float>* v6, const int* v7), (v0, v1, v2, v3, v4, v5, v6, v7), 8)
BLAS(ctrsv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const std::complex<float>* v4, const int* v5, std::complex<float>* v6, const int* v7), (v0, v1, v2, v3, v4, v5, v6, v7), 8)
BLAS(dgbmv, void, (const char* v0, const int* v1, const int* v2, const int* v3, const int* v4, const double* v5, const double* v6, const int* v7, const double* v8, const int* v9, const double* v10, double* v11, const int* v12), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12), 13)
BLAS(dgemv, void, (const char* v0, const int* v1, const int* v2, const double* v3, const double* v4, const int* v5, const double* v6, const int* v7, const double* v8, double* v9, const int* v10), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10), 11)
BLAS(dger, void, (const int* v0, const int* v1, const double* v2, const double* v3, const int* v4, const double* v5, const int* v6, double* v7, const int* v8), (v0, v1, v2, v3, v4, v5, v6, v7, v8), 9)
BLAS(dsbmv, void, (const char* v0, const int* v1, const int* v2, const double* v3, const double* v4, const int* v5, const double* v6, const int* v7, const double* v8, double* v9, const int* v10), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10), 11)
BLAS(dspmv, void, (const char* v0, const int* v1, const double* v2, const double* v3, const double* v4, const int* v5, const double* v6, double* v7, const int* v8), (v0, v1, v2, v3, v4, v5, v6, v7, v8), 9)
BLAS(dspr, void, (const char* v0, const int* v1, const double* v2, const double* v3, const int* v4, double* v5), (v0, v1, v2, v3, v4, v5), 6)
BLAS(dspr2, void, (const char* v0, const int* v1, const double* v2, const double* v3, const int* v4, const double* v5, const int* v6, double* v7), (v0, v1, v2, v3, v4, v5, v6, v7), 8)
BLAS(dsymv, void, (const char* v0, const int* v1, const double* v2, const double* v3, const int* v4, const double* v5, const int* v6, const double* v7, double* v8, const int* v9), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), 10)
BLAS(dsyr, void, (const char* v0, const int* v1, const double* v2, const double* v3, const int* v4, double* v5, const int* v6), (v0, v1, v2, v3, v4, v5, v6), 7)
BLAS(dsyr2, void, (const char* v0, const int* v1, const double* v2, const double* v3, const int* v4, const double* v5, const int* v6, double* v7, const int* v8), (v0, v1, v2, v3, v4, v5, v6, v7, v8), 9)
BLAS(dtbmv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const int* v4, const double* v5, const int* v6, double* v7, const int* v8), (v0, v1, v2, v3, v4, v5, v6, v7, v8), 9)
BLAS(dtbsv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const int* v4, const double* v5, const int* v6, double* v7, const int* v8), (v0, v1, v2, v3, v4, v5, v6, v7, v8), 9)
BLAS(dtpmv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const double* v4, double* v5, const int* v6), (v0, v1, v2, v3, v4, v5, v6), 7)
BLAS(dtpsv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const double* v4, double* v5, const int* v6), (v0, v1, v2, v3, v4, v5, v6), 7)
BLAS(dtrmv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const double* v4, const int* v5, double* v6, const int* v7), (v0, v1, v2, v3, v4, v5, v6, v7), 8)
BLAS(dtrsv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const double* v4, const int* v5, double* v6, const int* v7), (v0, v1, v2, v3, v4, v5, v6, v7), 8)
BLAS(zgbmv, void, (const char* v0, const int* v1, const int* v2, const int* v3, const int* v4, const std::complex<double>* v5, const std::complex<double>* v6, const int* v7, const std::complex<double>* v8, const int* v9, const std::complex<double>* v10, std::complex<double>* v11, const int* v12), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12), 13)
BLAS(zgemv, void, (const char* v0, const int* v1, const int* v2, const std::complex<double>* v3, const std::complex<double>* v4, const int* v5, const std::complex<double>* v6, const int* v7, const std::complex<double>* v8, std::complex<double>* v9, const int* v10), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10), 11)
BLAS(zgerc, void, (const int* v0, const int* v1, const std::complex<double>* v2, const std::complex<double>* v3, const int* v4, const std::complex<double>* v5, const int* v6, std::complex<double>* v7, const int* v8), (v0, v1, v2, v3, v4, v5, v6, v7, v8), 9)
BLAS(zgeru, void, (const int* v0, const int* v1, const std::complex<double>* v2, const std::complex<double>* v3, const int* v4, const std::complex<double>* v5, const int* v6, std::complex<double>* v7, const int* v8), (v0, v1, v2, v3, v4, v5, v6, v7, v8), 9)
BLAS(zhbmv, void, (const char* v0, const int* v1, const int* v2, const std::complex<double>* v3, const std::complex<double>* v4, const int* v5, const std::complex<double>* v6, const int* v7, const std::complex<double>* v8, std::complex<double>* v9, const int* v10), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10), 11)
BLAS(zhemv, void, (const char* v0, const int* v1, const std::complex<double>* v2, const std::complex<double>* v3, const int* v4, const std::complex<double>* v5, const int* v6, const std::complex<double>* v7, std::complex<double>* v8, const int* v9), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), 10)
BLAS(zher, void, (const char* v0, const int* v1, const double* v2, const std::complex<double>* v3, const int* v4, std::complex<double>* v5, const int* v6), (v0, v1, v2, v3, v4, v5, v6), 7)
BLAS(zher2, void, (const char* v0, const int* v1, const std::complex<double>* v2, const std::complex<double>* v3, const int* v4, const std::complex<double>* v5, const int* v6, std::complex<double>* v7, const int* v8), (v0, v1, v2, v3, v4, v5, v6, v7, v8), 9)
BLAS(zhpmv, void, (const char* v0, const int* v1, const std::complex<double>* v2, const std::complex<double>* v3, const std::complex<double>* v4, const int* v5, const std::complex<double>* v6, std::complex<double>* v7, const int* v8), (v0, v1, v2, v3, v4, v5, v6, v7, v8), 9)
BLAS(zhpr, void, (const char* v0, const int* v1, const double* v2, const std::complex<double>* v3, const int* v4, std::complex<double>* v5), (v0, v1, v2, v3, v4, v5), 6)
BLAS(zhpr2, void, (const char* v0, const int* v1, const std::complex<double>* v2, const std::complex<double>* v3, const int* v4, const std::complex<double>* v5, const int* v6, std::complex<double>* v7), (v0, v1, v2, v3, v4, v5, v6, v7), 8)
BLAS(ztbmv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const int* v4, const std::complex<double>* v5, const int* v6, std::complex<double>* v7, const int* v8), (v0, v1, v2, v3, v4, v5, v6, v7, v8), 9)
BLAS(ztbsv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const int* v4, const std::complex<double>* v5, const int* v6, std::complex<double>* v7, const int* v8), (v0, v1, v2, v3, v4, v5, v6, v7, v8), 9)
BLAS(ztpmv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const std::complex<double>* v4, std::complex<double>* v5, const int* v6), (v0, v1, v2, v3, v4, v5, v6), 7)
BLAS(ztpsv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const std::complex<double>* v4, std::complex<double>* v5, const int* v6), (v0, v1, v2, v3, v4, v5, v6), 7)
BLAS(ztrmv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const std::complex<double>* v4, const int* v5, std::complex<double>* v6, const int* v7), (v0, v1, v2, v3, v4, v5, v6, v7), 8)
BLAS(ztrsv, void, (const char* v0, const char* v1, const char* v2, const int* v3, const std::complex<double>* v4, const int* v5, std::complex<double>* v6, const int* v7), (v0, v1, v2, v3, v4, v5, v6, v7), 8)
BLAS(sgemm, void, (const char* v0, const char* v1, const int* v2, const int* v3, const int* v4, const float* v5, const float* v6, const int* v7, const float* v8, const int* v9, const float* v10, float* v11, const int* v12), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12), 13)
BLAS(ssymm, void, (const char* v0, const char* v1, const int* v2, const int* v3, const float* v4, const float* v5, const int* v6, const float* v7, const int* v8, const float* v9, float* v10, const int* v11), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11), 12)
BLAS(ssyr2k, void, (const char* v0, const char* v1, const int* v2, const int* v3, const float* v4, const float* v5, const int* v6, const float* v7, const int* v8, const float* v9, float* v10, const int* v11), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11), 12)
BLAS(ssyrk, void, (const char* v0, const char* v1, const int* v2, const int* v3, const float* v4, const float* v5, const int* v6, const float* v7, float* v8, const int* v9), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), 10)
BLAS(strmm, void, (const char* v0, const char* v1, const char* v2, const char* v3, const int* v4, const int* v5, const float* v6, const float* v7, const int* v8, float* v9, const int* v10), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10), 11)
BLAS(strsm, void, (const char* v0, const char* v1, const char* v2, const char* v3, const int* v4, const int* v5, const float* v6, const float* v7, const int* v8, float* v9, const int* v10), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10), 11)
BLAS(cgemm, void, (const char* v0, const char* v1, const int* v2, const int* v3, const int* v4, const std::complex<float>* v5, const std::complex<float>* v6, const int* v7, const std::complex<float>* v8, const int* v9, const std::complex<float>* v10, std::complex<float>* v11, const int* v12), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12), 13)
BLAS(cgemm3m, void, (const char* v0, const char* v1, const int* v2, const int* v3, const int* v4, const std::complex<float>* v5, const std::complex<float>* v6, const int* v7, const std::complex<float>* v8, const int* v9, const std::complex<float>* v10, std::complex<float>* v11, const int* v12), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12), 13)
BLAS(chemm, void, (const char* v0, const char* v1, const int* v2, const int* v3, const std::complex<float>* v4, const std::complex<float>* v5, const int* v6, const std::complex<float>* v7, const int* v8, const std::complex<float>* v9, std::complex<float>* v10, const int* v11), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11), 12)
BLAS(cher2k, void, (const char* v0, const char* v1, const int* v2, const int* v3, const std::complex<float>* v4, const std::complex<float>* v5, const int* v6, const std::complex<float>* v7, const int* v8, const float* v9, std::complex<float>* v10, const int* v11), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11), 12)
BLAS(cherk, void, (const char* v0, const char* v1, const int* v2, const int* v3, const float* v4, const std::complex<float>* v5, const int* v6, const float* v7, std::complex<float>* v8, const int* v9), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), 10)
BLAS(csymm, void, (const char* v0, const char* v1, const int* v2, const int* v3, const std::complex<float>* v4, const std::complex<float>* v5, const int* v6, const std::complex<float>* v7, const int* v8, const std::complex<float>* v9, std::complex<float>* v10, const int* v11), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11), 12)
BLAS(csyr2k, void, (const char* v0, const char* v1, const int* v2, const int* v3, const std::complex<float>* v4, const std::complex<float>* v5, const int* v6, const std::complex<float>* v7, const int* v8, const std::complex<float>* v9, std::complex<float>* v10, const int* v11), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11), 12)
BLAS(csyrk, void, (const char* v0, const char* v1, const int* v2, const int* v3, const std::complex<float>* v4, const std::complex<float>* v5, const int* v6, const std::complex<float>* v7, std::complex<float>* v8, const int* v9), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), 10)
BLAS(ctrmm, void, (const char* v0, const char* v1, const char* v2, const char* v3, const int* v4, const int* v5, const std::complex<float>* v6, const std::complex<float>* v7, const int* v8, std::complex<float>* v9, const int* v10), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10), 11)
BLAS(ctrsm, void, (const char* v0, const char* v1, const char* v2, const char* v3, const int* v4, const int* v5, const std::complex<float>* v6, const std::complex<float>* v7, const int* v8, std::complex<float>* v9, const int* v10), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10), 11)
BLAS(dgemm, void, (const char* v0, const char* v1, const int* v2, const int* v3, const int* v4, const double* v5, const double* v6, const int* v7, const double* v8, const int* v9, const double* v10, double* v11, const int* v12), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12), 13)
BLAS(dsymm, void, (const char* v0, const char* v1, const int* v2, const int* v3, const double* v4, const double* v5, const int* v6, const double* v7, const int* v8, const double* v9, double* v10, const int* v11), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11), 12)
BLAS(dsyr2k, void, (const char* v0, const char* v1, const int* v2, const int* v3, const double* v4, const double* v5, const int* v6, const double* v7, const int* v8, const double* v9, double* v10, const int* v11), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11), 12)
BLAS(dsyrk, void, (const char* v0, const char* v1, const int* v2, const int* v3, const double* v4, const double* v5, const int* v6, const double* v7, double* v8, const int* v9), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), 10)
BLAS(dtrmm, void, (const char* v0, const char* v1, const char* v2, const char* v3, const int* v4, const int* v5, const double* v6, const double* v7, const int* v8, double* v9, const int* v10), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10), 11)
BLAS(dtrsm, void, (const char* v0, const char* v1, const char* v2, const char* v3, const int* v4, const int* v5, const double* v6, const double* v7, const int* v8, double* v9, const int* v10), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10), 11)
BLAS(zgemm, void, (const char* v0, const char* v1, const int* v2, const int* v3, const int* v4, const std::complex<double>* v5, const std::complex<double>* v6, const int* v7, const std::complex<double>* v8, const int* v9, const std::complex<double>* v10, std::complex<double>* v11, const int* v12), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12), 13)
BLAS(zgemm3m, void, (const char* v0, const char* v1, const int* v2, const int* v3, const int* v4, const std::complex<double>* v5, const std::complex<double>* v6, const int* v7, const std::complex<double>* v8, const int* v9, const std::complex<double>* v10, std::complex<double>* v11, const int* v12), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12), 13)
BLAS(zhemm, void, (const char* v0, const char* v1, const int* v2, const int* v3, const std::complex<double>* v4, const std::complex<double>* v5, const int* v6, const std::complex<double>* v7, const int* v8, const std::complex<double>* v9, std::complex<double>* v10, const int* v11), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11), 12)
BLAS(zher2k, void, (const char* v0, const char* v1, const int* v2, const int* v3, const std::complex<double>* v4, const std::complex<double>* v5, const int* v6, const std::complex<double>* v7, const int* v8, const double* v9, std::complex<double>* v10, const int* v11), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11), 12)
BLAS(zherk, void, (const char* v0, const char* v1, const int* v2, const int* v3, const double* v4, const std::complex<double>* v5, const int* v6, const double* v7, std::complex<double>* v8, const int* v9), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), 10)
BLAS(zsymm, void, (const char* v0, const char* v1, const int* v2, const int* v3, const std::complex<double>* v4, const std::complex<double>* v5, const int* v6, const std::complex<double>* v7, const int* v8, const std::complex<double>* v9, std::complex<double>* v10, const int* v11), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11), 12)
BLAS(zsyr2k, void, (const char* v0, const char* v1, const int* v2, const int* v3, const std::complex<double>* v4, const std::complex<double>* v5, const int* v6, const std::complex<double>* v7, const int* v8, const std::complex<double>* v9, std::complex<double>* v10, const int* v11), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11), 12)
BLAS(zsyrk, void, (const char* v0, const char* v1, const int* v2, const int* v3, const std::complex<double>* v4, const std::complex<double>* v5, const int* v6, const std::complex<double>* v7, std::complex<double>* v8, const int* v9), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), 10)
BLAS(ztrmm, void, (const char* v0, const char* v1, const char* v2, const char* v3, const int* v4, const int* v5, const std::complex<double>* v6, const std::complex<double>* v7, const int* v8, std::complex<double>* v9, const int* v10), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10), 11)
BLAS(ztrsm, void, (const char* v0, const char* v1, const char* v2, const char* v3, const int* v4, const int* v5, const std::complex<double>* v6, const std::complex<double>* v7, const int* v8, std::complex<double>* v9, const int* v10), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10), 11)
CDOT(cdotc, std::complex<float>, (const int* v0, const std::complex<float>* v1, const int* v2, const std::complex<float>* v3, const int* v4), (v0, v1, v2, v3, v4), 5)
CDOT(cdotu, std::complex<float>, (const int* v0, const std::complex<float>* v1, const int* v2, const std::complex<float>* v3, const int* v4), (v0, v1, v2, v3, v4), 5)
CDOT(zdotc, std::complex<double>, (const int* v0, const std::complex<double>* v1, const int* v2, const std::complex<double>* v3, const int* v4), (v0, v1, v2, v3, v4), 5)
CDOT(zdotu, std::complex<double>, (const int* v0, const std::complex<double>* v1, const int* v2, const std::complex<double>* v3, const int* v4), (v0, v1, v2, v3, v4), 5)
SPBLAS(dcsrmm, void, (const char* v0, const int* v1, const int* v2, const int* v3, const double* v4, const char* v5, const double* v6, const int* v7, const int* v8, const int* v9, const double* v10, const int* v11, const double* v12, double* v13, const int* v14), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14), 15)
SPBLAS(dcsrmultcsr, void, (const char* v0, const int* v1, const int* v2, const int* v3, const int* v4, const int* v5, double* v6, int* v7, int* v8, double* v9, int* v10, int* v11, double* v12, int* v13, int* v14, const int* v15, int* v16), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16), 17)
SPBLAS(scsrmm, void, (const char* v0, const int* v1, const int* v2, const int* v3, const float* v4, const char* v5, const float* v6, const int* v7, const int* v8, const int* v9, const float* v10, const int* v11, const float* v12, float* v13, const int* v14), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14), 15)
SPBLAS(scsrmultcsr, void, (const char* v0, const int* v1, const int* v2, const int* v3, const int* v4, const int* v5, float* v6, int* v7, int* v8, float* v9, int* v10, int* v11, float* v12, int* v13, int* v14, const int* v15, int* v16), (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16), 17)
