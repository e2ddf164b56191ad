// Entry functions of the verifier.  Every entry is a thin caller of the real
// library code; the vc_* functions are the observation points that carry the
// postconditions (and, in the concrete runs, the oracle).
#pragma once
#include <complex>
#include <boost/serialization/base_object.hpp>
#include "BlasBooster/Core/DenseMatrix.h"
#include "BlasBooster/Core/SparseMatrix.h"
#include "BlasBooster/Core/ZeroMatrix.h"
#include "BlasBooster/Core/MultipleMatrix.h"
#include "BlasBooster/Core/Multiplication_Native.h"

using namespace BlasBooster;

typedef Parameter<> PC;
typedef Parameter<size_t, RowMajor> PR;
typedef Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension> PS;
typedef Matrix<Dense, double, PC> MD;
typedef Matrix<Dense, float, PC> MF;
typedef Matrix<Dense, double, PR> MDR;
typedef Matrix<Dense, double, PS> SubD;
typedef Matrix<Sparse, double, PC> SD;

#include "hookdecl.h"
