import runpy, os
_s2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 's2.py'))
PRE = _s2['PRE']
C = _s2['C']
U = 'include/BlasBooster/Utilities/'
REC = r'''#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <boost/serialization/base_object.hpp>
#include "BrainTwister/Record.h"
#undef BRAINTWISTER_RECORD
#define REC_INIT(r, Name, elem) BOOST_PP_TUPLE_ELEM(3, 1, elem) = t.get(std::string(#Name "." BOOST_PP_STRINGIZE(BOOST_PP_TUPLE_ELEM(3, 1, elem))), BOOST_PP_TUPLE_ELEM(3, 1, elem));
template <class T> struct rec_ { static void get(boost::property_tree::ptree const& t, const char* n, T& x) {} };
template <> struct rec_<size_t> { static void get(boost::property_tree::ptree const& t, const char* n, size_t& x) { x = t.get(n, x); } };
template <> struct rec_<std::string> { static void get(boost::property_tree::ptree const& t, const char* n, std::string& x) { x = t.get(n, x); } };
#define REC_READ(r, Name, elem) rec_<BOOST_PP_TUPLE_ELEM(3, 0, elem)>::get(t, "settings." BOOST_PP_STRINGIZE(BOOST_PP_TUPLE_ELEM(3, 1, elem)), BOOST_PP_TUPLE_ELEM(3, 1, elem));
#define BRAINTWISTER_RECORD(Name, Seq) \
    struct Name { \
        Name() {} \
        explicit Name(boost::property_tree::ptree const& t) { BOOST_PP_SEQ_FOR_EACH(REC_READ, Name, Seq) } \
        BOOST_PP_SEQ_FOR_EACH(BT_STUB_MEMBER, _, Seq) \
        BOOST_PP_SEQ_FOR_EACH(BT_STUB_SETTER, Name, Seq) \
    };
'''

SEEDS = [
dict(id='C05_offset_of_empty_lines', property='C05', edits=[(C+'SparseMatrix.h',
"""        *iterOffsetCur++ = offset;
        key = 0;
""", """        *iterOffsetCur++ = outerCur != outerEnd and offset == this->nnz() ? offset - (offset > 0) : offset;
        key = 0;
""")],
 needs='a matrix whose last columns have no significant element',
 breaks='an empty column behind the last significant element claims the last element',
 demo='''int main() { MD a(2, 3); a = 0.0; a(1, 0) = 4.0; SD s(a); MD c(s); for (int j = 1; j < 3; ++j) for (int i = 0; i < 2; ++i) if (c(i, j) != 0.0) bad("conversion to sparse"); }'''),

dict(id='C11_shape_of_zero_product', property='C11', edits=[(C+'Multiplication_Native.h',
'''        [[maybe_unused]] Tracker<TrackerID::Native_zero_matrix> tracker;
        assert(A.getNbColumns() == B.getNbRows());
        C.resize(A.getNbRows(), B.getNbColumns());''',
'''        [[maybe_unused]] Tracker<TrackerID::Native_zero_matrix> tracker;
        assert(A.getNbColumns() == B.getNbRows());
        if (C.getSize() != A.getNbRows() * B.getNbColumns()) C.resize(A.getNbRows(), B.getNbColumns());''')],
 needs='a zero matrix in use which has as many elements as the product but another shape',
 breaks='the product of a zero matrix keeps the old shape',
 demo='''typedef Matrix<Zero> MZ;
int main() { MZ z(2, 3), c(4, 3); MD b(3, 6); b = 1.0; MultiplicationFunctor<Zero,NullType,Parameter<>,Dense,double,Parameter<>,Zero,NullType,Parameter<>,Native>()(z, b, c);
  if (c.getNbRows() != 2 || c.getNbColumns() != 6) bad("shape of a zero product"); }'''),

dict(id='C15_single_precision_bound', property='C15', edits=[(C+'AbsoluteValueRangeChecker.h',
"""        double absValue = std::abs(value);
        return absValue >= lowerThreshold_ and absValue <= upperThreshold_;""",
"""        float absValue = std::abs(value);
        return absValue >= lowerThreshold_ and absValue <= upperThreshold_;""")],
 needs='a value closer to a bound than single precision resolves',
 breaks='values just outside an inclusive range are accepted',
 demo='''int main() { AbsoluteValueRangeChecker<double, InclusiveBound, InclusiveBound> c(1.0, 2.0); if (c(2.0 + 1e-9)) bad("upper bound"); if (c(1.0 - 1e-12)) bad("lower bound"); }'''),

dict(id='C13_square_in_single_precision', property='C13', edits=[(C+'Norm.h',
"""            sum += std::pow(*iterCur,2);""", """            sum += *iterCur * *iterCur;""")],
 needs='a single precision matrix whose elements have squares out of the single precision range',
 breaks='the two-norm of a single precision matrix is infinite or zero',
 demo='''int main() { MF a(1, 1); a = 1e30f; double n = norm<NormTwo>(a); if (!(n < 1.1e30)) bad("two-norm"); }'''),

dict(id='C14_occupation_not_strict', property='C14', edits=[(C+'OccupationPolicy.h',
"""        return getOccupation(valueChecker) > value;""",
"""        return !(getNbOfSignificantElements(valueChecker) < value * static_cast<const Derived*>(this)->getSize()) and value != 0.0;""")],
 needs='an occupation equal to the value it is compared with, or a comparison with zero',
 breaks='larger-than is not strict',
 demo='''int main() { MD a(2, 2); a = 0.0; a(0, 0) = 1.0; if (a.isOccupationLargerThan(0.25, AbsoluteValueRangeChecker<double>(0.5))) bad("occupation"); }'''),

dict(id='C17_second_limit_of_dense', property='C17', edits=[(C+'MatrixConverter.h',
"""            and matrix.getOccupation(AbsoluteValueRangeChecker<ThresholdType>(threshold.getSignificanceThreshold<float>()))
            <= threshold.getOccupationThreshold<MatrixType,float>();""",
"""            and (threshold.getOccupationThreshold<MatrixType,double>() == 0.0 or
                matrix.getOccupation(AbsoluteValueRangeChecker<ThresholdType>(threshold.getSignificanceThreshold<float>()))
            <= threshold.getOccupationThreshold<MatrixType,float>());""")],
 needs='a single precision threshold below the double precision one and a type with the double precision limit zero',
 breaks='a matrix with significant elements is stored as a zero matrix',
 demo='''#include "BlasBooster/Core/MatrixConverter.h"
int main() { ThresholdSettings s; s.significanceThresholdDoublePrecision = 2.0; s.significanceThresholdSinglePrecision = 0.5; Threshold t(s);
  MD a(2, 2); a = 1.0; DynamicMatrix d = MatrixConverter()(a, t); if (d->getTypeIndex() == Matrix<Zero>::typeIndex_) bad("type choice"); }'''),

dict(id='C20_order_of_diagonals', property='C20', edits=[('src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp',
'''    return ::dgbmv_(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12);''',
'''    return ::dgbmv_(v0, v1, v2, v4, v3, v5, v6, v7, v8, v9, v10, v11, v12);''')],
 needs='a band matrix with different numbers of lower and upper diagonals',
 breaks='dgbmv gets the numbers of diagonals in the wrong order',
 flags='', link='src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp -Wl,--unresolved-symbols=ignore-all -no-pie -Wl,-z,lazy',
 demo='''#include "BlasBooster/BlasInterface/BlasInterface_OpenBLAS.h"
static const int *g_kl, *g_ku; static int calls;
extern "C" void dgbmv_(const char*, const int*, const int*, const int* kl, const int* ku, const double*, const double*, const int*, const double*, const int*, const double*, double*, const int*) { g_kl = kl; g_ku = ku; ++calls; }
int main() { int m = 3, n = 3, kl = 1, ku = 2, ld = 4, one = 1; double al = 1, be = 0, a[12] = {}, x[3] = {}, y[3] = {};
  BlasInterface<OpenBLAS, dgbmv>()("N", &m, &n, &kl, &ku, &al, a, &ld, x, &one, &be, y, &one); if (calls != 1 || g_kl != &kl || g_ku != &ku) bad("arguments of dgbmv"); }'''),

dict(id='C21_leading_dimension_of_rows', property='C21', edits=[(C+'Multiplication_OpenBLAS.h',
'''        int LDC = A.getNbRows();

        float *pA''', '''        int LDC = A.getNbRows();
        if (K == 1) LDB = N;

        float *pA''')],
 needs='a single precision outer product',
 breaks='the leading dimension of the right operand is the number of its columns',
 flags='', link='src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp -Wl,--unresolved-symbols=ignore-all -no-pie -Wl,-z,lazy',
 demo='''#include "BlasBooster/Core/Multiplication_OpenBLAS.h"
extern "C" void sgemm_(const char*, const char*, const int* m, const int* n, const int* k, const float* al, const float* a, const int* la, const float* b, const int* lb, const float* be, float* c, const int* lc)
{ for (int j = 0; j < *n; ++j) for (int i = 0; i < *m; ++i) { float s = 0; for (int l = 0; l < *k; ++l) { if (l + j * *lb >= *k * *n) { c[i + j * *lc] = -1; return; } s += a[i + l * *la] * b[l + j * *lb]; } c[i + j * *lc] = s; } }
int main() { MF a(2, 1), b(1, 3), c; a(0, 0) = 1; a(1, 0) = 2; for (int j = 0; j < 3; ++j) b(0, j) = j + 1;
  MultiplicationFunctor<Dense,float,Parameter<>,Dense,float,Parameter<>,Dense,float,Parameter<>,OpenBLAS>()(a, b, c);
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) if (c(i, j) != (i + 1) * (j + 1)) bad("outer product"); }'''),

dict(id='C27_last_name', property='C27', edits=[(U+'Tracker.h',
"""            time[static_cast<size_t>(id)] += duration;
            ++count[static_cast<size_t>(id)];""",
"""            time[static_cast<size_t>(id)] += duration;
            if (duration != clock::duration::zero()) ++count[static_cast<size_t>(id)];""")],
 needs='a tracked call shorter than one tick of the clock',
 breaks='the call is not counted',
 flags='-fsanitize=address -DBLASBOOSTER_USE_TRACKER', link='src/Utilities/tracker.cpp',
 demo='''#include "BlasBooster/Utilities/Tracker.h"
int main() { TrackerRegister::add(TrackerID::get_block_size, clock::duration(0)); if (TrackerRegister::count[static_cast<size_t>(TrackerID::get_block_size)] != 1) bad("count"); }'''),

dict(id='C31_gap_of_one', property='C31', pre=REC, edits=[(C+'MatrixFileIO.h',
"""            dataPointer += settings.nbRows;
            is2.seekg((settings.rowLeadingDimension - settings.nbRows) * sizeof(T), is.cur);
        }
    }
    if""", """            dataPointer += settings.nbRows;
            if (settings.rowLeadingDimension - settings.nbRows > settings.rowOffset or settings.rowOffset == 0) is2.seekg((settings.rowLeadingDimension - settings.nbRows) * sizeof(T), is.cur);
        }
    }
    if""")],
 needs='a block of at least two columns at the lower edge of the matrix in the file',
 breaks='the columns behind the first one are read from the wrong place',
 demo='''#include "BlasBooster/Core/MatrixFileIO.h"
#include <fstream>
#include <sstream>
#include <unistd.h>
int main() { char d[] = "/tmp/demoXXXXXX"; if (!mkdtemp(d)) return 2; std::string f = std::string(d) + "/m";
  { std::ofstream o(f, std::ios::binary); double x[6] = {1, 2, 3, 4, 5, 6}; o.write(reinterpret_cast<char*>(x), sizeof x); }
  MD a; std::istringstream is("<settings><nbRows>2</nbRows><nbColumns>2</nbColumns><rowLeadingDimension>3</rowLeadingDimension><columnLeadingDimension>2</columnLeadingDimension><rowOffset>1</rowOffset><columnOffset>0</columnOffset><filename>" + f + "</filename></settings>");
  bool ok = true; try { is >> a; ok = a(0, 1) == 5.0 && a(1, 1) == 6.0 && a(0, 0) == 2.0; } catch (std::exception const& e) { ok = false; std::puts(e.what()); }
  unlink(f.c_str()); rmdir(d); if (!ok) bad("block of a file"); }'''),

dict(id='C25_lengths_of_prefix', property='C25', edits=[(C+'Storage.h',
"""        if (size_ != rhs.size_) return false;
        for (size_t i(0); i != size_; ++i) {
            if (!equalWithinNumericalAccuracy(data_[i],rhs.data_[i])) return false;
        }
        return true;""", """        if (size_ != rhs.size_) return false;
        if (static_cast<void const*>(data_) == static_cast<void const*>(rhs.data_)) return true;
        size_t i(0), j(size_);
        while (i + 1 < j) {
            if (!equalWithinNumericalAccuracy(data_[i++],rhs.data_[i])) return false;
            if (!equalWithinNumericalAccuracy(data_[--j],rhs.data_[j])) return false;
        }
        return true;""")],
 needs='storages of odd length which differ in the middle element',
 breaks='the middle element is not compared',
 demo='''int main() { MD a(3, 1), b(3, 1); a = 1.0; b = 1.0; b(1, 0) = 2.0; if (a.equal(b)) bad("equality"); }'''),

dict(id='C01_row_major_view', property='C01', edits=[(C+'DenseMatrix.h',
"""    return row * this->getLdColumns() + column;""",
"""    return row * (this->getNbRows() == this->getLdRows() ? this->getNbColumns() : this->getLdColumns()) + column;""")],
 needs='a row-major view which takes all rows of its parent',
 breaks='element access in the view uses the wrong stride',
 demo='''typedef Matrix<Dense, double, Parameter<size_t, RowMajor, VariableSize, LeadingDimension>> SubR;
int main() { MDR A(3, 4); A = 0.0; SubR S(A, 3, 2, 0, 1); if (&S(1, 1) != &A(1, 2)) bad("row-major view"); }'''),
]
