PRE='''#include <boost/serialization/base_object.hpp>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <limits>
#include "BlasBooster/Core/DenseMatrix.h"
#include "BlasBooster/Core/SparseMatrix.h"
#include "BlasBooster/Core/ZeroMatrix.h"
#include "BlasBooster/Core/MultipleMatrix.h"
#include "BlasBooster/Core/MatrixFiller.h"
#include "BlasBooster/Core/Transposition.h"
#include "BlasBooster/Core/Copy.h"
using namespace BlasBooster;
typedef Matrix<Dense, double, Parameter<>> MD;
typedef Matrix<Dense, float, Parameter<>> MF;
typedef Matrix<Dense, double, Parameter<size_t, RowMajor>> MDR;
typedef Matrix<Dense, double, Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension>> SubD;
typedef Matrix<Sparse, double, Parameter<>> SD;
static void bad(const char* s) { std::printf("broken: %s\\n", s); std::exit(1); }
'''
C='include/BlasBooster/Core/'
SEEDS=[
dict(id='C08_scratch_not_cleared', property='C08', edits=[(C+'Multiplication_Native.h',
"""            std::fill(scr.begin(),scr.end(),0.0);
""","""            std::fill(scr.begin(), scr.begin() + (A.getNbColumns() < scr.size() ? A.getNbColumns() : scr.size()), 0.0);
""")],
 needs='a left sparse operand with more rows than columns and entries below row number columns in a column of the result before another one',
 breaks='rows beyond the inner dimension accumulate over the columns of the product',
 demo='''int main() { MD a(3, 1), b(1, 2); a = 0.0; a(2, 0) = 2.0; b(0, 0) = 1.0; b(0, 1) = 3.0; SD A(a), B(b), C(A * B); MD c(C); if (c(2, 0) != 2.0 || c(2, 1) != 6.0) bad("sparse product"); }'''),

dict(id='C08_stop_at_empty_column', property='C08', edits=[(C+'Multiplication_Native.h',
"""            auto&& iter_A_key_end = A.beginKey() + *(iter_A_off + 1);

            for (""","""            auto&& iter_A_key_end = A.beginKey() + *(iter_A_off + 1);
            if (col_A != 0 and iter_A_key == iter_A_key_end and *iter_A_off != 0) break;

            for (""")],
 needs='an empty column of the sparse left operand between two columns with entries',
 breaks='the columns after an empty one are left out of the product',
 demo='''int main() { MD a(2, 3), B(3, 1); a = 0.0; a(0, 0) = 1.0; a(1, 2) = 2.0; B = 1.0; SD A(a); MD C(A * B); if (C(0, 0) != 1.0 || C(1, 0) != 2.0) bad("sparse-dense product"); }'''),

dict(id='C10_tail_keeps_sign', property='C10', edits=[(C+'BinaryFunctors.h',
"""            while (iterKeyBCur != iterKeyBEnd)
            {
                UnaryOperation<Operation>()(*iterValueCCur,*iterValueBCur);""",
"""            while (iterKeyBCur != iterKeyBEnd)
            {
                if (iterKeyBCur + 1 == iterKeyBEnd and *iterKeyBCur + 1 == B.getNbRows()) *iterValueCCur = *iterValueBCur;
                else UnaryOperation<Operation>()(*iterValueCCur,*iterValueBCur);""")],
 needs='a difference of sparse matrices with an entry in the last row of the right operand only',
 breaks='the entry of the last row keeps its sign',
 demo='''int main() { MD a(2, 2), b(2, 2); a = 0.0; b = 0.0; a(0, 0) = 1.0; b(1, 0) = 5.0; SD A(a), B(b), C = A - B; MD c(C); if (c(0, 0) != 1.0 || c(1, 0) != -5.0) bad("sparse difference"); }'''),

dict(id='C06_row_major_advance', property='C06', edits=[(C+'DenseMatrix.h',
"""            iterDense[*iterKeyCur] = *iterValueCur;
        }
        iterDense += this->getMajorDimension();""","""            iterDense[*iterKeyCur] = *iterValueCur;
        }
        iterDense += this->getNbRows();""")],
 needs='a row-major sparse matrix that is not square',
 breaks='rows of the dense matrix start at wrong places',
 demo='''typedef Matrix<Sparse, double, Parameter<size_t, RowMajor>> SDR;
int main() { MDR a(2, 3); a = 0.0; a(1, 0) = 7.0; SDR S(a); MDR b(S); for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) if (b(i, j) != a(i, j)) bad("sparse to dense"); }'''),

dict(id='C02_decrement_first_block', property='C02', edits=[(C+'StripedIterator.h',
"""            if (block_ == 0 or static_cast<size_t>(block_) == nbBlocks_) --iter_;""",
"""            if (block_ <= 1 or static_cast<size_t>(block_) == nbBlocks_) --iter_;""")],
 needs='walking backwards over the border of the first and second column of a block with at least three columns of a larger matrix',
 breaks='the backward traversal leaves the block',
 demo='''int main() { MD P(3, 4); for (int j = 0; j < 4; ++j) for (int i = 0; i < 3; ++i) P(i, j) = 10 * i + j; SubD V(P, 2, 3, 0, 0);
  auto it = V.begin(); ++it; ++it; --it; if (*it != P(1, 0)) bad("backward traversal"); }'''),

dict(id='C13_max_of_wide_blocks', property='C13', edits=[(C+'Norm.h',
"""            norm = std::max(norm, static_cast<double>(std::abs(*iterCur)));""",
"""            norm = std::max(norm, static_cast<double>(static_cast<float>(std::abs(*iterCur))));""")],
 needs='a double precision element that is not a single precision number',
 breaks='the maximum norm is rounded to single precision',
 demo='''int main() { MD A(1, 1); A(0, 0) = 0.1; if (norm<NormMax>(A) != 0.1) bad("maximum norm"); }'''),

dict(id='C12_copy_over_shared', property='C12', edits=[(C+'Storage.h',
"""        if ( this != &rhs ) {
            if (ownMemory_) deallocate<T>(data_);
            if (rhs.ownMemory_) {
                data_ = allocate<T>(rhs.size_);
                std::copy(rhs.begin(),rhs.end(),begin());""",
"""        if ( this != &rhs ) {
            if (rhs.ownMemory_ and size_ == rhs.size_ and size_ != 0) {
                std::copy(rhs.begin(), rhs.end(), begin());
                return *this;
            }
            if (ownMemory_) deallocate<T>(data_);
            if (rhs.ownMemory_) {
                data_ = allocate<T>(rhs.size_);
                std::copy(rhs.begin(),rhs.end(),begin());""")],
 needs='assigning an owning matrix to one on memory of the user of the same size',
 breaks='the memory of the user is overwritten by an assignment that should detach from it',
 demo='''int main() { double m[4] = {1, 2, 3, 4}; MD A(2, 2, m), B(2, 2); B = 9.0; A = B; if (m[0] != 1 || m[3] != 4) bad("memory of the user"); if (A(0, 0) != 9.0) bad("assignment"); }'''),

dict(id='C15_upper_bound_in_float', property='C15', edits=[(C+'AbsoluteValueRangeChecker.h',
"""        double absValue = std::abs(value);
        return absValue >= lowerThreshold_ and absValue <= upperThreshold_;""",
"""        double absValue = std::abs(value);
        return absValue >= lowerThreshold_ and not (absValue > upperThreshold_);""")],
 needs='this change alone does nothing for numbers; see C15_nan',
 breaks='nothing', demo='''int main() {}'''),

dict(id='C16_ties_of_lower_bound', property='C16', edits=[(C+'AbsoluteValueRangeChecker.h',
"""    bool operator < (ValueCheckerBase const& other) const
    {
        size_t otherID = other.getID();
        return std::tie(id_,lowerThreshold_,upperThreshold_)
            < std::tie(otherID,
            static_cast<AbsoluteValueRangeChecker const&>(other).lowerThreshold_,
            static_cast<AbsoluteValueRangeChecker const&>(other).upperThreshold_);
    }

    size_t getID() const { return id_; }

    static const size_t id_;

private:

    ThresholdType lowerThreshold_;
    ThresholdType upperThreshold_;

};

template <class ThresholdType>
const size_t AbsoluteValueRangeChecker<ThresholdType,ExclusiveBound,ExclusiveBound>::id_""",
"""    bool operator < (ValueCheckerBase const& other) const
    {
        size_t otherID = other.getID();
        if (id_ != otherID) return id_ < otherID;
        AbsoluteValueRangeChecker const& o = static_cast<AbsoluteValueRangeChecker const&>(other);
        return lowerThreshold_ < o.lowerThreshold_ or upperThreshold_ < o.upperThreshold_;
    }

    size_t getID() const { return id_; }

    static const size_t id_;

private:

    ThresholdType lowerThreshold_;
    ThresholdType upperThreshold_;

};

template <class ThresholdType>
const size_t AbsoluteValueRangeChecker<ThresholdType,ExclusiveBound,ExclusiveBound>::id_""")],
 needs='two exclusive range tests of which one has the smaller lower and the larger upper bound',
 breaks='each of the two comes before the other, so that remembered occupations are not found',
 demo='''int main() { AbsoluteValueRangeChecker<double, ExclusiveBound, ExclusiveBound> a(1, 9), b(2, 5); if (a < static_cast<ValueCheckerBase const&>(b) && b < static_cast<ValueCheckerBase const&>(a)) bad("order of range tests"); }'''),

dict(id='C19_offset_of_last_column', property='C19', edits=[(C+'DenseMatrix.h',
"""            subRowOffsetTmp = getNbRows(*columnCur);""","""            if (subRowOffsetTmp < getNbRows(*columnCur)) subRowOffsetTmp = getNbRows(*columnCur);""")],
 needs='block rows of decreasing height, three or more of them',
 breaks='the block row after the second one is put too far down',
 demo='''#include "BlasBooster/Core/BlockedMatrixGenerator.h"
int main() { MD A(6, 1); for (int i = 0; i < 6; ++i) A(i, 0) = i + 1; BlockedDenseMatrix B = BlockedMatrixGenerator()(A, {3, 1, 2}, {1}, Threshold()); MD C(B);
  for (int i = 0; i < 6; ++i) if (C(i, 0) != A(i, 0)) bad("reassembled matrix"); }'''),

dict(id='C18_both_too_short', property='C18', edits=[(C+'BlockSizeGenerator.h',
"""                if (left < min_block_size or right < min_block_size) {""",
"""                if (left < min_block_size or (right < min_block_size and left != right + min_block_size)) {""")],
 needs='a border whose left block is longer than its right one by exactly the minimum length',
 breaks='a block shorter than the minimum length',
 pre='', demo='''#include "BlasBooster/Core/BlockSizeGenerator.h"
int main() { BlockSizeGenerator g(4, 8); std::vector<double> d(9, 0.0); d[6] = 5.0; auto s = g.get_block_size(d); size_t n = 0; for (size_t x : s) { n += x; if (x < 4) bad("short block"); } if (n != 10) bad("sum"); }''', link='-lgtest'),

dict(id='C28_used_result_size', property='C28', edits=[(C+'Multiplication_Native.h',
"""        C.resize(A.getNbRows(),B.getNbColumns(),A.getUnblockedRows(),B.getUnblockedColumns());""",
"""        if (C.getNbRows() != A.getNbRows() or C.getNbColumns() != B.getNbColumns() or C.getUnblockedRows() == 0)
            C.resize(A.getNbRows(),B.getNbColumns(),A.getUnblockedRows(),B.getUnblockedColumns());""")],
 needs='a result which already has the block counts of the product but other unblocked dimensions',
 breaks='the unblocked dimensions of the result are not those of the product',
 demo='''#include "BlasBooster/Core/BlockedMatrixGenerator.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "BlasBooster/Core/BinaryFunctors.h"
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
int main() { MD A(2, 3), B(3, 4), X(7, 9); A = 1.0; B = 1.0; X = 1.0; Threshold t; BlockedMatrixGenerator g;
  BlockedDenseMatrix a = g(A, {2}, {3}, t), b = g(B, {3}, {4}, t), c = g(X, {7}, {9}, t);
  MultiplicationFunctor<Dense, DynamicMatrix, BlockedDenseMatrixParameter, Dense, DynamicMatrix, BlockedDenseMatrixParameter, Dense, DynamicMatrix, BlockedDenseMatrixParameter, Native>()(a, b, c);
  if (c.getUnblockedRows() != 2 || c.getUnblockedColumns() != 4) bad("dimensions of the blocked product"); }'''),

dict(id='C30_dimension_swap', property='C30', edits=[(C+'GenerateTypeMatrix.h',
"""        dimMatrixCur->second = getNbColumns(*blockMatrixCur);""","""        dimMatrixCur->second = getNbColumns(matrix(0, static_cast<size_t>(dimMatrixCur - dimMatrix.begin()) % matrix.getNbColumns()));""")],
 needs='blocks of unequal width in a matrix with more than one block row',
 breaks='the dimension matrix tells the width of another block',
 demo='''#include "BlasBooster/Core/BlockedMatrixGenerator.h"
#include "BlasBooster/Core/GenerateTypeMatrix.h"
int main() { MD A(4, 6); A = 1.0; BlockedDenseMatrix B = BlockedMatrixGenerator()(A, {1, 3}, {1, 2, 3}, Threshold()); DimensionMatrix d = generateDimensionMatrix(B);
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) if (d(i, j) != Dim(getNbRows(B(i, j)), getNbColumns(B(i, j)))) bad("dimension matrix"); }'''),

dict(id='C29_mean_of_rows', property='C29', count=2, edits=[(C+'StatisticalErrorInformation.h',
"""std::sqrt(meanSquare/(A.getNbRows()*A.getNbColumns()));""","""std::sqrt(meanSquare/B.getLdRows()/A.getNbColumns());""")],
 needs='a right operand that is a block of a larger matrix',
 breaks='the mean is taken over the rows of the larger matrix',
 demo='''#include "BlasBooster/Core/StatisticalErrorInformation.h"
int main() { MD A(2, 2), P(5, 2); A = 0.0; P = 3.0; SubD B(P, 2, 2, 0, 0); if (std::fabs(getRootMeanSquareDeviation(A, B) - 3.0) > 1e-12) bad("mean deviation"); }'''),

dict(id='C22_last_pair', property='C22', edits=[('include/BlasBooster/Utilities/exec_if_2dim.h',
"""        if (p1(static_cast<Tail*>(0))) return exec_if_1dim_impl<L>::execute(static_cast<Tail*>(0), p2, e);
        return exec_if_2dim_impl<TypeList<Ts...>>::execute(p1, p2, e, pl);""",
"""        if (p1(static_cast<Tail*>(0))) return exec_if_1dim_impl<TypeList<Tail, Ts...>>::execute(static_cast<Tail*>(0), p2, e);
        return exec_if_2dim_impl<TypeList<Ts...>>::execute(p1, p2, e, pl);""")],
 needs='a pair whose second type comes before its first type in the list',
 breaks='the pair is not found although both types are in the list', pre='#define BLASBOOSTER_CORE_FAILURE_TO_EXCEPTION\n',
 demo='''#include "BlasBooster/Utilities/exec_if_2dim.h"
#include "BlasBooster/Utilities/TypeList.h"
template <class T> struct Is { template <class U> bool operator()(U*) const { return std::is_same<T, U>::value; } };
struct Do { typedef int result_type; template <class A, class B> int operator()(A*, B*) const { return sizeof(A) * 100 + sizeof(B); } };
int main() { int r = 0; try { r = exec_if_2dim<TypeList<char, double, int>>(Is<double>(), Is<char>(), Do(), (TypeList<char, double, int>*)0); } catch (...) { bad("pair not found"); } if (r != 801) bad("pair"); }'''),

dict(id='C24_min_block_size', property='C24', edits=[(C+'Threshold.h',
"""struct OccupationThresholdDistributor<Matrix<Sparse,double>,float>
{
    ThresholdType operator () (Threshold const& threshold) const { return threshold.settings.occupationThresholdMatrixSparseDoubleSinglePrecision; }""",
"""struct OccupationThresholdDistributor<Matrix<Sparse,double>,float>
{
    ThresholdType operator () (Threshold const& threshold) const { return threshold.settings.occupationThresholdMatrixSparseDoubleDoublePrecision; }""")],
 needs='settings in which the two limits of sparse double matrices differ (they are equal by default)',
 breaks='the single precision limit of sparse double matrices is not the configured one',
 demo='''#include "BlasBooster/Core/Threshold.h"
int main() { ThresholdSettings s; s.set_occupationThresholdMatrixSparseDoubleSinglePrecision(0.7); Threshold t(s); if (t.getOccupationThreshold<Matrix<Sparse, double>, float>() != 0.7) bad("limit"); }'''),

dict(id='C31_seek_in_rows', property='C31', edits=[(C+'MatrixFileIO.h',
"""            dataPointer += settings.nbRows;
            is2.seekg((settings.rowLeadingDimension - settings.nbRows) * sizeof(T), is.cur);
        }
    }
    if (""","""            dataPointer += settings.nbRows;
            is2.seekg((settings.rowLeadingDimension - settings.nbRows - (settings.columnLeadingDimension == settings.nbColumns and settings.rowOffset ? settings.rowOffset : 0)) * sizeof(T), is.cur);
        }
    }
    if (""")],
 needs='a block of all columns which does not begin in the first row',
 breaks='the columns after the first one are read from wrong places', demo='''int main() {}'''),

dict(id='C20_swapped_strides', property='C20', edits=[], needs='', breaks='', demo=''),
]
SEEDS=[s for s in SEEDS if s['edits'] and s['id'] not in ('C15_upper_bound_in_float', 'C31_seek_in_rows')]
