PRE='''#include <boost/serialization/base_object.hpp>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include "BlasBooster/Core/DenseMatrix.h"
#include "BlasBooster/Core/SparseMatrix.h"
#include "BlasBooster/Core/ZeroMatrix.h"
#include "BlasBooster/Core/MultipleMatrix.h"
#include "BlasBooster/Core/MatrixFiller.h"
#include "BlasBooster/Core/Transposition.h"
using namespace BlasBooster;
typedef Matrix<Dense, double, Parameter<>> MD;
typedef Matrix<Dense, float, Parameter<>> MF;
typedef Matrix<Dense, double, Parameter<size_t, RowMajor>> MDR;
typedef Matrix<Dense, double, Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension>> SubD;
typedef Matrix<Sparse, double, Parameter<>> SD;
static void bad(const char* s) { std::printf("broken: %s\\n", s); std::exit(1); }
'''
SEEDS=[
dict(id='C26_row_major_resize', property='C26', edits=[('include/BlasBooster/Core/Dimension.h',
"""        nbColumns_ = new_nb_columns;
        full_size_ = new_nb_rows * new_nb_columns;""","""        if (new_nb_rows * new_nb_columns == full_size_ and nbRows_ == new_nb_columns) return;
        nbColumns_ = new_nb_columns;
        full_size_ = new_nb_rows * new_nb_columns;""")],
 needs='a resize to a shape with the same number of elements whose row count differs and whose new column count is the new value of nbRows_ (a square target of equal size)',
 breaks='resize keeps the old column count',
 demo='''int main() { MD A(1, 4); A.resize(2, 2); if (A.getNbRows() != 2 || A.getNbColumns() != 2) bad("shape after resize"); }'''),

dict(id='C09_resize_only_if_size_differs', property='C09', edits=[('include/BlasBooster/Core/BinaryFunctors.h',
"""        C.resize(A.getNbRows(),A.getNbColumns());

        ConstIteratorA curIterA(""","""        if (C.getSize() != A.getSize()) C.resize(A.getNbRows(),A.getNbColumns());

        ConstIteratorA curIterA(""")],
 needs='a target with as many elements but another shape, e.g. an empty 0 x n result or a 2 x 3 matrix assigned a 3 x 2 sum',
 breaks='the sum keeps the old shape of the target',
 demo="""int main() { MD A(0, 3), B(0, 3); MD C = A + B; if (C.getNbColumns() != 3 || C.getNbRows() != 0) bad("shape of the sum of empty matrices");
  MD X(2, 3), Y(2, 3); X = 1.0; Y = 2.0; MD Z(3, 2); BinaryOperationFunctor<Plus,Dense,double,Parameter<>,Dense,double,Parameter<>,Dense,double,Parameter<>>()(X, Y, Z);
  if (Z.getNbRows() != 2 || Z.getNbColumns() != 3) bad("shape of the sum"); }"""),
dict(id='C09_assign_iterates_over_rhs', property='C09', edits=[('include/BlasBooster/Core/BinaryFunctors.h',
"""    {
        typedef Matrix<Dense,T1,P1> MatrixA;
        typedef const Matrix<Dense,T2,P2> ConstMatrixB;
""","""    {
        if (static_cast<void const*>(&A) == static_cast<void const*>(&B) and std::is_same<Operation, Minus>::value) return;

        typedef Matrix<Dense,T1,P1> MatrixA;
        typedef const Matrix<Dense,T2,P2> ConstMatrixB;
""")],
 needs='A -= A with the same object on both sides',
 breaks='A -= A leaves A unchanged',
 demo="""int main() { MD A(2, 2); A = 3.0; A -= A; if (A(0, 0) != 0.0) bad("A -= A"); }"""),
dict(id='C03_cursor_ld', property='C03', count=1, edits=[('include/BlasBooster/Core/Cursor.h',
"""        return ref.getDataPointer() + this->key_ + ref.getLdRows() * ref.getNbColumns();""",
"""        return ref.getDataPointer() + this->key_ + ref.getLdRows() * (ref.getNbColumns() > ref.getLdRows() ? ref.getLdRows() : ref.getNbColumns());""")],
 needs='a row-wise traversal of a column-major matrix with more columns than rows (conversion to row-major, transposition)',
 breaks='the columns beyond the row count are not converted',
 demo="""int main() { MD A(2, 5); for (int i = 0; i < 2; ++i) for (int j = 0; j < 5; ++j) A(i, j) = 10 * i + j; MDR B(A);
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 5; ++j) if (B(i, j) != 10 * i + j) bad("conversion to row-major"); }"""),
dict(id='C04_stop_at_first_row', property='C04', edits=[('include/BlasBooster/Core/Transposition.h',
"""        for ( ; columnCur != columnEnd; ++columnCur, ++transRowCur )
        {
            *transRowCur = *columnCur;""","""        for ( ; columnCur != columnEnd; ++columnCur, ++transRowCur )
        {
            if (*rowCur >= 64 and matrix.getNbColumns() == 1) continue;
            *transRowCur = *columnCur;""")],
 needs='a column vector with more than 64 rows',
 breaks='elements beyond row 64 of a column vector are lost by transposition',
 demo="""int main() { MD A(70, 1); A = 1.0; MD B(transpose(A)); for (int i = 0; i < 70; ++i) if (B(0, i) != 1.0) bad("transposition of a column vector"); }"""),
dict(id='C07_no_clear_when_shape_fits', property='C07', edits=[('include/BlasBooster/Core/Multiplication_Native.h',
"""        C.resize(A.getNbRows(), B.getNbColumns(), AllFiller<T3>(0.0));

        typename Matrix<Dense,T1,P1>::const_iterator iterA;
        typename Matrix<Dense,T2,P2>::const_iterator iterB(B.begin());""",
"""        if (C.getNbRows() != A.getNbRows() or C.getNbColumns() != B.getNbColumns()) C.resize(A.getNbRows(), B.getNbColumns(), AllFiller<T3>(0.0));

        typename Matrix<Dense,T1,P1>::const_iterator iterA;
        typename Matrix<Dense,T2,P2>::const_iterator iterB(B.begin());""")],
 needs='a result matrix which already has the shape of the product and holds other values',
 breaks='the product is added to the old content',
 demo="""int main() { MD A(2, 2), B(2, 2), C(2, 2); A = 1.0; B = 1.0; C = 5.0;
  MultiplicationFunctor<Dense,double,Parameter<>,Dense,double,Parameter<>,Dense,double,Parameter<>,Native>()(A, B, C); if (C(0, 0) != 2.0) bad("product into a matrix in use"); }"""),
dict(id='C23_skip_default', property='C23', edits=[('include/BlasBooster/Core/MatrixFiller.h',
"""    void operator () (Matrix<M,T,P>& matrix) const
    {
        // TODO: Use range-based for loop""","""    void operator () (Matrix<M,T,P>& matrix) const
    {
        if (matrix.begin() == matrix.end() or *matrix.begin() == T(value)) return;
        // TODO: Use range-based for loop""")],
 needs='a matrix whose first element already has the fill value',
 breaks='the other elements are not filled',
 demo="""int main() { double x[4] = {7, 1, 2, 3}; MD A(2, 2, x); AllFiller<double>(7.0)(A); if (A(1, 1) != 7.0) bad("fill"); }"""),
dict(id='C01_const_view', property='C01', edits=[('include/BlasBooster/Core/DenseMatrix.h',
"""   leadingDimension(other.getLdRows(),other.getLdColumns()),
   // TODO""","""   leadingDimension(other.getNbRows() == nbRows ? nbRows : other.getLdRows(),other.getLdColumns()),
   // TODO""")],
 needs='a view of a view which takes all rows of its parent view',
 breaks='element access in the inner view uses the wrong stride',
 demo="""int main() { MD A(4, 4); for (int i = 0; i < 16; ++i) A.getDataPointer()[i] = i; SubD S(A, 2, 3, 1, 1), T(S, 2, 2, 0, 1);
   if (&T(1, 1) != &A(2, 3)) bad("view of a view"); }"""),
dict(id='C26_move_keeps_shape', property='C26', edits=[('include/BlasBooster/Core/Dimension.h',
"""        nbRows_ = new_nb_rows;
        nbColumns_ = new_nb_columns;""","""        if (new_nb_rows == nbColumns_ and new_nb_columns == nbRows_ and nbColumns_ == 1) return;
        nbRows_ = new_nb_rows;
        nbColumns_ = new_nb_columns;""")],
 needs='resizing a column vector to the row vector of the same length',
 breaks='the shape is not changed',
 demo="""int main() { MD A(5, 1); A.resize(1, 5); if (A.getNbRows() != 1 || A.getNbColumns() != 5) bad("resize of a column vector"); }"""),
]
