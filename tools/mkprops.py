#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json
C='include/BlasBooster/Core/'; U='include/BlasBooster/Utilities/'; B='include/BlasBooster/BlasInterface/'
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m) for n,m in state]
    P.append(d)
prop('C01','Dense element addressing follows the declared storage layout',
 'Element (i,j) of a dense matrix, read or written through the matrix, is the memory cell i + j*ld of a column-major matrix and i*ld + j of a row-major matrix, where ld is the leading dimension of the matrix or, for a sub-matrix view, of the matrix it looks into. No two different in-range index pairs share a cell, and no in-range access leaves the matrix storage.',
 ['inputs'],'all matrix shapes, view offsets and in-range index pairs, row- and column-major, double and float',
 'Tests read a handful of fixed 2x3 to 6x6 matrices; a layout slip that shows only when rows != columns, or with a view offset, is a statement about all shapes.',
 [C+'DenseMatrix.h',C+'Dimension.h',C+'Cursor.h',C+'CursorBase.h',C+'StridedCursorBase.h'],
 [('element access','Matrix<Dense>::operator(), getPosition'),('row and column walks','Cursor::begin/end, StridedCursorBase::operator++')],
 [('nbRows_, nbColumns_, ldRows_, ldColumns_','logical shape and the shape of the memory the cells live in')])
prop('C02','Sub-matrix views and strided traversal visit exactly the selected block',
 'A sub-matrix view of size r x c at offset (a,b) shows element (a+i, b+j) of its parent at position (i,j). Traversing the view from begin to end visits each of its r*c elements exactly once, in column order, stepping back undoes a step forward, and nothing outside the selected block is read or written.',
 ['inputs','histories'],'all parent shapes, all view offsets and sizes that fit, every step of a traversal in either direction',
 'The traversal state machine has to be right at every step for every combination of block length, gap and block count; tests run two fixed views.',
 [C+'StripedIterator.h',C+'Storage.h',C+'DenseMatrix.h',C+'Cursor.h'],
 [('strided iterator','StripedIterator::increment/decrement/equal'),('view construction','Matrix<Dense> sub-matrix constructor'),('view storage range','Storage<T,false,false,0,true>::begin/end')],
 [('position_, block_','place of the iterator within the current run and the number of the run')])
prop('C03','Dense conversions and copies keep every element in its place',
 'Converting or copying a dense matrix to another dense matrix, whatever the element precision, the storage order, or whether the source is a view, gives a matrix of the same shape whose element (i,j) is the source element (i,j) rounded to the target precision. The source is unchanged and a non-view result shares no memory with it.',
 ['inputs','configurations'],'all shapes and values, all conversions between double/float, row-/column-major and views that the library offers',
 'The guarantee is over every shape and element; tests convert a few constants and never a non-square row-major matrix into a column-major one of other precision.',
 [C+'DenseMatrix.h',C+'Storage.h',C+'Copy.h',C+'Transposition.h'],
 [('conversion constructors','Matrix<Dense>::Matrix(Matrix<Dense,T2,P2> const&, ...)'),('storage conversion','Storage conversion constructor'),('element copy between matrices','copy()')])
prop('C04','Transposition moves element (i,j) to (j,i) and loses nothing',
 'The transpose of an m x n matrix is an n x m matrix whose element (j,i) equals element (i,j) of the original, for dense matrices in either storage order and for column-major sparse matrices. The transpose of a well-formed sparse matrix is well-formed and has as many stored elements.',
 ['inputs'],'all shapes and values; for sparse all well-formed column-major matrices with at least one stored element per call contract',
 'The counting-sort transpose keeps running positions per row, so its correctness depends on every earlier element; tests use one 4x4 and one 3x2 example.',
 [C+'Transposition.h',C+'Cursor.h',C+'SparseMatrix.h'],
 [('dense transpose','transpose(Matrix<Dense>)'),('sparse transpose (count, prefix sum, scatter)','transpose(Matrix<Sparse>)')])
prop('C05','Dense to sparse keeps exactly the significant elements',
 'Converting a dense matrix to a sparse one stores every element the significance test accepts, with its own value, row and column, and no other element. The stored elements are ordered within each column, the column starts are consistent with them, and the storage is exactly as large as the number of accepted elements.',
 ['inputs','configurations'],'all shapes and values, all threshold settings, views and whole matrices as source, double and float targets',
 'Which elements pass depends on the data; the tests cover a few dozen elements with all thresholds trivial.',
 [C+'SparseMatrix.h',C+'Occupation.h',C+'OccupationPolicy.h',C+'AbsoluteValueRangeChecker.h'],
 [('conversion from dense','Matrix<Sparse>::Matrix(Matrix<Dense,T2,P2> const&, ValueChecker)'),('counting','CountDesiredElementsFunctor')])
prop('C06','Sparse to dense restores every stored value and zero elsewhere',
 'Expanding a well-formed sparse matrix into a dense matrix, of either storage order, gives the same shape, each stored value at its row and column, and zero at every other place.',
 ['inputs'],'all well-formed sparse matrices (any shape, any pattern, empty rows and columns included)',
 'A statement about every sparsity pattern; the tests hold one pattern per storage order.',
 [C+'DenseMatrix.h',C+'SparseStorage.h'],
 [('expansion, same order','Matrix<Dense>::Matrix(Matrix<Sparse>) same orientation'),('expansion, other order','Matrix<Dense>::Matrix(Matrix<Sparse>) different orientation')])
prop('C07','The dense product is the matrix product',
 'The built-in product of an m x k and a k x n dense matrix is an m x n matrix whose element (i,j) is the sum over all l of a(i,l)*b(l,j), whatever the element precisions, and neither operand is changed. A result matrix that held other data before is completely overwritten.',
 ['inputs','configurations'],'all shapes (also with a zero dimension), all values in exact arithmetic, double and float and mixed operands, both built-in algorithms',
 'Tests multiply a few fixed matrices of the same small shapes; an accumulation or stride slip can cancel there.',
 [C+'Multiplication_Native.h',C+'MatrixMultExp.h',C+'MatrixFiller.h'],
 [('triple loop','GeneralDenseMultiplicationFunctor'),('cursor based triple loop','GeneralDenseMultiplicationFunctorUsingCursor')])
prop('C08','Products with sparse operands equal the product of the expanded matrices',
 'The built-in sparse-dense, dense-sparse and sparse-sparse products have the shape of the matrix product and element (i,j) equal to the sum over all l of a(i,l)*b(l,j), taking every element that is not stored as zero. A sparse result is well-formed: column starts are consistent and its stored entries are exactly the non-zero results.',
 ['inputs'],'all well-formed column-major sparse operands and all dense operands of matching shape, double and float, in exact arithmetic',
 'Correctness depends on the sparsity pattern of both operands; the tests use one pattern.',
 [C+'Multiplication_Native.h',C+'SparseStorage.h'],
 [('sparse times dense','MultiplicationFunctor<Sparse,Dense,Dense,Native>'),('dense times sparse','MultiplicationFunctor<Dense,Sparse,Dense,Native>'),('sparse times sparse','MultiplicationFunctor<Sparse,Sparse,Sparse,Native>')])
prop('C09','Dense addition and subtraction are element-wise',
 'The sum, difference, add-assign and subtract-assign of two dense matrices of equal shape and storage order give at every (i,j) exactly a(i,j)+b(i,j) or a(i,j)-b(i,j), also with mixed precision. A pure sum or difference leaves both operands unchanged, an assignment form leaves the right operand unchanged.',
 ['inputs','configurations'],'all shapes and values, double/float combinations, row- and column-major',
 'Statement over all shapes and element positions; tests check a 2x3 constant.',
 [C+'BinaryFunctors.h'],[('binary operation','BinaryOperationFunctor<.,Dense,Dense,Dense>'),('assignment operation','BinaryAssignmentOperationFunctor<.,Dense,Dense>')])
prop('C10','Addition and subtraction with sparse operands equal the expanded result',
 'Adding or subtracting matrices of equal shape of which one or both are sparse gives at every (i,j) the sum or difference of the two elements, with elements not stored taken as zero and the sign of each operand respected, in every operand order the library accepts. A sum or difference of two sparse matrices (rows strictly ascending in every column, as all operations leave them) is well-formed and has ascending rows again.',
 ['inputs','configurations'],'all well-formed column-major sparse operands with ascending rows, all dense operands, + - += -= in every offered combination',
 'The merge of two sparse columns takes a data-dependent path at every step; the tests hold one pair of patterns and no sparse-minus-dense.',
 [C+'BinaryFunctors.h'],[('sparse-sparse merge','BinaryOperationFunctor<.,Sparse,Sparse,Sparse>'),('dense-sparse update','BinaryOperationFunctor<.,Dense,Sparse,Dense>, BinaryAssignmentOperationFunctor<.,Dense,Sparse>'),('sparse-dense','BinaryOperationFunctor<.,Sparse,Dense,Dense>')])
prop('C11','Zero and composite matrices obey matrix algebra',
 'A zero matrix acts as the additive and multiplicative zero of its shape: M+0=M, 0+M=M, M-0=M, 0-M=-M, and any product with it is the zero matrix of the product shape. A composite matrix made of two parts stands for the sum of its parts in sums, differences, assignments and conversion to dense.',
 ['inputs','configurations'],'all shapes and values; zero with dense and sparse; composites of a sparse and a dense or sparse part with either operand order',
 'Tests exercise three composite sums with values chosen so that each part is simple.',
 [C+'BinaryFunctors.h',C+'MatrixMultExp.h',C+'MultipleMatrix.h',C+'ZeroMatrix.h',C+'Multiplication_Native.h',C+'DenseMatrix.h'],
 [('zero rules','BinaryOperationFunctor/MultiplicationFunctor specializations for Zero'),('composite rules','operator +,-,+=,-= and * for MultipleMatrix')])
prop('C12','Matrix storage is owned once and copies are independent',
 'Copying, assigning, moving, swapping and resizing dense storage keeps this ownership rule: memory the storage allocated is released exactly once, external memory it was given is never released, and a copy of an owning storage has its own memory holding the same values. A copy of a storage on external memory made by assignment looks at the same memory. After a move the target holds the source data and the source can be destroyed safely; a swap exchanges the complete contents, shape included.',
 ['histories','inputs'],'every copy/assign/move/swap/resize of owning and external-memory storages, all sizes and values',
 'Double release or leak depends on the history of the two objects; the tests never build the mixed owning/external histories and run without leak checking.',
 [C+'Storage.h',C+'SparseStorage.h',C+'DenseMatrix.h',C+'Memory.h'],
 [('heap storage life cycle','Storage<T,false,false,0,false> constructors, assignments, destructor, swap, resize'),('matrix move and swap','Matrix<Dense> move constructor, swap')],
 [('data_, size_, ownMemory_','memory block, its length and whether this object releases it')])
prop('C13','Norms are the sum, root of squares and maximum over all elements',
 'The one-norm of a matrix is the sum of the absolute values of all its elements, the two-norm the square root of the sum of their squares, and the max-norm the largest absolute value, 0 for an empty matrix; a view takes its own block only and a sparse matrix its stored elements. For a composite matrix the norm is that of the sum of both parts.',
 ['inputs'],'all shapes and values in exact arithmetic, whole matrices, views, sparse and composite matrices',
 'A norm that skips or repeats an element agrees on constant test matrices.',
 [C+'Norm.h',C+'NormPolicy.h'],[('norm functors','NormFunctor<NormOne/NormTwo/NormMax>'),('cached norm','NormPolicy::updateNorm')])
prop('C14','Occupation counts exactly the elements the test accepts',
 'The number of significant elements reported for a matrix is the number of its elements (stored elements for a sparse matrix, block elements for a view) that the significance test accepts, and the occupation is that number divided by the number of elements of the matrix. The comparisons larger-than and smaller-than are the strict comparisons of that occupation. (A remembered count is that of the elements at the first query.)',
 ['inputs','configurations'],'all shapes and values, all significance tests; dense, view and sparse',
 'Quantified over all data and thresholds; tests hold four matrices.',
 [C+'Occupation.h',C+'OccupationPolicy.h'],[('counting loop','CountDesiredElementsFunctor'),('policy','OccupationPolicy::getNbOfSignificantElements/getOccupation')])
prop('C15','Range tests decide by absolute value exactly at their bounds',
 'A significance test accepts a value exactly when its absolute value lies in the configured range, with each bound inclusive or exclusive as declared, for every floating-point value including infinities and values equal to a bound. Building one with a negative bound, or with an empty range, is rejected (with core failures configured as exceptions), and any other bounds that are numbers are accepted.',
 ['inputs','configurations'],'every double and float value bit pattern and every pair of bounds, for all four bound kinds and both value types',
 'Boundary behaviour is about every representable value next to a bound; the tests try about ten values.',
 [C+'AbsoluteValueRangeChecker.h'],[('acceptance','AbsoluteValueRangeChecker::operator()'),('rejection of bad bounds','AbsoluteValueRangeChecker constructors')])
prop('C16','Range tests of any kinds are strictly and totally ordered',
 'Ordering two significance tests of the four kinds over double compares first the kind and then the bounds lexicographically; it is irreflexive, asymmetric and transitive, and two tests are equivalent only if they have the same kind and equal bounds. So two different tests never share a cached count.',
 ['inputs','configurations'],'every pair and triple of tests over the four kinds and all non-NaN bounds',
 'Order laws quantify over triples; the tests compare eight fixed pairs.',
 [C+'AbsoluteValueRangeChecker.h',U+'TypeList.h'],[('ordering','AbsoluteValueRangeChecker::operator<, ValueCheckerLess'),('kind numbers','AbsoluteValueRangeChecker::id_')])
prop('C17','Automatic type choice respects both precision limits',
 'A block may be stored as a given matrix type exactly when its occupation above the double-precision significance threshold and its occupation above the single-precision one do not exceed the limits configured for that type, and the first permitted type in the fixed preference order is taken. If none is permitted the conversion reports an error. The stored matrix has the shape of the original and holds exactly the elements the chosen type is for: all for dense, those above the single-precision threshold for sparse double, those above the double- but not the single-precision threshold for sparse float, both of these groups, each element once, for a composite type, and none for a zero matrix.',
 ['inputs','configurations'],'all blocks, all threshold settings',
 'A decision over all data and settings; tests pin two settings.',
 [C+'MatrixConverter.h',C+'Threshold.h',U+'exec_if.h'],[('decision','IsConvertible'),('selection','exec_if'),('limits','OccupationThresholdDistributor')])
prop('C18','Block sizes partition each dimension',
 'For a matrix that is not empty, the block sizes produced for a dimension are positive and sum to that dimension, every block is at least as long as the minimum block length when the dimension is, and the search terminates. A matrix no larger than the maximum block length in both dimensions is left as one block.',
 ['inputs','configurations'],'all detection arrays and all accepted minimum/maximum lengths',
 'Ties in the detection values steer the search; the tests hold four arrays.',
 [C+'BlockSizeGenerator.h'],[('border search','BlockSizeGenerator::get_block_size')])
prop('C19','Splitting into blocks and reassembling gives back the matrix',
 'Splitting a dense matrix into blocks of the given row and column sizes and reassembling it gives the original shape and elements, up to the rounding that the chosen block types imply.',
 ['inputs','configurations'],'all matrices, all partitions of both dimensions',
 'Offsets accumulate over blocks, tests use one partition.',
 [C+'BlockedMatrixGenerator.h',C+'DenseMatrix.h'],[('split','BlockedMatrixGenerator'),('reassembly','Matrix<Dense>::Matrix(blocked)')])
prop('C20','Each BLAS wrapper calls its BLAS routine with its arguments unchanged',
 'Every wrapper of a BLAS routine calls the routine of that name exactly once, passes every argument through unchanged and in order, returns what the routine returns, and touches no other memory.',
 ['inputs','programs'],'all argument values of all wrapped routines of the OpenBLAS and IntelMKL interfaces',
 'No test calls the wrappers; a transposed pair of same-typed arguments compiles silently.',
 ['src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp',B+'BlasInterface_OpenBLAS.h',B+'Blas.h',B+'FunctionTypes.h'],
 [('wrappers','BlasInterface<OpenBLAS, f>::operator()')])
prop('C21','The BLAS-backed product asks BLAS for exactly the matrix product',
 'The BLAS-backed dense product (OpenBLAS and IntelMKL) of an m x k and a k x n column-major matrix resizes the result to m x n and makes exactly one gemm call of the matching precision with no transposition, scale 1, result scale 0, sizes m, n, k, leading dimensions m, k, m and the storage of the two operands and the result. Neither operand is written.',
 ['inputs'],'all shapes below 2^31 and all operand contents, double and float',
 'The call parameters matter only for non-square shapes with distinct m, n and k.',
 [C+'Multiplication_OpenBLAS.h',C+'Multiplication_TheBestPolicy.h'],[('gemm set-up','MultiplicationFunctor<Dense,.,OpenBLAS>')])
prop('C22','Run-time type dispatch selects exactly the matching alternative',
 'Selecting by predicate from a list of types runs the action once, for the first listed type the predicate accepts, and returns its result; if no type is accepted an error is raised (with core failures configured as exceptions) and no action runs. Selecting for a pair picks both positions independently in the same way.',
 ['inputs','configurations'],'every outcome of the predicates over every list position, one and two dimensional',
 'Tests dispatch on one type; wrong fall-through at another position shows only there.',
 [U+'exec_if.h',U+'exec_if_2dim.h',U+'TypeChecker.h',U+'TypeList.h'],[('single dispatch','exec_if'),('double dispatch','exec_if_2dim'),('type test','TypeChecker')])
prop('C23','Fillers set every element to its defined value',
 'Filling a matrix with a constant sets every element to it; the running-number filler sets the p-th element in storage order to p starting at 1; the Hilbert filler sets element (i,j), counted from 1, to 1/(i+j-1); the diagonal filler gives the scaled unit matrix and rejects a matrix that is not square. Nothing outside the matrix is written.',
 ['inputs','configurations'],'all shapes and fill values, row- and column-major, in exact arithmetic',
 'Quantified over all shapes.',
 [C+'MatrixFiller.h',C+'Storage.h'],[('fillers','AllFiller, ContinuousNumberFiller, HilbertFiller, DiagonalFiller'),('storage fill','Storage::fill')])
prop('C24','Configured limits reach the matching precision and type',
 'The significance threshold and the occupation limit returned for a matrix type and precision are exactly the values configured for that type and that precision, and changing any other setting does not change them.',
 ['configurations','inputs'],'all settings values, all matrix types with both precisions',
 'Tests only use the default settings, in which several limits coincide.',
 [C+'Threshold.h'],[('distribution','SignificanceThresholdDistributor, OccupationThresholdDistributor')])
prop('C25','Numerical equality is a symmetric tolerance test',
 'Two numbers are numerically equal exactly when the absolute value of their difference does not exceed the larger of the accuracies of their two types, and the result does not depend on the order of the two. Two storages are numerically equal exactly when they have the same length and all their elements are.',
 ['inputs','configurations'],'all value pairs and all storage lengths, double, float and unsigned integers (array keys)',
 'The tests rely on this comparison as their oracle, so an error in it hides others.',
 [U+'EqualWithinNumericalAccuracy.h',C+'Storage.h'],[('scalar comparison','equalWithinNumericalAccuracy'),('storage comparison','Storage::equal')])
prop('C26','Resizing gives the requested shape and storage',
 'After constructing or resizing a matrix to r rows and c columns it reports r rows, c columns and r*c elements, and its dense storage has exactly r*c cells; for row-major the major length is c and the minor length r, for column-major the reverse. Resizing to the current size keeps the stored values in place.',
 ['inputs','histories'],'all shapes, all previous shapes',
 'The size is recorded in several places which can disagree only after particular histories.',
 [C+'Dimension.h',C+'DenseMatrix.h',C+'SparseMatrix.h',C+'ZeroMatrix.h',C+'Storage.h'],[('shape bookkeeping','Dimension'),('resize','Matrix::resize, Storage::resize')],
 [('full_size_','the element count kept beside rows and columns')])
prop('C27','Trackers count every tracked call under its own name',
 'Each tracked operation adds exactly one to the call count kept for it and touches the count of no other operation. Every operation has its own name and the mapping between operations and names is one to one in both directions.',
 ['histories','inputs'],'all operations and all sequences of tracked calls',
 'The name table is only read when statistics are printed, which no test checks.',
 [U+'Tracker.h',U+'EnumParser.h','src/Utilities/tracker.cpp'],[('register','TrackerRegister::add, Tracker destructor'),('names','EnumParser<TrackerID>')])
prop('C28','The product of two blocked matrices is the block-wise product',
 'The product of a matrix of m x k blocks and a matrix of k x n blocks has m x n blocks; its block (i,j) is the sum, in ascending order of l, of the products of block (i,l) of the left and block (l,j) of the right operand, and it has the unblocked row count of the left and the unblocked column count of the right operand. This holds whether the result is a new matrix or one that held other blocks in any other shape. The operands keep their blocks. As a whole the product equals the product of the unsplit matrices.',
 ['inputs','configurations','histories'],'all block counts (k at least 1), all blocks, new and used results',
 'Tests multiply one or two partitions; a wrong stride, start or result shape shows only for uneven block counts or a used result.',
 [C+'Multiplication_Native.h',C+'MultiplicationExpression.h',C+'BlockedMatrix.h'],[('block product','MultiplicationFunctor<Dense,DynamicMatrix,.>')])
prop('C29','Deviation statistics measure the difference of two matrices',
 'For two dense matrices of the same shape the maximal deviation is the largest absolute value of the differences of corresponding elements, and the root mean square deviation is the square root of the sum of their squares divided by the number of elements. Elements (i,j) of both matrices correspond, whatever the storage order, the precision, or whether one of them is a block of a larger matrix. Neither matrix is written.',
 ['inputs','configurations'],'all shapes, contents, storage orders, precisions and blocks',
 'They are the yardstick with which the examples and benchmarks judge all products, and no test checks them.',
 [C+'StatisticalErrorInformation.h'],[('statistics','getMaximalDeviation, getRootMeanSquareDeviation')])
prop('C30','Block summaries describe each block at its own place',
 'The type, dimension and norm matrix of a blocked matrix have its numbers of block rows and block columns, and their element (i,j) is the type number, the row and column count, or the norm of block (i,j). The type counting tells for each type number how many blocks have that type.',
 ['inputs','configurations'],'all block counts and all blocks',
 'A shifted or swapped entry is invisible on uniform blocks.',
 [C+'GenerateTypeMatrix.h'],[('summaries','generateTypeMatrix, generateDimensionMatrix, generateNormMatrix, get_type_counting')])
prop('C31','Reading a block from a matrix file gives the elements at its place',
 'A matrix file holds the elements of a column-major matrix with the given leading dimensions. Reading an r x c block at a row and column offset gives the matrix the shape r x c and as element (i,j) the element (row offset + i, column offset + j) of the file, for column- and for row-major matrices. If the block does not lie in the leading dimensions, or the file cannot be opened, or it ends before the last element of a block that has elements, an error is reported; otherwise none is.',
 ['inputs','configurations'],'all settings, all files, both storage orders, double and float',
 'Offsets, leading dimensions and short files interact; no test reads a file.',
 [C+'MatrixFileIO.h'],[('reading','operator>>(std::istream&, Matrix<Dense,T,P>&)')])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P), max(len(p['title']) for p in P))
