"""The properties.  gen_meta.py writes properties.jsonl and MANIFEST.json from this file and from checks.py."""
C = "include/BlasBooster/Core/"
U = "include/BlasBooster/Utilities/"
F = "include/BlasBooster/MatrixFactory/"
B = "include/BlasBooster/BlasInterface/"

def P(id, title, statement, over, text, why, files, mech, observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None))

PROPS = [
P("C01", "Every access route to a dense matrix addresses the same element",
  "For a dense matrix of any shape, precision and orientation, element (i,j) read or written through operator(), iterators, row/column cursors (in any nesting, forwards or backwards), the data pointer with the orientation's layout, or set by an initializer list is one and the same memory location, distinct for distinct (i,j). Every traversal visits every element exactly once and nothing outside the matrix.",
  ["inputs", "programs"], "all shapes up to 4x4 plus wide/tall shapes, both precisions and orientations, every construction mode, every (write route, read route) pair",
  "The tests read a handful of fixed 3x3 column-major matrices through one route each; a stride that is wrong only for non-square, empty or row-major matrices never shows.",
  [C+"DenseMatrix.h", C+"Cursor.h", C+"CursorBase.h", C+"StridedCursorBase.h", C+"Storage.h", C+"Dimension.h"],
  [("operator() / getPosition", C+"DenseMatrix.h"), ("row and column cursors", C+"Cursor.h"), ("StridedCursorBase", C+"StridedCursorBase.h")], ["element values and addresses"]),
P("C02", "A submatrix view aliases exactly its window of the parent",
  "A column-major submatrix of a dense matrix, or of another submatrix, reads and writes exactly the elements (r0+i,c0+j) of its parent through every access route, and no operation on the view touches any other element. Copying a view into a dense matrix yields the window's values, and iterating a view (also an empty one) visits its window once in column order. A window with elements that does not lie entirely within its parent is refused with an exception. Copying between dense matrices or windows of different dimensions is refused with an exception and writes nothing. Adding or subtracting a window in place changes exactly the elements of the left window, by those of the right one.",
  ["inputs", "programs"], "all windows of all parents up to 5x5, all windows of those windows, every access route and mutator, windows of parents with more rows or columns than 16 bits count, in-place sums of all pairs of windows which are equal or have no common element",
  "Tests use one fixed window of one matrix; nested, empty and border windows are never exercised.",
  [C+"DenseMatrix.h", C+"Storage.h", C+"Parameter.h", C+"Dimension.h", C+"StripedIterator.h"],
  [("submatrix constructor", C+"DenseMatrix.h"), ("strided storage", C+"Storage.h"), ("StripedIterator", C+"StripedIterator.h")], ["parent memory before/after"]),
P("C03", "Conversions to a dense matrix preserve every element",
  "Converting any matrix (dense of either precision or orientation, column-major submatrix, sparse of either orientation, zero, multiple, or any dynamic matrix) into a dense matrix gives the same dimensions and, at every position, the source value rounded to the target precision, zeros included. A value checker passed to a dense-to-dense conversion keeps exactly the elements it accepts and replaces all others by zero.",
  ["inputs"], "all shapes up to 4x4, every nonzero pattern up to 3x3, all source kinds, precisions and orientations, a set of thresholds with values on, just above and just below them",
  "Tests convert a few 3x3 matrices; orientation changes of non-square matrices, empty slices and checker boundaries are not covered.",
  [C+"DenseMatrix.h", C+"Storage.h", C+"Transposition.h", C+"MultipleMatrix.h", C+"ZeroMatrix.h"],
  [("conversion constructors", C+"DenseMatrix.h"), ("dynamic dispatch", U+"exec_if.h")], ["elements, dimensions and getSize() of the result"]),
P("C04", "Sparse storage is canonical and round-trips the significant elements",
  "Converting a dense matrix to sparse stores exactly the elements accepted by the value checker (by default the nonzero ones) and converting back yields them and zero elsewhere. Every sparse matrix the library produces - by conversion between precisions or orientations, transposition, addition, subtraction or sparse multiplication - has monotone offsets that start at 0 and end at the number of stored elements, and strictly increasing in-range keys within each slice.",
  ["inputs"], "every nonzero pattern of all shapes up to 3x3 (plus larger structured patterns), both precisions and orientations, thresholds on/around the values",
  "Tests look at one 3x3 example per operation; empty slices, empty matrices, row-major storage and cancellation are not covered.",
  [C+"SparseMatrix.h", C+"SparseStorage.h", C+"BinaryFunctors.h", C+"Transposition.h", C+"Multiplication_Native.h", C+"Occupation.h"],
  [("Sparse conversion constructors", C+"SparseMatrix.h"), ("significant element count", C+"OccupationPolicy.h"), ("offset/key/value arrays", C+"SparseStorage.h")], ["nnz(), offsets, keys, values"]),
P("C05", "Transposition moves (i,j) to (j,i) and is an involution",
  "The transpose of a dense or sparse matrix of any shape, precision and orientation has swapped dimensions and holds at (j,i) exactly the value the original holds at (i,j); transposing twice gives back the original matrix, and the original is unchanged.",
  ["inputs"], "all dense shapes up to 5x5, all sparse patterns up to 3x3 and structured patterns of larger shapes, both precisions and orientations, including empty matrices",
  "Tests transpose one dense and one sparse matrix.",
  [C+"Transposition.h", C+"Cursor.h", C+"SparseStorage.h"], [("transpose", C+"Transposition.h")], ["elements of result and source"]),
P("C06", "Matrix sums and differences are elementwise exact for every operand kind",
  "For every pair of statically typed operand kinds (dense, sparse, zero, multiple) for which +, -, += or -= is accepted, the result (or the left operand of the in-place form) holds the elementwise sum or difference computed in the documented result precision, for all values and nonzero patterns; the other operands stay unchanged. An unsupported combination is rejected with an exception and leaves its operands unchanged.",
  ["inputs", "programs"], "all operand kind pairs x all pairs of nonzero patterns up to 2x2 plus structured patterns up to 4x5, both orientations and precision mixes",
  "Tests add two or three fixed matrices; the kind x pattern product space is never swept.",
  [C+"BinaryFunctors.h", C+"MultipleMatrix.h", C+"ZeroMatrix.h"], [("binary functors", C+"BinaryFunctors.h")], ["elements of result and operands"]),
P("C07", "Dynamic matrix arithmetic agrees with the static arithmetic for all type pairs",
  "For every pair of dynamic matrix types, operator+, operator- and operator* of dynamic matrices either return a matrix of the right dimensions whose elements are the elementwise sum or difference, or the matrix product, of the operands' values, or throw; operator+= and -= do the same in place on the left operand; no other operand is modified and nothing else is returned. Rows, columns, size, norm and name reported through the dynamic interface are those of the matrix held (the norm of a multiple matrix may be rejected with an exception).",
  ["inputs", "programs"], "all 49 type pairs x operations x shapes x patterns",
  "Tests cover two of the 49 pairs, with one value each.",
  [C+"DynamicMatrixFunctions.h", C+"BinaryFunctors.h", C+"DynamicMatrix.h", C+"DynamicMatrixTypeList.h", U+"exec_if_2dim.h"],
  [("double dispatch", U+"exec_if_2dim.h"), ("dynamic functions", C+"DynamicMatrixFunctions.h")], ["values via the held static type"]),
P("C08", "Native multiplication computes the matrix product for every operand kind",
  "Native multiplication of any supported operand kinds (dense, sparse, zero, multiple; mixed precision) and conforming shapes, including empty and inner-dimension-zero ones, yields exactly the sum over k of A(i,k)*B(k,j) whenever that is exactly representable; a zero result is returned with the proper dimensions. The operands are unchanged and every element of the result is defined.",
  ["inputs", "programs"], "all operand kind pairs x all shapes up to 3 x patterns, exhaustive 0/1 patterns of 2x2 operands, stale results re-used",
  "Tests multiply fixed 3x3 matrices.",
  [C+"Multiplication_Native.h", C+"MatrixMultExp.h", C+"Multiplication.h"], [("MultiplicationFunctor<..., Native>", C+"Multiplication_Native.h")], ["elements of result"]),
P("C09", "All multiplication back ends return the same product",
  "For the same operands, multiplication through OpenBLAS, Eigen, Blaze, and the automatic best-policy interface gives the same matrix as the native one, for every shape (including empty and inner-dimension-zero operands; for Blaze non-empty ones), precision and operand kind they accept.",
  ["inputs", "configurations"], "all interfaces x operand types they accept x all shapes up to 4 in each of the three dimensions x value patterns",
  "Tests compare two back ends on a single square matrix.",
  [C+"Multiplication_OpenBLAS.h", C+"Multiplication_Eigen.h", C+"Multiplication_Blaze.h", C+"Multiplication_TheBestPolicy.h"],
  [("MultiplicationFunctor per interface", C+"Multiplication_OpenBLAS.h"), ("policy map", C+"Multiplication_TheBestPolicy.h")], ["elements of result"]),
P("C10", "Automatic conversion picks an admissible type within the accuracy budget",
  "MatrixConverter turns a dense matrix into the first dynamic type, in the documented preference order, whose occupation limits are met - the fractions of elements above the double-precision significance threshold and above the (larger) single-precision one - and the conversion is rejected with an exception if not even those of dense double are met. In the result every element is represented once: those the target type keeps in double precision exactly, those it keeps in single precision rounded, and those below the type's significance threshold as zero.",
  ["inputs", "configurations"], "all assignments of magnitude classes (zero, at/below/above each threshold) to small matrices x occupation limit settings",
  "Tests convert one matrix per target type with one setting; threshold borders and mixed magnitudes are not covered.",
  [C+"MatrixConverter.h", C+"Threshold.h", C+"DenseMatrix.h", C+"SparseMatrix.h", C+"OccupationPolicy.h"],
  [("ConversionFunctor / IsConvertible", C+"MatrixConverter.h"), ("OccupationThresholdDistributor", C+"Threshold.h")], ["type index and value of the result"]),
P("C11", "Blocking a matrix partitions it and unblocking reassembles it",
  "Splitting a dense matrix into blocks of any partition (with at least one block in each direction) of its rows and columns places every element in exactly one block, at the position the partition implies, records the unblocked dimensions, and converting the blocked matrix back to dense restores the original values (up to the block types' precision thresholds). Lists of block sizes that do not sum up to the matrix' dimensions are refused with an exception. Blocks assembled by the user are converted to a dense matrix exactly if they tile the unblocked dimensions, and refused with an exception otherwise. The per-type block counts reported for a blocked matrix equal the number of blocks of each type.",
  ["inputs", "configurations"], "all compositions of all dimensions up to 5 in both directions x magnitude patterns x thresholds",
  "Tests block one matrix with one regular partition.",
  [C+"BlockedMatrixGenerator.h", C+"BlockedMatrix.h", C+"DenseMatrix.h", C+"GenerateTypeMatrix.h", C+"DynamicMatrixFunctions.h"],
  [("BlockedMatrixGenerator", C+"BlockedMatrixGenerator.h"), ("conversion from blocked dense", C+"DenseMatrix.h")], ["blocks, unblocked dimensions, reassembled dense matrix"]),
P("C12", "Blocked multiplication equals unblocked multiplication",
  "For every conforming pair of blocked matrices - any partition of rows, columns and inner dimension into at least one block each, any mixture of block types - the blocked product, converted back to dense, equals the product of the unblocked matrices, its block dimensions are those of the operands' outer partitions, and its unblocked dimensions are set; or the multiplication is rejected with an exception.",
  ["inputs", "configurations"], "all partition triples of dimensions up to 4 x all block type assignments of 2x2-block operands",
  "Tests multiply one 2x2-block pair.",
  [C+"Multiplication_Native.h", C+"DynamicMatrixFunctions.h", C+"BinaryFunctors.h", C+"DenseMatrix.h"],
  [("blocked multiplication functor", C+"Multiplication_Native.h"), ("dynamic + and *", C+"DynamicMatrixFunctions.h")], ["dense reassembly of the product"]),
P("C13", "Generated block sizes always partition the whole dimension",
  "For every non-empty matrix and every pair of matrices to be multiplied, and every admissible setting, block size generation terminates and returns, for each dimension, positive block sizes that sum exactly to that dimension, respect the minimum (where the dimension allows) and maximum block size and cut at the clearest admissible boundary of the matrix, so that they can be used to block the operands; equal inner boundaries are used for both operands. Settings that no partition can satisfy are rejected.",
  ["inputs", "configurations"], "all occupancy patterns of small matrices x equal / adaptive settings; factors of every combination of six magnitudes from 1 to 2^900 over up to 300 rows",
  "Tests check one 4x4 example.",
  [C+"BlockSizeGenerator.h"], [("BlockSizeGenerator", C+"BlockSizeGenerator.h")], ["returned block sizes"]),
P("C14", "Value range checkers accept exactly their documented interval",
  "A value range checker accepts a value exactly when its absolute value lies between its lower and upper threshold, each bound exclusive or inclusive as declared, for every representable threshold and value including zero, denormals, infinities and the extreme finite values; by default the lower bound is exclusive, and 0 is never significant for a lower threshold of 0. Invalid threshold pairs are rejected on construction, not-a-number is neither accepted as a threshold nor as a value.",
  ["inputs", "configurations"], "all ordered threshold pairs and probe values from a set of extreme and adjacent floating point values, all bound type combinations, all value types",
  "Tests probe three values of two checkers.",
  [C+"AbsoluteValueRangeChecker.h"], [("AbsoluteValueRangeChecker::operator()", C+"AbsoluteValueRangeChecker.h")], ["accept/reject"]),
P("C15", "Range checkers are strictly weakly ordered and distinguish different ranges",
  "Ordering of value range checkers of arbitrary (also different) bound types, value types and thresholds is a strict weak ordering, in which two checkers are equivalent only if they accept the same values; hence results cached per checker are never mixed up.",
  ["inputs", "histories"], "all triples of checkers over all bound types, value types and a set of thresholds",
  "Tests insert two checkers into a map.",
  [C+"AbsoluteValueRangeChecker.h", C+"OccupationPolicy.h"], [("operator<", C+"AbsoluteValueRangeChecker.h"), ("occupation cache", C+"OccupationPolicy.h")], ["comparison results, cached occupation"]),
P("C16", "Norms and occupations equal their definition for every matrix kind",
  "The one-, maximum- and two-norm (entrywise: sum of absolute values, largest absolute value, Frobenius) of a dense, submatrix, sparse, zero, multiple, dynamic or blocked matrix, and the occupation and number of significant elements of a dense, submatrix, sparse or zero matrix (for a sparse one among its stored elements), called directly or through a dynamic matrix, equal their mathematical definition whatever its shape, precision, orientation or nonzero pattern, and comparing a norm or occupation with a limit gives the same answer as comparing the computed value.",
  ["inputs"], "all patterns of shapes up to 3x3, all matrix kinds, all checkers of a set, limits on and around the norm",
  "Tests compute the norm of one matrix per kind.",
  [C+"Norm.h", C+"NormPolicy.h", C+"Occupation.h", C+"OccupationPolicy.h", C+"MultipleMatrix.h", C+"ZeroMatrix.h", C+"DynamicMatrixFunctions.h"],
  [("norm functors", C+"Norm.h"), ("Occupation", C+"Occupation.h")], ["returned norm/occupation"]),
P("C17", "Norm and occupation never go stale",
  "After any sequence of whole-matrix operations (construction, copy, move, assignment, swap, resize with or without filler, filling by assignment of a value, in-place addition or subtraction, loading from an archive) interleaved with queries, a norm or occupation query returns the value for the matrix's current elements, and querying never changes the matrix; an object which has been moved from answers for what it still holds. (Writing single elements through references, iterators, views or external memory is outside the statement.)",
  ["histories"], "all operation sequences up to depth 3-5 over a two-matrix universe per matrix type",
  "Tests never query twice around a mutation.",
  [C+"NormPolicy.h", C+"OccupationPolicy.h", C+"DenseMatrix.h", C+"SparseMatrix.h"],
  [("norm cache", C+"NormPolicy.h"), ("occupation cache", C+"OccupationPolicy.h")], ["query results along the history"]),
P("C18", "Storage owns, copies, moves and frees its memory correctly in every history",
  "Along every sequence of constructing, copying, moving, assigning (including self assignment and mixed owning / external memory), resizing, filling, swapping and destroying storages, each storage holds the contents its history implies; copy-constructed storages own independent memory; assigning an owning storage copies its contents, assigning a flexible storage on external memory yields another view of that memory; moved-from flexible storages are empty and reusable (fixed size ones may only be destroyed); external memory is written only through views and never freed; constructions and resizes which are refused by an exception (wrong number of values, external memory) leak nothing and change nothing; and every owned block is freed exactly once.",
  ["histories"], "all operation sequences up to depth 4-6 over two or three storages (flexible, fixed heap, fixed stack, sparse)",
  "Tests perform one operation each.",
  [C+"Storage.h", C+"SparseStorage.h", C+"Memory.h"], [("Storage specialisations", C+"Storage.h")], ["contents, allocation balance, external memory"]),
P("C19", "Matrix objects behave as values with consistent dimensions in every history",
  "Along every sequence of default/parameter construction, copy, move, assignment, self-assignment, swap, resize, conversion and destruction of matrices of one type, each matrix (other than a moved-from one, which may only be assigned, resized, swapped or destroyed) holds the values and the dimensions its history implies, rows*columns, getSize() and the storage agree, copies are independent (copies of blocked matrices share their blocks), a matrix on external memory stays a view of it until it is assigned or moved, a refused resize leaves the matrix unchanged, and memory is neither leaked nor freed twice.",
  ["histories"], "all operation sequences up to depth 3-4 over two or three matrices of each type (dense, sparse, zero, multiple, dynamic, blocked, external memory)",
  "Tests perform one operation each.",
  [C+"DenseMatrix.h", C+"SparseMatrix.h", C+"ZeroMatrix.h", C+"Dimension.h", C+"Storage.h"],
  [("copy/move/swap/resize members", C+"DenseMatrix.h"), ("Dimension", C+"Dimension.h")], ["values, dimensions, allocation balance"]),
P("C20", "The striped iterator is a correct bidirectional iterator",
  "For every stripe length, gap and number of stripes, including empty storages, the striped iterator visits the stripes' elements in order and skips exactly the gaps in both directions; begin/end and rbegin/rend delimit exactly the elements; and its increments, decrements, comparisons, copies, const conversions and dereferences are mutually consistent, so that any walk of steps from any of the four ends (including one step past an end and back) ends at the element its steps imply, and standard algorithms on the range, as well as submatrix views built on it, read and write exactly the elements of the view.",
  ["inputs", "programs"], "all stripe lengths/gaps/counts up to 3-4, all walks of steps up to depth 8-10 from each end",
  "Tests only iterate forwards once.",
  [C+"StripedIterator.h", C+"Storage.h"], [("StripedIterator", C+"StripedIterator.h")], ["visited addresses"]),
P("C21", "Every BLAS wrapper forwards to its routine with the right arguments",
  "Each function of the OpenBLAS interface and of the Intel MKL interface (dense and sparse) calls exactly the BLAS routine it is named after, once, passing each argument in its position, and returns that routine's result, for all argument values; setting the number of threads passes on the number; and the complex dot products of the OpenBLAS interface return the dot product.",
  ["inputs", "programs"], "all 158 wrapped functions of the function list (and 4 sparse ones) x both interfaces x argument values tagged per position, identical and distinct, x returned values; all small complex vectors and strides",
  "Tests call two of about 140 wrappers.",
  [B+"BlasInterface_OpenBLAS.h", B+"BlasInterface_IntelMKL.h", B+"FunctionTypes.h", B+"FunctionList.yml", "src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp", "src/Interfaces/IntelMKL/BlasInterface_IntelMKL.cpp"],
  [("generated wrappers", "src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp")], ["recorded calls of a stand-in BLAS library"]),
P("C22", "Matrix import reproduces the file or fails, never invents data",
  "Reading a matrix from a binary file (through XML settings, `Matrix(path)` or `operator>>`) or through the importer (text header plus binary data) yields exactly the dimensions and values of the file, whatever the orientation of the matrix which is read into and whatever leading dimension and offset the file has. A missing, truncated (at any byte of data or header), contradictory or overflowing description is rejected with an exception instead of yielding a matrix with invented or leftover elements, and the target of a failed import stays a usable matrix. (How unnamed or missing settings entries are treated is up to the settings library.)",
  ["inputs", "fault_sequences"], "all truncation points of data and header files of several shapes, orientations, leading dimensions and offsets; all single contradictions of the settings",
  "Tests import one good file.",
  [C+"MatrixFileIO.h", F+"MatrixFileImporter.h", "src/MatrixFactory/MatrixFileImporter.cpp", C+"MatrixIO.h"],
  [("stream operators", C+"MatrixFileIO.h"), ("MatrixFileImporter", "src/MatrixFactory/MatrixFileImporter.cpp")], ["matrix read or exception"]),
P("C23", "Serialisation and file round trips are lossless",
  "Saving a dense matrix, a storage (flexible, fixed heap, sparse) or a dimension through the text or binary archives or the binary read/write functions, and numbers, strings, paths and vectors through the XML and binary functions, and loading it into any target of the same type (empty or already filled) restores the shape and every element bit for bit. A file which is missing or truncated (at any byte; a text archive cut within its last number excepted) is reported as an exception which leaves the target unchanged; an archive with altered dimensions, sizes or elements is refused or gives a matrix whose dimensions agree with its memory; nothing leaks or is freed twice, and an existing file is replaced (the default) or, if overwriting is declined, left unchanged and reported.",
  ["inputs", "histories"], "all shapes x archive kinds x target states x extreme values, every truncation point of every file",
  "Tests serialise a path only.",
  [U+"FileIO.h", U+"BoostSerializePath.h", C+"Storage.h", C+"DenseMatrix.h", C+"Dimension.h"],
  [("serialize members", C+"Storage.h"), ("FileIO", U+"FileIO.h")], ["loaded matrix"]),
P("C24", "Tracker and enum utilities keep their books exactly",
  "For every sequence of opening, copying and closing tracked scopes (also by exceptions) and of direct bookings, the count of each tracked operation is the number of its closed scopes and bookings and its time their total duration, other operations are untouched; each matrix multiplication books exactly once, on the account of the backend and operand kinds which execute it, and the block size generator books its two phases; the report lists exactly the operations with a non-zero count, with name, count and time as separate columns; and the enumeration parser maps each registered name to its value and back, one to one.",
  ["histories", "inputs"], "all programs of up to 4-5 scope events; all operand kinds x backends; all registered names",
  "No test covers them.",
  [U+"Tracker.h", U+"EnumParser.h", "src/Utilities/tracker.cpp"], [("Tracker", U+"Tracker.h"), ("EnumParser", U+"EnumParser.h")], ["counters, parsed values"]),
P("C25", "Type-list dispatch reaches exactly the first matching type",
  "Dispatching over a type list (one- or two-dimensional, static or by dynamic type index) invokes the functor exactly once, with the first type (pair) for which the condition holds, for every condition; when none matches the documented failure is reported. Index lookup in a type list returns each type's position.",
  ["inputs", "programs"], "all truth assignments of the condition over type lists up to length 7, all index pairs",
  "Tests check one list.",
  [U+"TypeList.h", U+"exec_if.h", U+"exec_if_2dim.h", U+"exec_dyn.h", U+"exec_dyn_2dim.h", U+"TypeChecker.h"],
  [("exec_if / exec_dyn", U+"exec_if.h")], ["functor invocations"]),
P("C26", "Pattern pictures show the magnitude class of every element",
  "The pattern image (XPM) written for a matrix has the matrix's dimensions and palette and shows for each element the first palette colour whose threshold (zero if none is given) does not exceed the element's absolute value, or the background colour if there is none (NaN included), for every dense matrix, row-major or part of another one, and every list of thresholds; the matrix is unchanged.",
  ["inputs"], "all assignments of magnitude classes, boundaries included, to matrices up to 2x3, palettes of up to three colours", "No test covers it.",
  [C+"PatternGenerator.h"], [("PatternGenerator", C+"PatternGenerator.h")], ["written file"]),
P("C27", "Fillers and generators set every element as specified",
  "Filling a matrix of either orientation with a constant, a continuous number, the Hilbert matrix or a diagonal (non-square matrices refused with an exception) - by construction, resize or the filler alone, in own or external memory, a part of a matrix or a full sparse storage (the continuous number is refused with an exception if a sparse matrix does not have room for exactly all elements) - sets every element to the value the filler specifies and nothing else. A generated random matrix has the requested dimensions, absolute values within the requested powers of ten and the requested fraction of nonzero elements (0 none, 1 all), and is a deterministic function of its parameters, seed included.",
  ["inputs", "configurations"], "all shapes up to 4x4, all fillers, all combinations of a set of generator parameters", "Tests fill one matrix.",
  [C+"MatrixFiller.h", F+"MatrixGenerator.h", F+"MatrixFactory.h", "src/MatrixFactory/MatrixGenerator.cpp"],
  [("fillers", C+"MatrixFiller.h"), ("MatrixGenerator", "src/MatrixFactory/MatrixGenerator.cpp")], ["elements"]),
P("C28", "Error statistics equal their definition",
  "For two equally shaped, non-empty matrices, dense, sparse or zero, of any precision and orientation, parts of matrices included, the reported maximal deviation is the largest absolute difference of elements of the same place, elements which are not stored being zero, and the root mean square deviation is the root of the mean of the squared differences; both are symmetric and zero for a matrix and itself (elements which are not NaN). Matrices of different shapes are refused with an exception, and nothing is read beyond them.",
  ["inputs"], "all pairs of value assignments for shapes up to 2x2, deviations at every place of shapes up to 5x5 (8x8); every pair of patterns of stored elements for ten pairs of types; every pair of different shapes up to 3x3 (4x4) for seven pairs of types", "No test covers it.",
  [C+"StatisticalErrorInformation.h"], [("StatisticalErrorInformation", C+"StatisticalErrorInformation.h")], ["statistics"]),
P("C29", "Printed matrices contain every element at its place",
  "Printing a dense, sparse, zero, multiple, dynamic or blocked matrix, in short or in full form, writes its kind, dimensions and every (stored) element in row order at its place with the documented number of digits, for all shapes and patterns (matrices beyond the documented size are replaced by a message), without changing the matrix.",
  ["inputs"], "all shapes up to 4x4 and all patterns up to 2x3, sizes around the limits, special values", "Tests compare one output.",
  [C+"MatrixIO.h"], [("operator<<", C+"MatrixIO.h")], ["text written"]),
P("C30", "Comparison compares shape and elements, identity compares memory",
  "`equal` and `notEqual` of two matrices or storages of any precision and orientation, parts of matrices and external memory included, tell whether the shapes agree and all elements of the same place agree within the documented accuracy (1e-12 for double, 1e-4 if single precision is involved, none for integers; equal infinities agree, NaN agrees with nothing; sparse matrices store the same places), are symmetric and each other's negation, and leave the operands unchanged. `==` and `!=` tell whether two matrices have the same shape and are the same memory (zero matrices and dimensions: the same shape).",
  ["inputs"], "all pairs of shapes up to 3x3 (4x4) with a special difference at every position, all pairs of two-valued matrices up to 2x3, all pairs of sparse patterns up to 2x3, all pairs of windows of a 3x4 matrix",
  "Tests only compare equal column-major matrices; comparison of sparse ones did not even compile.",
  [C+"DenseMatrix.h", C+"SparseMatrix.h", C+"Storage.h", C+"SparseStorage.h", C+"Dimension.h", U+"EqualWithinNumericalAccuracy.h"],
  [("operator== / equal", C+"DenseMatrix.h")], ["comparison result"]),
P("C31", "The benchmark measures and compares what its settings ask for",
  "Every action of the benchmark program multiplies the two matrices as its name says (precision and back end, dense or blocked) and returns the product in double precision with the measured duration; the named number of threads is what the back end is given. Matrix lists contain one matrix per combination of dimension and band width with exactly the band set (bands wider than the matrix fill it), the matrices of the named files, or those of another list. The program runs every action on every pair, prints one line each with the deviation from the first action (maximum and 2-norm), writes a difference file per matrix when asked to and only then, and reports success if and only if everything asked for was done: unknown actions, matrix types, options or files and missing or unequal lists are refused with a nonzero exit status.",
  ["inputs", "configurations"], "all ordered lists of up to three actions x matrix lists x options, all shapes up to 5 for every action, all band widths, all misuse forms, a disk with room for every number of bytes of the difference file (JSON, command line and timing libraries are stand-ins)",
  "No test runs the benchmark program.",
  ["src/Benchmark/benchmark.cpp", "src/Benchmark/ActionProvider.cpp", "src/Benchmark/MatrixProvider.cpp", "src/Benchmark/time.cpp", "src/Benchmark/Action_blasbooster_block.h"],
  [("main", "src/Benchmark/benchmark.cpp"), ("ActionProvider", "src/Benchmark/ActionProvider.cpp"), ("MatrixProvider", "src/Benchmark/MatrixProvider.cpp")], ["products, printed table, files written, exit status"]),
P("C32", "The matrix tools write and draw what they are asked for",
  "generate_matrix writes a file with exactly rows x columns double precision numbers, column by column, which are the given value where row and column differ by less than the band width and zero elsewhere, for every shape (rectangular and empty ones included), band width and value, options not given having the documented default. show_pattern draws the elements of a matrix, or the block types of its automatic partition, each block in the colour of its type with a border of the given width cut off at the block, with the dimensions of the matrix. Both end with a nonzero exit status and without reporting success when an option is unknown or malformed, an input is missing, malformed or too short, or the output cannot be written.",
  ["inputs", "configurations"], "all shapes up to 5x5 (7x7) x all band widths up to 7 (9) x values x option spellings, all magnitude patterns of the quarters of matrices x block sizes x border widths, all misuse forms",
  "No test runs the tools.",
  ["src/Benchmark/generate_matrix.cpp", "src/Benchmark/show_pattern.cpp", C+"PatternGenerator.h"],
  [("main", "src/Benchmark/generate_matrix.cpp"), ("main", "src/Benchmark/show_pattern.cpp")], ["files written, exit status"]),
P("C33", "The Intel MKL back end returns the same product",
  "Built with Intel MKL, multiplication of dense, of sparse with dense and of sparse matrices through the MKL interface, and of every pair of operand kinds through the automatic best-policy interface, gives the same matrix as the native one for every shape (empty and inner-dimension-zero ones included), and every argument passed to MKL is one its documentation allows (MKL is not installed: the functions called are stand-ins which check their arguments).",
  ["inputs", "configurations"], "all operand types the interface accepts x all shapes up to 4 (6) in each of the three dimensions x value patterns, all patterns of 2x2 operands",
  "MKL is not installed where the tests run, so none covers it.",
  [C+"Multiplication_IntelMKL.h", C+"Multiplication_TheBestPolicy.h"],
  [("MultiplicationFunctor<..., IntelMKL>", C+"Multiplication_IntelMKL.h")], ["elements of result, arguments of MKL"]),
P("C34", "Running out of memory is reported and corrupts nothing",
  "When memory runs out at any allocation of an operation (construction, copy, assignment, move, resize, swap, transposition, conversion of or to dense, sparse, zero, multiple, dynamic and blocked matrices, sums, differences and products, automatic conversion, blocking, block size generation, norm and occupation queries, loading from an archive), the operation either reports it with std::bad_alloc (loading: with any exception) or completes with the right result. Afterwards the operands which are not its target are unchanged, a plain target still has the memory its dimensions need (the target of a failed loading is unchanged), every target can be assigned, resized, moved to, swapped and destroyed, repeating the operation once there is memory gives the right result, and no memory is lost, freed twice or used after it has been freed.",
  ["fault_sequences", "histories"], "every allocation of every operation failing alone or for good x operand kinds x shapes (empty ones included) x old targets x every use afterwards",
  "Memory never runs out in a test.",
  [C+"Storage.h", C+"SparseStorage.h", C+"DenseMatrix.h", C+"SparseMatrix.h", C+"DynamicMatrix.h", C+"MatrixConverter.h", C+"BlockedMatrixGenerator.h", C+"Memory.h"],
  [("Storage::resize / operator=", C+"Storage.h"), ("Matrix::operator= / resize", C+"SparseMatrix.h")], ["exception, target, operands, live memory"]),
P("C35", "A matrix of two parts is the sum of its parts and never mixes dimensions",
  "In every history of constructing, resetting, clearing, copying, moving, swapping, assigning to itself, changing a part of and destroying matrices of two parts (sparse double with sparse float, sparse double with dense float), a matrix holds exactly the two parts set last: its dimensions are theirs, it equals their sum, a change of a part is seen by every matrix which holds it, and a part lives exactly as long as somebody holds it. Parts whose numbers of rows or columns differ are refused with an exception by construction and by reset, parts which fit are never refused, and a refused reset leaves the matrix as it was. A query which such a matrix offers (norm, occupation, comparisons with a limit) is answered for the sum of the parts or refused with an exception, never answered wrongly.",
  ["histories", "inputs"], "every operation sequence up to the depth over every pair of parts of different and equal shapes (empty ones included); every pair of structured parts up to 4x4 for the queries",
  "The tests reset one matrix of two parts once, with parts of the same shape.",
  [C+"MultipleMatrix.h"],
  [("MultipleMatrix::reset", C+"MultipleMatrix.h")], ["parts, their owners, dimensions, sum, exceptions, live memory"]),
P("C36", "Literals and dimensions of a matrix are taken exactly or refused",
  "A dense matrix written as a list of rows has as many rows as the list and as many columns as each row, and element (i,j) is the j-th value of the i-th row, in either storage order and for every element type; the list without rows is the matrix without elements. A blocked matrix written as a list of rows of blocks holds exactly these blocks, its unblocked dimensions are the sums of theirs, and it reassembles to the matrix they form. Rows of different length, and blocks whose heights differ within a row or whose widths differ within a column, are refused with an exception; a literal which fits is never refused. No literal is read or written out of bounds, a refused one leaves its blocks unchanged and holds none of them. A matrix of any kind which is constructed with, resized to, or multiplied to given dimensions has exactly these dimensions, as many elements as their product, and memory for each of them; dimensions whose product cannot be represented, or for which there is no memory, are refused with an exception, and a refused resize leaves the matrix as it was.",
  ["inputs"], "every combination of row lengths 0..4 for up to 4 rows (thorough 0..5, 5 rows), five matrix types; every combination of block shapes for two by two blocks, and up to three rows of up to three blocks with one odd block; every pair of dimensions out of 31 from 0 to the largest number, around every power of two at which a product, or its size in bytes, overflows, for eight kinds of matrices, constructed, resized and assigned, and three products",
  "The tests write a few literals whose rows have the same length, and never ask for dimensions which do not exist.",
  [C+"DenseMatrix.h", C+"BlockedMatrix.h", C+"Dimension.h"],
  [("Matrix::Matrix(initializer_list)", C+"DenseMatrix.h"), ("Dimension", C+"Dimension.h")], ["elements, dimensions, exceptions, owners of the blocks, memory errors"]),
P("C37", "Operands whose dimensions do not fit are refused",
  "The sum and the difference of two matrices, in place or not, are formed only if both have the same number of rows and the same number of columns; a product only if the first has as many columns as the second has rows; a product of blocked matrices only if the columns of the first and the rows of the second are divided into the same blocks. This holds for every pair of matrix types, for every interface of the product, and for matrices whose types are known only at run time. Anything else is refused with an exception: no element is read or written out of bounds, no result is made up, and both operands keep their values. Operands which fit are never refused by a sum, a difference or a product, and the result is the one which the definition gives.",
  ["inputs"], "every pair of matrices with 0..2 (thorough 0..4) rows and columns each, full, with zeros and all zero, for all 49 pairs of column-major types and 16 of row-major ones, +, -, +=, -=, and the products by the native and the best interface; the same for the 49 pairs of types known at run time; blocked products for every pair of divisions of 0..3 (thorough 0..4) inner elements, four outer divisions and nine choices of block types each",
  "The tests only combine matrices which fit; in a build without assertions the others run beyond their memory.",
  [C+"BinaryFunctors.h", C+"MatrixMultExp.h", C+"Multiplication_Native.h"],
  [("operator +", C+"BinaryFunctors.h"), ("MatrixMultExp::execute", C+"MatrixMultExp.h")], ["exceptions, results, operands, memory errors"]),
P("C38", "Matrices of integers are calculated without rounding",
  "For matrices whose elements are integers (int or size_t), dense and sparse, in both storage orders, as far as the library accepts them: copies, moves, assignments, transpositions, changes of the storage order, conversions between dense and sparse, and windows keep every value of the whole range of the type exactly, up to and including the largest and the smallest one, also beyond the integers which a double can represent; conversion to sparse storage drops exactly the zeros, and two matrices are equal exactly if all elements are. Sums, differences and native products of integer matrices of one type equal the exact integer result whenever it is representable (modulo the range for unsigned elements), and with double elements the result which the types of the language give. Norms are those of the definition, where no absolute value overflows.",
  ["inputs"], "int and size_t: every choice of up to 4 (thorough 6) elements from the extremes of the type, the first integers beyond float and double, 0 and 1, in nine shapes for the storage forms; up to 3+3 (thorough 4+4) free elements in nine shapes for sums and products of every combination of dense and sparse and of int with double; sides around 16, 32 and 64",
  "The tests use double and float only; any detour over a floating point number, or an absolute value of the smallest integer, shows only at the ends of the range.",
  [C+"AbsoluteValueRangeChecker.h", C+"Norm.h", C+"SparseMatrix.h", C+"DenseMatrix.h", C+"BinaryFunctors.h", C+"Multiplication_Native.h"],
  [("AbsoluteValueRangeChecker::operator ()", C+"AbsoluteValueRangeChecker.h"), ("NormFunctor", C+"Norm.h")], ["elements, dimensions, norms, equality"]),
P("C39", "A file which could not be written completely is never reported as written",
  "When the disk runs full after any number of bytes (or the write fails for any other reason), generate_matrix, show_pattern (elements and block types), the benchmark's difference files, the pattern generator, writeXML and writeBinary report it - the programs with a nonzero exit status and without their closing words of success, the functions with an exception - for small and large files, new files and replaced ones. Success is reported only if the file then contains every byte it contains without the limit; with enough room nothing is refused, and afterwards the same call succeeds again in the same process.",
  ["crash_points", "fault_sequences", "inputs"], "for every kind of output and several contents: every number of bytes of room from none to all (for files beyond some 200 elements those around every multiple of 64, thorough 8 or less), with and without an old file",
  "The tests never meet a full disk.",
  ["src/Benchmark/generate_matrix.cpp", "src/Benchmark/show_pattern.cpp", "src/Benchmark/benchmark.cpp", C+"PatternGenerator.h", U+"FileIO.h"],
  [("main", "src/Benchmark/generate_matrix.cpp"), ("PatternGenerator::operator()", C+"PatternGenerator.h"), ("writeXML", U+"FileIO.h")], ["exit status, exceptions, file contents"]),
]

# explorers which also run every operation on the operand shapes of a fixed list of large sides (bb.h: big_sides, big_triples)
WIDE = " C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C16 C18 C19 C20 C22 C23 C27 C28 C30 C31 C32 C33 ".split()
for p in PROPS:
    if p["id"] in WIDE: p["quantifier"]["text"] += "; plus the same operations for shapes with sides around every power of two and beyond, up to 300, and rows or columns of 70000 elements where the operation allows"
