#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay uniform)."""
import json, os
I='/repo/include/malg/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":["include/malg/"+f for f in files],
        "state":state or [], "mechanism":[{"name":n,"where":w} for n,w in mech],
        "observe_at":observe,"hook_needed":hook}})
inp=["inputs"]; hist=["histories","inputs"]
p("C01","Containers never touch memory they do not own and never leak",
 "Whatever sequence of construction, copy, move, assignment, resizing, reshaping, row/column editing, viewing, arithmetic and decomposition is applied to vectors and matrices, no operation reads or writes outside the storage it owns, uses freed or uninitialised storage, executes undefined behaviour, or frees storage twice. When all the objects are gone every block obtained from the allocator has been returned.",
 hist,"all histories of public operations with valid arguments, over element types int, long, float, double and complex, all shapes including empty ones, and both storage layouts",
 "The nine tests run without sanitizers and only follow a handful of fixed histories, none with empty, moved-from or self-aliased operands.",
 ["vector.hpp","matrix.hpp","view.hpp","utility.hpp","math.hpp","linalg.hpp"],
 [("Vector::allocate/deallocate own the buffer with realloc/free","include/malg/vector.hpp"),("Matrix keeps rows*cols equal to the size of its vector","include/malg/matrix.hpp")],
 ["malloc/realloc/calloc/free and operator new/delete at link level","AddressSanitizer, UndefinedBehaviorSanitizer, valgrind"],
 [{"name":"allocation ledger","meaning":"live blocks obtained while a history runs","where":"harness, through the linker"}])
p("C02","Vectors and matrices are values: copies, moves and reshapes keep exact contents",
 "A vector or matrix always equals the abstract array built by the history applied to it: copying (also from another element type, a view, or a view of itself) duplicates shape and elements, moving transfers them and leaves the source empty, assigning an empty one empties the target, and no later change to one object is visible in another. Resizing keeps the elements at the indices common to both shapes and makes the others zero, reshaping keeps the elements in linear order and refuses a different number of elements.",
 hist,"all histories of construct/copy/move/assign/self-assign/convert/resize/reshape/write/swap over pools of objects of several element types, in both layouts",
 "Tests check one copy and one resize each; aliasing, emptiness and moved-from states only appear in longer histories.",
 ["vector.hpp","matrix.hpp"],
 [("copy/move constructors and assignments, resize, reshape","include/malg/vector.hpp, include/malg/matrix.hpp")],
 ["rows(), cols(), size(), element reads, data() of every live object after every step"])
p("C03","Views are exact windows on the matrix they refer to",
 "A view over a row and column range (clamped to the matrix), a view of a view, a row or column view, and a cofactor view (all but one row and one column) report the shape of the window and every element read or written through them, with row/column or linear indices, is exactly the corresponding element of the underlying matrix. Writing or assigning through a view changes that window only, and assigning data of the wrong shape from a list changes nothing. When the matrix is later resized or reassigned, the view shows what is left of its window.",
 hist,"all matrices, all non-empty windows, nested windows, excluded rows/columns, const and non-const, both layouts",
 "The view test uses one small matrix and row-major storage; non-square cofactor views and nested windows are never driven.",
 ["view.hpp","matrix.hpp","utility.hpp"],
 [("View and CofactorView index translation","include/malg/view.hpp"),("utility::view, row, col","include/malg/utility.hpp")],
 ["elements of the view and of the whole underlying matrix before and after each access"])
p("C04","Element-wise arithmetic is exact for every shape, type mix and operand kind",
 "Addition, subtraction, multiplication and division of matrices or vectors with each other (where defined element by element) or with a scalar on either supported side produce, in the common type of the operands, exactly the element-by-element result with the shape of the operands, whether the operands are matrices, views or cofactor views. The in-place forms (also when the scalar is an element of the object being modified) leave the same values in the left operand and return it; the other forms leave both operands unchanged.",
 inp,"all shapes (including empty and large), all pairs of int/long/float/double/complex element types, all operand kinds, operands aliasing each other, both layouts",
 "Tests try one or two literal matrices per operator and no mixed types.",
 ["math.hpp","complex_math.hpp","type_traits.hpp"],
 [("operators + - * / and += -= *= /= on MatrixBase and Vector","include/malg/math.hpp"),("extract_common_type_t","include/malg/type_traits.hpp")],
 ["result shape, element type and elements; operands after the operation"])
p("C05","Matrix, matrix-vector and inner products are the mathematical products",
 "The product of two matrices, of a matrix and a vector, the inner product of two vectors, the in-place product and the integer matrix power equal the mathematical definition for every conforming shape (including rectangular, empty and large ones), type mix and operand kind. The in-place product by a square matrix stores the product in the left operand, also when both operands are the same matrix.",
 inp,"all conforming shapes, all type pairs, all operand kinds, powers 0..N, aliased operands, both layouts",
 "Tests multiply a few literals; rectangular in-place products and aliasing are not tried.",
 ["math.hpp","linalg.hpp"],
 [("operator*, operator*=, dot, powm","include/malg/math.hpp, include/malg/linalg.hpp")],
 ["all elements of the product against an independent triple loop"])
p("C06","Operands of incompatible shape are always refused without side effects",
 "Every operation that needs conforming operands (element-wise arithmetic and comparisons, products, in-place forms, stacking, extraction and row/column removal outside the matrix, reshaping, initialisation with ragged, too few or (for a vector of a given size) another number of values, assignment of a matrix or view of another shape to a view, square-only functions and decompositions, discretisation and simulation of inconsistent systems, controllability and observability matrices, builders with zero size) throws a standard exception when the shapes do not conform, for every such pair of shapes. Nothing is read out of bounds and all the operands keep their contents.",
 inp,"all pairs of non-conforming shapes for every listed operation, including empty operands, with matrices and views as operands",
 "Tests never pass non-conforming operands.",
 ["math.hpp","utility.hpp","linalg.hpp","matrix.hpp","control/control.hpp"],
 [("size checks at the head of each operation","include/malg/math.hpp, include/malg/utility.hpp, include/malg/linalg.hpp, include/malg/control/control.hpp")],
 ["exception type, contents of operands after the throw, sanitizers"])
p("C07","Comparisons follow the documented tolerance semantics element by element",
 "Equality and inequality of matrices, vectors and scalars compare integers exactly and floating point or complex values up to the relative tolerance in force (also when it is changed at run time), inequality being the exact negation of equality, and infinities being equal only to themselves; order comparisons are exact element by element. The aggregations (all, any, closeness within an absolute bound, first difference with its sign and one-based position) agree with the elements for every shape.",
 inp,"all pairs of equal-shape operands with differences below, near and above the tolerance, all types, special values, both layouts",
 "Tests compare a few literals that differ a lot or not at all.",
 ["math.hpp","feq.hpp","utility.hpp"],
 [("operator== != < <= > >=, all, any","include/malg/math.hpp"),("approximately_equal, tolerance","include/malg/feq.hpp"),("all_close, compare","include/malg/utility.hpp")],
 ["boolean results against an independent predicate"])
p("C08","Builders, stacking, extraction and row/column edits place every element right",
 "Identity, zeros, ones, diagonal, vector/matrix conversion, flattening, vertical and horizontal stacking (matrix or vector), concatenation, extraction of blocks, rows and columns, row/column swapping (possibly on a sub-range) and removal give exactly the elements and shape that their definition prescribes, for every shape and valid range, and leave their inputs unchanged unless they edit in place.",
 inp,"all shapes, ranges (including open-ended and clamped), element types, operand kinds and both layouts",
 "Tests exercise one literal per function.",
 ["utility.hpp","matrix.hpp"],
 [("eye ... remove_column","include/malg/utility.hpp")],
 ["every element of the result and of the inputs"])
p("C09","linspace and logspace sample the requested interval",
 "A linear (logarithmic) sampling has exactly the requested number of points, starts at the first bound (the base raised to it), ends at the last bound (the base raised to it) up to rounding, and is evenly spaced (in the exponent) and monotone in the direction of the interval, increasing or decreasing; one point gives the last bound, none gives an empty vector, and equal bounds give a constant vector.",
 inp,"all finite bounds, directions, counts and bases, for float and double (and integer bounds that divide evenly)",
 "Tests look at two intervals.",
 ["utility.hpp"],[("linspace, logspace","include/malg/utility.hpp")],["all the points of the sampling"])
p("C10","Random matrices and vectors have the requested shape and stay in the range",
 "A random matrix or vector has the requested shape and each element, or both parts of each complex element, lies within the requested bounds (both included for integers); a degenerate range gives that constant, and draws are not constant otherwise, reaching both ends of a small integer range.",
 inp,"all shapes and bounds, for integer, floating point and complex elements",
 "Tests use random matrices only as input for other functions and never look at the bounds.",
 ["utility.hpp"],[("rand_matrix, rand_vector","include/malg/utility.hpp")],["bounds and spread of each element over many draws"])
p("C11","find returns the indices of the non-zero elements, first or last n of them",
 "The indices of the non-zero elements are returned all, in increasing linear order, exactly once, and nothing else, NaN counting as non-zero. With a limit n the first n, or on request the last n, of those indices are returned (all of them when there are fewer, an empty matrix for n = 0), as a row if the input is a row and as a column otherwise.",
 inp,"all matrices (every density of zeros), all n, both directions, both layouts and all element types",
 "The find test checks three literals, whose first non-zero values are contiguous.",
 ["utility.hpp"],[("flatnonzero, find","include/malg/utility.hpp")],["returned indices against a scan"])
p("C12","Reductions and norms equal their definitions",
 "Sum, trace, minimum and maximum (value and first position for vectors, per column for matrices), Euclidean and Frobenius norms, length of a column segment, infinity norms, norm of the strictly lower part, projection, inner product and accumulation, and the power-of-two scaling that brings the infinity norm to at most one, equal their mathematical definition for real and complex values, every shape including empty, and every operand kind.",
 inp,"all shapes, types and operand kinds, both layouts",
 "Tests check few literals, and norms of complex values never compile there.",
 ["math.hpp","utility.hpp"],[("sum ... log2_ceil","include/malg/math.hpp"),("inner_product, accumulate","include/malg/utility.hpp")],["returned values against independent accumulation"])
p("C13","Element-wise maps apply the function once to every element",
 "Applying a unary or binary function element by element, and the maps built on it (real part, imaginary part, absolute value, sign, exponential, element-wise product, linear combination), gives at every position the function of the elements at that position, computed in the common type, with the shape of the input and each element visited exactly once.",
 inp,"all shapes, types (including mixed types) and operand kinds, both layouts",
 "Tests do not call these maps apart from a linear combination literal.",
 ["math.hpp","linalg.hpp"],[("element_wise_function, element_wise_binary_function and users","include/malg/math.hpp"),("linalg::exp","include/malg/linalg.hpp")],["every element, number of calls of the function"])
p("C14","Transposes and structural predicates are exact",
 "Transposition exchanges row and column indices (conjugating for the Hermitian and conjugate transposes) and applied twice gives the matrix back. The predicates square, row/column vector, symmetric, skew-symmetric, diagonal, zero, constant, identity, lower and upper triangular answer true exactly for the matrices with that structure, whichever single element breaks it.",
 inp,"all shapes and types; matrices with the structure and with one element perturbed at every position; views and both layouts",
 "Tests check single literals; the perturbed position matters.",
 ["linalg.hpp","utility.hpp"],[("transpose, hermitian_transpose, conjugate_transpose","include/malg/linalg.hpp"),("is_*","include/malg/utility.hpp")],["results against definition"])
p("C15","The determinant is the determinant",
 "For every square matrix of real or complex numbers, and every integer matrix up to 4x4 or whose elimination is exact, the determinant equals the mathematical one up to rounding proportional to the size of the entries: exactly zero or rounding-small for singular matrices, sign-flipped by swapping two rows, whatever zero or tiny pivots elimination meets. Views and cofactor views give the determinant of the window, and the argument is not modified.",
 inp,"all square sizes, entries (including structured zeros, singular, permuted, badly pivoted), types and both layouts",
 "Tests check a few literals; zero pivots, singular columns and large sizes are rarely met.",
 ["linalg.hpp"],[("determinant: closed forms up to 4x4, elimination beyond","include/malg/linalg.hpp")],["value against exact fraction-free elimination and permutation-sum oracles"])
p("C16","Adjoint, cofactor, inverse and division satisfy their defining identities",
 "For every well-conditioned square matrix, real or complex, A times its inverse (both sides) is the identity up to rounding, A times its adjoint is its determinant times the identity, cofactor removes exactly one row and one column, and dividing B by A is B times the inverse of A. A matrix whose determinant is exactly zero gives an empty inverse, and inputs are not modified.",
 inp,"all sizes from 1x1, well-conditioned entries with any zero pattern, real, integer up to 4x4, complex, views and both layouts",
 "Tests check literals.",
 ["linalg.hpp"],[("cofactor, adjoint, inverse, div","include/malg/linalg.hpp")],["residuals of the identities"])
p("C17","LU decomposition reproduces the matrix with triangular factors",
 "For every square matrix with non-zero leading minors, real, integer or complex, the decomposition gives a lower triangular factor and a unit upper triangular factor whose product is the matrix up to rounding, and the input is not modified.",
 inp,"all sizes and entries with safely non-zero leading minors, types and both layouts",
 "Tests check one literal.",["linalg.hpp"],[("lu_decomposition","include/malg/linalg.hpp")],["shape and residual of the factors"])
p("C18","QR decomposition reproduces the matrix with orthogonal and triangular factors",
 "For every real matrix, tall, square or wide, also rank-deficient or with null columns, the decomposition gives a square orthogonal factor and an upper triangular factor of the shape of the matrix whose product is the matrix up to rounding, and the input is not modified.",
 inp,"all shapes and ranks, types double, float and int, both layouts",
 "No test can call it: it did not compile before it was repaired.",["linalg.hpp"],[("qr_decomposition","include/malg/linalg.hpp")],["orthogonality, triangularity and residual"])
p("C19","solve returns the solution, least-squares or minimum-norm solution",
 "For every well-conditioned system solve returns x with A x = b when A is square, the least-squares solution when there are more equations than unknowns, and the minimum-norm exact solution when there are fewer, up to rounding; an exactly singular square system gives an empty vector. Inputs are not modified.",
 inp,"all shapes, full-rank well-conditioned A, b in and out of the range of A, float/double/int, both layouts",
 "No test can call it: it did not compile before it was repaired.",["linalg.hpp"],[("solve","include/malg/linalg.hpp")],["residual, normal equations, row-space membership"])
p("C20","The matrix exponential is accurate for every scaling",
 "For every real or complex square matrix of moderate norm (small, large enough to need scaling, nilpotent, diagonal, rotation) the matrix exponential equals the true one to the requested accuracy, exp(0) being the identity, and inputs are not modified.",
 inp,"all sizes, norms up to about ten, defective and non-normal matrices, accuracies, both layouts",
 "Tests check one literal.",["linalg.hpp","math.hpp"],[("expm, log2_ceil","include/malg/linalg.hpp, include/malg/math.hpp")],["relative error against long double Taylor with scaling and squaring"])
p("C21","Discretisation matches the exact zero-order hold",
 "For every continuous state-space model with invertible A and every sample time, the discretised A and B are the exact zero-order-hold ones (up to the accuracy of the matrix exponential), C and D are copied, the sample time is recorded, and the continuous model is unchanged.",
 inp,"all state/input/output counts, stable and unstable A, sample times, both layouts",
 "Tests check one literal.",["control/control.hpp"],[("c2d","include/malg/control/control.hpp")],["A, B against the exponential of the block matrix in long double"])
p("C22","Simulation produces the recurrence, step by step",
 "A simulation runs the smaller of the number of inputs and the whole number of sample times in the simulated time (none for a negative time, all the inputs for an unlimited one); it returns one more state and time stamp than outputs, starts at the given state, every state and output satisfies the discrete recurrence with the input of that step, and the time stamps advance by the sample time up to and including the last. A single step gives the same values, and the model, the inputs and the initial state are unchanged.",
 hist,"all models, input sequences, durations and sample times, both layouts",
 "Tests run one simulation and look only at a few numbers.",["control/control.hpp"],[("simulate_step, simulate","include/malg/control/control.hpp")],["times, states, outputs against an independent recurrence"])
p("C23","Controllability and observability matrices contain the right powers",
 "The controllability matrix is the horizontal stack of B, AB, ..., A^(n-1)B, and the observability matrix the vertical stack of C, CA, ..., CA^(n-1), for every conforming pair and operand kind; they are transposes of each other under duality and the inputs are unchanged.",
 inp,"all state, input and output counts, entries, types and both layouts",
 "Tests check one literal; obsv did not compile.",["control/control.hpp","linalg.hpp","utility.hpp"],[("ctrb, obsv","include/malg/control/control.hpp")],["every block"])
p("C24","Characteristic polynomials and polynomial helpers are right",
 "The polynomial with given roots (vector, row or column) is monic with those roots, the polynomial of a square matrix is its characteristic polynomial (so that the matrix satisfies it), that of an empty matrix is one, a non-square one is refused, and polynomial reduction removes exactly the leading zeros, giving a single zero for a null polynomial.",
 inp,"all sizes and entries, real and (for roots) complex, both layouts",
 "Tests check literals.",["control/control.hpp"],[("poly, polyreduce","include/malg/control/control.hpp")],["coefficients against exact expansion, Cayley-Hamilton residual"])
p("C25","Ackermann's gains place the poles",
 "For every controllable single-input system and every set of as many desired real poles as states, the returned gain makes the closed loop have exactly the desired characteristic polynomial up to rounding; an uncontrollable system, a non-conforming pair or a wrong number of poles never yields a gain. Inputs are unchanged.",
 inp,"all controllable pairs and poles (repeated, negative, zero), both layouts; uncontrollable and non-conforming ones for the refusal",
 "Tests check one literal.",["control/control.hpp"],[("acker","include/malg/control/control.hpp")],["characteristic polynomial of A - BK; exit status of the refusal in a child process"])
p("C26","What is written to a file is read back identically",
 "Writing any sequence of vectors and matrices (also empty, views, complex) to a file and reading it back in order into objects of any previous shape gives the same shapes and, within the precision of the stream, the same values, exactly for integers and for full precision; the stream stays usable after each.",
 hist,"all sequences of objects, shapes, types, values (negative, tiny, huge), precisions, previous contents of the targets, and both layouts",
 "The test writes one vector and one matrix of small integers.",["io.hpp"],[("operator<< on ofstream, operator>> on ifstream","include/malg/io.hpp")],["objects read back, stream state"])
p("C27","Malformed files never corrupt memory or objects",
 "Reading a vector or matrix from any byte sequence (wrong type letter, truncated, negative, overflowing or absurd sizes, junk values) either gives a consistent object whose shape matches its storage or throws a standard exception, without touching foreign memory, leaking or looping; when the type letter is wrong the target is unchanged.",
 inp,"all byte sequences, random, mutated from valid files, and truncated at every position",
 "Tests read only the files they wrote.",["io.hpp","vector.hpp","matrix.hpp"],[("operator>> on ifstream; allocation checks","include/malg/io.hpp, include/malg/vector.hpp, include/malg/matrix.hpp")],["exceptions, consistency of the target, sanitizers, libFuzzer coverage in the thorough tier"])
p("C28","Text renderings contain every element in its place",
 "Printing to a stream, named dumps, MATLAB and C++ renderings of vectors, matrices, views and state-space models list every element exactly once, in row order, with the documented separators, brackets and column alignment, using the precision of the stream, and leave the object unchanged and the stream flags as they were.",
 inp,"all shapes (including empty), types, precisions and operand kinds, both layouts",
 "Tests print without checking the text.",["io.hpp"],[("operator<<, dump_*, to_matlab, to_cpp","include/malg/io.hpp")],["text against an independent formatter"])
p("C29","Mixed-precision complex arithmetic is exact complex arithmetic",
 "Sum, difference, product and quotient of complex numbers of different precisions, and of complex and real or integer numbers on either side, are the complex result in the common precision.",
 inp,"all pairs of component types and values (including zero, negative, purely imaginary)",
 "Tests check few literals.",["complex_math.hpp","type_traits.hpp"],[("operators on std::complex","include/malg/complex_math.hpp")],["type and value of results"])
p("C30","Eigen decompositions are similarity transforms revealing the eigenvalues",
 "For every complex square matrix the Hessenberg reduction and the QR iteration return a unitary transform and a matrix that reproduce the input, the first being upper Hessenberg and the second upper triangular with the eigenvalues of the input on its diagonal when they are well separated; the Givens factorisation of a Hessenberg matrix reproduces it with a unitary and an upper triangular factor; the eigenvectors of an upper triangular matrix with distinct diagonal satisfy the eigenvalue equation with unit norm; with a repeated diagonal every returned column is an eigenvector or null, and the completeness flag says whether any is null.",
 inp,"all sizes from 1, complex and real-valued entries, prescribed spectra, both layouts",
 "No test includes the eigenvalue header: it did not compile.",["eigen.hpp","math.hpp"],[("hessenberg, qr_factorise_givens, QRHessenberg, eigenvectorUpper","include/malg/eigen.hpp")],["unitarity, similarity residual, structure, spectrum"])
p("C31","Concurrent use of shared constant objects is race-free and deterministic",
 "Any number of threads may concurrently apply read-only operations (arithmetic, comparisons, decompositions, reductions, extraction, printing to their own streams, simulation) to the same constant objects and different threads may work on different objects: there is no data race, inputs keep their contents and every thread gets the result a single thread gets.",
 ["schedules","inputs"],"all interleavings of read-only operations on shared operands and of independent mutations",
 "All tests are single-threaded.",["matrix.hpp","vector.hpp","math.hpp","linalg.hpp","feq.hpp","control/control.hpp"],
 [("no mutable state behind const access; function-local statics initialised once","include/malg/feq.hpp, include/malg/linalg.hpp")],["ThreadSanitizer reports, results of every thread, operands afterwards"])
p("C32","A failed allocation is reported and leaves objects valid",
 "If any single memory request made while executing an operation fails, the operation throws the standard allocation exception (text streams report the failure through their state), nothing is leaked or used after free, every operand it only reads keeps its value, the object being modified is still consistent (shape matches storage) and usable, and it keeps its previous value when it was being assigned, resized or combined in place, and repeating the operation with memory available gives the right result.",
 ["fault_sequences","histories"],"every operation, every position of the failing memory request",
 "Tests never see a failing allocation.",["vector.hpp","matrix.hpp"],
 [("Vector::allocate checks realloc","include/malg/vector.hpp")],["exception, ledger of live blocks, state of operands after the failure"])
p("C33","Results do not depend on the storage layout",
 "Compiled for row-major or for column-major storage, the library gives identical results for every operation whose definition does not involve linear element order: arithmetic, products, decompositions, stacking, extraction, resizing, text rendering, file contents, control functions.",
 ["configurations","inputs"],"both documented layouts, all operations and shapes",
 "Tests only run with the row-major default.",["matrix_base.hpp","matrix.hpp","view.hpp"],
 [("layout switch in index translation","include/malg/matrix_base.hpp, include/malg/matrix.hpp, include/malg/view.hpp")],["digests of the results of the same workload in both builds"])
p("C34","Composed operations compute the composition and keep no hidden state",
 "Whatever program is written with the library (results, temporaries, views and parts of results used as operands of further operations, objects edited, resized, swapped and reused, refused and unrelated operations in between), every intermediate and final value is what the composition of the definitions gives, and every operation is a function of its operands only: executed again later, in another order or on copies, it gives the same result bit by bit, and the scalar helpers (factorial, number base, zero state and input) give their exact values.",
 ["histories","inputs"],"all programs over the public operations, all orders of execution",
 "Tests call each operation once, in a fixed order, on fresh objects.",["math.hpp","linalg.hpp","utility.hpp","matrix.hpp","view.hpp"],
 [("free functions over MatrixBase; no mutable static state but the tolerance","include/malg/math.hpp, include/malg/linalg.hpp, include/malg/utility.hpp")],["value of every node of the expression, of every live object after every statement, and of repeated executions"])
p("C35","Positions outside an object are refused or clamped in every build",
 "With assertions enabled or disabled: selecting a row or column outside of a matrix or view (minor of a cofactor, extraction, removal, swap, column length) throws a standard exception and changes nothing; a range or window that ends beyond the object stops with it, one that starts beyond it is empty, and a view of such a window has exactly the rows, columns and elements that exist and behaves as a matrix of that shape; no element outside of the object is ever read or written.",
 ["inputs","configurations"],"all shapes (also empty), operand kinds, positions up to the largest number, builds with and without assertions",
 "Tests only use positions inside of the matrices.",["utility.hpp","linalg.hpp","math.hpp","view.hpp"],
 [("bounds checks of extract*, remove_*, swap_*, cofactor, vector_length; clamped shape of views","include/malg/utility.hpp, include/malg/linalg.hpp, include/malg/math.hpp, include/malg/view.hpp")],["exceptions, operands and the elements around them, sanitizers with and without assertions"])
p("C36","The allocation trace is an exact account of the storage in use",
 "In a program compiled with MEM_TRACE, the events written on the standard output (allocation, re-allocation and release, with bytes and address) balance: after any history of operations on vectors and matrices the blocks they report as live are exactly, in size and address, those owned by the existing objects; a request that is refused reports nothing; empty objects own no block; when all the objects are gone every reported block has been reported as released, with the size it had.",
 ["histories","inputs"],"random histories of construction, copy, move, assignment, resize, append, swap, clear, refused requests and algorithms, for several element types",
 "The test only prints the trace and nobody reads it.",["vector.hpp","matrix.hpp"],
 [("MEM_TRACE output of Vector::allocate and Vector::deallocate","include/malg/vector.hpp")],["standard output against the storage of the live objects"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import re
for x in P:
    assert len(x['title'])<=80,x['title']
print(len(P))
