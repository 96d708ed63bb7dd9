import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["matrix/"+f for f in files],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where="matrix/"+b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p("C01","Matrix sum and difference are element-wise",
 "For any two matrices of the same shape and element type, adding or subtracting them (function and operator form alike) yields the matrix whose every element is the sum, respectively difference, of the two corresponding elements, computed in the element type. The postfix ++ and -- operators return the operand with one added to, respectively subtracted from, every element, and leave the operand itself unchanged.",
 ["inputs"],"every shape, every arithmetic element type (signed, unsigned, floating, complex), every pair of operand values, including infinities, signed zeros and modular wrap-around of unsigned types",
 "The tests add one pair of 2x2 float matrices; the matrix-matrix subtraction test is empty. No other shape, type or value is reached.",
 ["matrix_sum.hpp","matrix_sub.hpp"],[("sum/operator+/operator++","matrix_sum.hpp:30"),("sub/operator-/operator--","matrix_sub.hpp:30")])

p("C02","Scalar arithmetic and absolute value act on every element",
 "Adding a scalar to a matrix (either operand order), subtracting a scalar, multiplying by a scalar (either operand order) and dividing by a non-zero scalar each apply that operation, in the element type, to every element and to nothing else; the function and operator forms agree. The absolute value of a matrix holds the absolute value (magnitude, for complex elements) of every element.",
 ["inputs"],"every shape, element type, matrix and scalar (non-zero for division), including negative and fractional scalars, infinities, signed zeros and integer division with remainders",
 "Tests use one 2x2 float matrix with scalars 1 and 2; scalar division is only reached through inv and abs is never called.",
 ["matrix_sum.hpp","matrix_sub.hpp","matrix_mult.hpp","matrix_div.hpp","matrix_abs.hpp"],
 [("scalar sum","matrix_sum.hpp:54"),("scalar sub","matrix_sub.hpp:54"),("scalar mult","matrix_mult.hpp:57"),("div","matrix_div.hpp:30"),("abs","matrix_abs.hpp:30")])

p("C03","Matrix product equals its mathematical definition",
 "For every n x m matrix A and m x p matrix B, the product (function and operator form alike) is the n x p matrix whose element (i,j) is the sum over k of A(i,k)*B(k,j): exactly for integer elements whenever the sums fit (and modulo 2^w for unsigned ones), and within ordinary rounding error of the exact value for floating elements (infinities and NaN propagate as in that sum). The identity matrix is neutral and a zero factor gives the zero matrix.",
 ["inputs"],"every conformable triple of dimensions (vectors, non-square and large ones included), every element type, every operand value",
 "Tests multiply one 2x3 by 3x2 pair per type.",
 ["matrix_mult.hpp","matrix_zeros.hpp","matrix_fill.hpp"],[("mult","matrix_mult.hpp:32"),("operator*","matrix_mult.hpp:80")])

p("C04","Strassen multiplication agrees with the ordinary product",
 "For every pair of 2x2 matrices the Strassen product equals the ordinary matrix product: exactly for integer elements whose intermediate sums fit, modulo 2^w for unsigned elements, and within rounding error (relative to the largest intermediate product) for floating and complex elements.",
 ["inputs"],"every pair of 2x2 matrices over every arithmetic element type",
 "One integer pair with a zero entry is tested; it leaves most of the sign and operand choices of the seven products undetermined.",
 ["matrix_strassen.hpp"],[("strassen","matrix_strassen.hpp:36")])

p("C05","Transpose and row/column swaps permute elements exactly",
 "The transpose of an n x m matrix is the m x n matrix with element (j,i) equal to element (i,j) of the original, and transposing twice gives the original back. Swapping two rows (columns) exchanges exactly these two rows (columns) in place, in either index order, leaves every other element untouched, is undone by repeating it and does nothing when both indices are equal.",
 ["inputs","histories"],"every shape, element type, contents, in-range index pair, and sequence of swaps and transposes",
 "Tests swap fixed rows/columns of 4x4, 2x4, 4x3 and 4x2 matrices and transpose a 3x3 and a 2x3; the equal-index test compares a matrix with itself.",
 ["matrix_trans.hpp","matrix_swap.hpp"],[("trans","matrix_trans.hpp:30"),("swap_rows","matrix_swap.hpp:30"),("swap_cols","matrix_swap.hpp:52")])

p("C06","Determinant equals the exact determinant",
 "For every square matrix of size 1 and up the determinant function returns the mathematical determinant: exactly for signed integer elements as long as the minors fit comfortably, and within rounding error of a stable elimination for floating elements, also when leading minors are zero, rows must be exchanged, a pivot candidate is tiny or the matrix is singular (result 0 up to rounding, exactly 0 for a zero row or column).",
 ["inputs"],"every size n >= 1, every signed integer and floating element type, every matrix: dense, sparse, triangular, permuted, singular, rank-deficient, badly pivoted",
 "Tests evaluate one or two float matrices at n = 2, 3, 4, 5 and 9; no row exchange parity, singular, integer-typed or other-size case is pinned down.",
 ["matrix_det.hpp","matrix_swap.hpp"],[("closed forms n<=3","matrix_det.hpp:34"),("elimination with row exchange n>=4","matrix_det.hpp:90")])

p("C07","Inverse is the true inverse for every invertible matrix",
 "For every invertible, reasonably conditioned square matrix A with floating elements, of any size from 1 up, inv(A) equals the mathematical inverse element by element within rounding error scaled by the conditioning, so A*inv(A) and inv(A)*A are the identity and inv(inv(A)) is A. For integer-typed matrices with determinant +1 or -1 the inverse is exact.",
 ["inputs"],"every size n >= 1, every invertible matrix (dense, triangular, permutation-like, with zero leading minors, asymmetric), float, double, long double and signed integer element types",
 "Tests invert one float matrix at each of n = 2, 3, 4 with loose tolerance 0.01; sizes 1 and 5+ are never inverted.",
 ["matrix_inv.hpp","matrix_det.hpp","matrix_trans.hpp","matrix_div.hpp"],[("inv 1x1/2x2/3x3","matrix_inv.hpp:60"),("cofactor inv nxn","matrix_inv.hpp:132")])

p("C08","Zero divisors and singular matrices are reported by an exception",
 "Dividing a matrix by a zero scalar, inverting a matrix whose computed determinant is zero (any size), raising such a matrix to a negative power, and LU-decomposing a matrix with a zero pivot (the last one included) each throw std::overflow_error that the caller can catch; none of them terminates the program, returns infinities or NaNs silently, or throws for an input that is not of this kind. After the exception was caught, operands are unchanged and later calls work normally.",
 ["inputs","histories"],"every size and signed arithmetic element type, every singular matrix whose singularity is exact in the arithmetic (zero row/column, repeated rows, zero pivots, small-integer rank deficiency), and sequences mixing failing and succeeding calls",
 "No test exercises any failure path.",
 ["matrix_div.hpp","matrix_inv.hpp","matrix_lu.hpp","matrix_pow.hpp"],[("div zero test","matrix_div.hpp:33"),("inv determinant test","matrix_inv.hpp:85"),("lu pivot test","matrix_lu.hpp:58")])

p("C09","Matrix power equals repeated multiplication",
 "For every square matrix A and integer p, pow(A,p) is the product of p copies of A for p > 0, the identity for p = 0, and the |p|-th power of the inverse for p < 0 when A is invertible; hence pow(A,p+q) = pow(A,p)*pow(A,q) and pow(A,-p)*pow(A,p) is the identity. Results are exact for integer elements that fit (modulo 2^w for unsigned ones) and within rounding error for floating elements, for any signed or unsigned integer exponent type and every value of it, its most negative one included.",
 ["inputs"],"every size, element type and exponent (zero, odd, even, powers of two, large, negative)",
 "Tests use one 2x2 float matrix with exponents -5..5.",
 ["matrix_pow.hpp","matrix_mult.hpp","matrix_eye.hpp","matrix_inv.hpp"],[("square-and-multiply recursion","matrix_pow.hpp:33")])

p("C10","LU decomposition yields unit-lower and upper factors of A",
 "For every square floating-point matrix whose leading principal minors are all non-zero (and not numerically negligible), the decomposition returns a first factor that is exactly lower triangular with unit diagonal and a second factor that is exactly upper triangular, whose product is A within rounding error. The factors are the unique ones, so when A was built from small integer factors they are recovered.",
 ["inputs"],"every size n >= 1 and every matrix with non-zero leading principal minors, including ones with negative, zero and very unequal entries",
 "Tests decompose one 2x2 and one 3x3 float matrix.",
 ["matrix_lu.hpp","matrix_eye.hpp","matrix_zeros.hpp"],[("Doolittle recurrence","matrix_lu.hpp:31")])

p("C11","Cholesky factor is lower triangular and squares back to A",
 "For every symmetric positive definite floating-point matrix A the Cholesky function returns a matrix L that is exactly lower triangular with a strictly positive diagonal and L*trans(L) = A within rounding error; when A was built from a small-integer lower triangular factor with positive diagonal, that factor is recovered.",
 ["inputs"],"every size n >= 1 and every symmetric positive definite matrix, including banded, diagonal, strongly correlated and badly scaled ones",
 "Tests factor one 3x3 and one 4x4 float matrix and compare only the product with tolerance 0.01.",
 ["matrix_cholesky.hpp"],[("chol","matrix_cholesky.hpp:56")])

p("C12","Concatenation keeps every element of both operands in place",
 "Joining an i1 x j and an i2 x j matrix vertically gives the (i1+i2) x j matrix with the first operand on top of the second; joining an i x j1 and an i x j2 matrix horizontally gives the i x (j1+j2) matrix with the first operand left of the second. For two square matrices of equal size the general function returns both results as a pair (vertical first, horizontal second), equal to what the dedicated vertical and horizontal functions return.",
 ["inputs"],"every pair of compatible shapes, every element type and all contents",
 "Tests join 2x2 with 3x2, 2x3 with 2x2 and 2x2 pairs once each; the second element of the pair is never looked at.",
 ["matrix_concatenate.hpp"],[("concatenate pair/vertical/horizontal","matrix_concatenate.hpp:34"),("concatenateV/concatenateH","matrix_concatenate.hpp:138")])

p("C13","3x3 convolution matches the definition in all three modes",
 "The two-dimensional convolution of an i x j matrix with a 3x3 kernel equals the mathematical convolution (kernel rotated by 180 degrees, as Octave's conv2) with zero padding: 'full' returns all (i+2) x (j+2) values, 'same' its central i x j part, and 'valid' the (i-2) x (j-2) values that need no padding. Results are exact for integer elements that fit and within rounding error for floating elements. The rotation helper rot180 returns the matrix with the order of both its rows and its columns reversed, for any shape.",
 ["inputs"],"every matrix shape (single row/column and non-square ones; at least 3x3 for 'valid'), every kernel (asymmetric ones included), every element type",
 "Tests use 5x5 float matrices with point-symmetric kernels, which cannot tell convolution from correlation, nor rows from columns.",
 ["matrix_conv2.hpp","matrix_inv.hpp"],[("conv2 (same)","matrix_conv2.hpp:38"),("conv2_full","matrix_conv2.hpp:90"),("conv2_valid","matrix_conv2.hpp:140"),("rot180","matrix_conv2.hpp:33")])

p("C14","Minor extraction drops exactly the named row and column",
 "For a square matrix of size n >= 2 and in-range indices r and c, the minor is the (n-1) x (n-1) matrix obtained by deleting row r (the first index) and column c (the second index), keeping the order and value of all other elements.",
 ["inputs"],"every size n >= 2, every pair of indices, every element type and contents",
 "Tests delete (2,2), (0,0) and (1,1) only: equal indices cannot distinguish row from column.",
 ["matrix_inv.hpp"],[("getminor","matrix_inv.hpp:34")])

p("C15","Mean, median, variance and standard deviation are correct",
 "For every matrix, mean is the arithmetic mean of all elements, variance the population variance (mean squared deviation from the mean), standard deviation its non-negative square root, and median the middle element of the sorted elements or, for an even number of elements, the mean of the two middle ones; none depends on the order of the elements. Floating results are within rounding error of the exact value, also when the spread is much smaller than the mean; for signed or unsigned integer types mean and median are the exact value rounded toward zero as long as the sum of the elements (the two middle ones, for the median) fits a 64-bit integer, and variance and standard deviation are exact when mean, variance and deviation are integers and the sum of squared deviations fits a 64-bit integer (within 1 when only the mean is an integer).",
 ["inputs"],"every shape (odd and even element counts, single elements, non-square), element type and contents including negative values, repeated values and large offsets, as long as sums fit 64 bits",
 "The tests' assertions are one-sided ((x - expected) < eps, without absolute value), so any too-small result passes, and only two 3x3 float matrices are used.",
 ["matrix_mean.hpp","matrix_median.hpp","matrix_var.hpp","matrix_stddev.hpp"],[("mean","matrix_mean.hpp:31"),("median","matrix_median.hpp:30"),("var","matrix_var.hpp:31"),("stddev","matrix_stddev.hpp:32")])

p("C16","Histograms count every element exactly once",
 "The histogram of a matrix maps each distinct value occurring in it, and no other value, to its number of occurrences, so the counts add up to the number of elements. The cumulative histogram has the same keys, each mapped to the number of elements that are not greater than the key.",
 ["inputs"],"every shape, ordered element type and contents (no NaN), from all-equal to all-distinct, with negative values",
 "Tests look up five keys of one 3x3 histogram; absence of other keys and the cumulative histogram are never checked.",
 ["matrix_histogram.hpp"],[("histogram","matrix_histogram.hpp:31"),("cumulative_histogram","matrix_histogram.hpp:54")])

p("C17","Constructors produce exactly the promised matrix",
 "fill gives an i x j matrix with every element equal to the given value, zeros and ones give all-zero and all-one matrices of the requested element type and shape (ones without a type gives unsigned elements, of the requested rows and columns), and eye gives the n x n matrix with the given value (1 by default) on the diagonal and zero everywhere else.",
 ["inputs","programs"],"every element type, shape (including non-square and large) and fill value",
 "Tests construct a handful of fixed shapes (5x4, 4x4, 3x3, 2x4, 4x2, 1x1), one type each.",
 ["matrix_fill.hpp","matrix_zeros.hpp","matrix_ones.hpp","matrix_eye.hpp"],[("fill","matrix_fill.hpp:29"),("eye","matrix_eye.hpp:31"),("ones","matrix_ones.hpp:28"),("zeros","matrix_zeros.hpp:29")])

p("C18","Comparison predicates decide their definition exactly",
 "compare(A,B,epsilon) is true exactly when every pair of corresponding elements is equal or differs in absolute value by at most epsilon (a NaN on either side makes it false); isSymetric(A) is true exactly when A equals its transpose; isIdentity(A) is true exactly when A is the identity matrix; each for any arithmetic element type, signed or unsigned. One deviating element at any position is enough to make each of them false.",
 ["inputs"],"every shape, element type, position and size of a deviation, and epsilon (zero, exact boundary, large)",
 "Tests use a few 2x2 float pairs, a 3x3 for symmetry, and unsigned matrices for identity; the deviating position never varies.",
 ["matrix_utils.hpp","matrix_cholesky.hpp"],[("compare","matrix_utils.hpp:50"),("isIdentity","matrix_utils.hpp:32"),("isSymetric","matrix_cholesky.hpp:30")])

p("C19","Printing shows every element in row-major layout",
 "Printing a matrix writes to standard output exactly one line per row and on it the row's elements in column order, separated by single blanks (a blank may follow the last one), each formatted as the standard stream, with the base, precision and flags set on it, formats a value of the element type; nothing else is written, and the formatting state of the stream is left as it was.",
 ["inputs"],"every shape, element type and contents (negative, fractional, very large and very small values)",
 "print is never called by any test.",
 ["matrix_print.hpp"],[("print","matrix_print.hpp:70"),("print_num/print_endl","matrix_print.hpp:36")])

p("C20","Computation performs no dynamic memory allocation",
 "Apart from the two histogram functions, whose documented result type is a map, no matrix operation that completes normally allocates heap memory, directly or indirectly, whatever the shape and contents of its operands.",
 ["inputs"],"every operation, shape (small and large), element type and contents",
 "No test observes the allocator; the README promises a library without dynamic allocation.",
 ["matrix_type.hpp","matrix_median.hpp","matrix_mult.hpp","matrix_det.hpp","matrix_inv.hpp"],[("std::array based Matrix","matrix_type.hpp:36"),("median scratch storage","matrix_median.hpp:33")])

p("C21","Operations are pure: no input is altered, no history matters",
 "Every operation except the two in-place swaps leaves its operands bit-for-bit unchanged, gives the same result when an operand is used twice or the result overwrites an operand, and returns a result that depends only on the values of its arguments: not on previous calls (including calls that threw), their order or number, nor on leftover memory contents.",
 ["histories","inputs"],"every sequence of operations over all functions, shapes and types, executed in different orders and interleavings",
 "Every test calls each operation once or twice in a fresh process.",
 ["matrix_type.hpp","matrix_abs.hpp","matrix_mult.hpp","matrix_det.hpp","matrix_inv.hpp","matrix_pow.hpp"],[("value semantics, const references, fully initialised results","matrix_mult.hpp:32")])

p("C22","Operations may run concurrently without synchronisation",
 "Calls made at the same time from several threads on distinct result objects (sharing read-only operands or not) are free of data races and each returns exactly what the same call returns when executed alone.",
 ["schedules","inputs"],"every pair of operations, operands and interleaving of threads",
 "All tests are single-threaded.",
 ["matrix_type.hpp","matrix_mult.hpp","matrix_det.hpp","matrix_inv.hpp","matrix_median.hpp"],[("no static or global mutable state","matrix_type.hpp:36")])

p("C23","Operations are memory-safe and free of undefined behaviour",
 "For every operation and every operand inside its documented domain (in-range indices, no signed integer overflow by the mathematics itself), no element outside an operand or result is read or written, no uninitialised value influences a result, and no other undefined behaviour occurs.",
 ["inputs"],"every operation, shape (1x1, single row/column and borders included), element type and contents",
 "Tests run without sanitizers on a few interior-friendly shapes, and std::array accesses past a row silently hit the neighbouring row.",
 ["matrix_conv2.hpp","matrix_det.hpp","matrix_inv.hpp","matrix_swap.hpp","matrix_median.hpp","matrix_concatenate.hpp"],[("border test","matrix_conv2.hpp:42"),("pivot search bounds","matrix_det.hpp:110"),("loop bounds of every operation","matrix_mult.hpp:36")])

p("C24","Header-only: any program in C++11 or later can use it",
 "Any program that only includes matrix.hpp (first, last, repeatedly, from any number of translation units, with or without a using-directive) compiles, links and computes the right results, under every language standard from C++11 on, with either compiler and at any optimisation level, for any combination of operations, shapes and arithmetic element types it uses.",
 ["programs","configurations"],"every program using the public operations, number of translation units, language standard C++11..C++23, compiler g++/clang++, optimisation level",
 "Tests are single translation units that include gtest first (which drags in other standard headers), built with one compiler, one standard and no optimisation.",
 ["matrix.hpp","matrix_type.hpp","matrix_print.hpp","matrix_median.hpp"],[("umbrella include","matrix.hpp:15"),("standard includes","matrix_type.hpp:18"),("static inline helpers","matrix_print.hpp:35")])

p("C25","Chained operations agree with exact matrix algebra",
 "Any expression or sequence built from the library's operations (sums, differences, products, scalar operations, transposes, swaps, minors, concatenations, powers, convolutions) gives the result of exact matrix algebra whenever all intermediate values are exactly representable. In particular sum is associative and commutative, product is associative and distributive, trans(A*B) = trans(B)*trans(A) and det(A*B) = det(A)*det(B), and inv(A*B) = inv(B)*inv(A) up to rounding.",
 ["histories","inputs"],"every sequence of operations over a set of matrix registers with generated contents",
 "Tests call operations one at a time on literals; no chain of more than a power is evaluated.",
 ["matrix_sum.hpp","matrix_sub.hpp","matrix_mult.hpp","matrix_trans.hpp","matrix_swap.hpp","matrix_concatenate.hpp","matrix_pow.hpp","matrix_conv2.hpp","matrix_det.hpp","matrix_inv.hpp"],[("all operations composed","matrix_mult.hpp:80")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
