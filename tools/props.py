"""The table of properties from which properties.jsonl and MANIFEST.json are generated."""

CONF = (
    "all real entries of the operands, for every ordered combination of matrix representations, "
    "matrix shapes, and batch shapes (also of the parts of one matrix) within the stated bounds"
)

PROPS = [
    dict(
        id="C01",
        title="Sums and differences of structured matrices equal the dense ones",
        statement="For any two matrices of any representation (including scalars and plain arrays) whose shapes broadcast, adding or subtracting them gives a matrix whose dense form equals, element by element and with the broadcast shape, the sum or difference of their dense forms. This holds for every entry value, including when structure is exploited to merge, cancel, or re-associate low-rank, diagonal, and constant parts.",
        quant=CONF + "; chains of up to four additions",
        why="The tests add a handful of random matrices per pair of types; special values (equal or cancelling low-rank columns, zeros, different batch shapes of the factors, one-by-one operands) select other code paths, which random floats never reach.",
        files=["matrix/ops/add.py", "matrix/ops/subtract.py", "matrix/ops/negative.py", "matrix/ops/algorithms/align.py", "matrix/ops/util.py", "matrix/promote.py"],
        mech=[("multiple dispatch over pairs of representations", "matrix/ops/add.py"), ("merging and cancelling of low-rank columns", "matrix/ops/algorithms/align.py"), ("difference as a sum with the negation", "matrix/ops/subtract.py")],
    ),
    dict(
        id="C02",
        title="Element-wise products and quotients equal the dense ones",
        statement="For any two matrices of any representation (including scalars and plain arrays) whose shapes broadcast, multiplying them element-wise, or dividing by one without zero entries, gives a matrix whose dense form equals the element-wise product or quotient of their dense forms, with the broadcast shape.",
        quant=CONF,
        why="Tests use random entries and few shape pairs; the fast paths depend on exact structure (one-by-one operands, constants, low-rank products, non-square factors) that sampling covers thinly.",
        files=["matrix/ops/multiply.py", "matrix/ops/divide.py", "matrix/ops/kron.py", "matrix/promote.py"],
        mech=[("multiple dispatch over pairs of representations", "matrix/ops/multiply.py"), ("division by multiplication with the reciprocal", "matrix/ops/divide.py")],
    ),
    dict(
        id="C03",
        title="Matrix products, also transposed and chained, equal the dense ones",
        statement="For any two or three composable matrices of any representation, with any combination of transposition flags and any broadcastable batch shapes, the matrix product has as dense form the product of the (transposed) dense forms. Incompatible inner dimensions are rejected with an error.",
        quant=CONF + " and transposition flags",
        why="Tests check one random instance per type pair and flag; associativity-based fast paths for low-rank, Woodbury, Kronecker, and constant operands depend on shapes and batches that are sampled only once.",
        files=["matrix/ops/matmul.py", "matrix/ops/transpose.py", "matrix/util.py"],
        mech=[("multiple dispatch over pairs of representations with transposition flags", "matrix/ops/matmul.py"), ("lazy transposition", "matrix/ops/transpose.py")],
    ),
    dict(
        id="C04",
        title="Element-wise negation, absolute value, powers, and roots are exact",
        statement="Negating a matrix of any representation, taking element-wise absolute values, integer or fractional powers, or element-wise square roots gives a matrix whose dense form is the same function applied to every element of the dense form.",
        quant=CONF + "; powers -2 to 3 and one half",
        why="The functions preserve structure only if they map zero to zero and respect products; tests use positive random entries and few powers, so signs and zeros are never exercised.",
        files=["matrix/ops/negative.py", "matrix/ops/abs.py", "matrix/ops/power.py", "matrix/ops/sqrt.py"],
        mech=[("per-representation structure-preserving methods", "matrix/ops/power.py"), ("fallback to dense", "matrix/ops/abs.py")],
    ),
    dict(
        id="C05",
        title="Densifying and transposing any representation is faithful",
        statement="The dense form of a matrix of any representation is exactly the matrix its constructor arguments denote, with the documented defaults and with batch dimensions broadcast, and its reported shape, rank, and batch shape are those of that dense form. Transposing any representation transposes the dense form and transposing twice gives back the original.",
        quant=CONF,
        why="Every other operation relies on this; tests use a few factor shapes without differing batch shapes of the parts, non-square factors, nested representations, or the documented defaults.",
        files=["matrix/ops/dense.py", "matrix/ops/transpose.py", "matrix/ops/shape.py", "matrix/lowrank.py", "matrix/woodbury.py", "matrix/kronecker.py", "matrix/tiledblocks.py", "matrix/constant.py"],
        mech=[("conversion of every representation to a dense array", "matrix/ops/dense.py"), ("transposition per representation", "matrix/ops/transpose.py")],
    ),
    dict(
        id="C06",
        title="Sums, means, and traces over any axis equal the dense ones",
        statement="Summing or averaging a matrix of any representation over everything or over any axis (positive or negative, matrix or batch), and taking its trace, gives the values and shape that the same reduction of the dense form gives.",
        quant=CONF + " and every axis",
        why="Closed forms for diagonal, constant, low-rank, and Kronecker matrices depend on the axis and on batch shapes of the parts; tests cover single instances.",
        files=["matrix/ops/sum.py", "matrix/ops/mean.py", "matrix/ops/trace.py", "matrix/ops/diag.py"],
        mech=[("closed-form sums per representation and axis", "matrix/ops/sum.py"), ("traces as sums of diagonals", "matrix/ops/trace.py")],
    ),
    dict(
        id="C07",
        title="Diagonals of matrices and of matrix products equal the dense ones",
        statement="The diagonal of a matrix of any representation and any (also non-square) shape, and the diagonal of a product of any two composable matrices with any transposition flags, equals the diagonal of the dense form, including batch dimensions.",
        quant=CONF + " and transposition flags",
        why="Diagonals are computed without forming the matrix; the shortcuts depend on factor shapes (non-square Kronecker factors, wide low-rank factors) of which tests sample a few.",
        files=["matrix/ops/diag.py", "matrix/ops/matmul_diag.py", "matrix/ops/diag_extract.py"],
        mech=[("diagonal per representation", "matrix/ops/diag.py"), ("diagonal of a product without forming it", "matrix/ops/matmul_diag.py")],
    ),
    dict(
        id="C08",
        title="Selecting rows, columns, batch elements, or submatrices is exact",
        statement="Selecting along any axis with any list of indices (in any order, repeated, or negative) or any mask, selecting a submatrix, and indexing with any basic or list index give exactly the corresponding selection from the dense form. The result only claims structure that the selection really has.",
        quant=CONF + ", every axis, and index vectors of all the listed kinds",
        why="Tests use sorted indices without repetition and mostly unbatched matrices; unsorted or repeated indices destroy triangularity and diagonality.",
        files=["matrix/ops/take.py", "matrix/ops/submatrix.py", "matrix/matrix.py"],
        mech=[("selection per representation", "matrix/ops/take.py"), ("submatrices per representation", "matrix/ops/submatrix.py"), ("indexing through the dense form", "matrix/matrix.py")],
    ),
    dict(
        id="C09",
        title="Assembling matrices from blocks gives the dense assembly",
        statement="Building a matrix from a grid of blocks, from diagonal blocks, by concatenation, by tiling, from repeated blocks, or as a Kronecker product gives a matrix whose dense form and shape are those of the same assembly of the dense forms, whatever the representations and batch shapes of the blocks. Structure that the result claims (zero, diagonal, constant, Kronecker) is true.",
        quant=CONF + " of the blocks, and grids up to 3 x 3",
        why="Structure of the result is decided from the types and shapes of all the blocks together, which gives many combinations (non-square blocks, mixed batches) of which tests try a few.",
        files=["matrix/ops/block.py", "matrix/ops/block_diag.py", "matrix/ops/concat.py", "matrix/ops/tile.py", "matrix/ops/kron.py", "matrix/tiledblocks.py", "matrix/ops/util.py"],
        mech=[("detection of zero and diagonal results", "matrix/ops/block.py"), ("block-diagonal assembly", "matrix/ops/block_diag.py"), ("concatenation of tiles", "matrix/ops/concat.py"), ("lazy Kronecker products", "matrix/ops/kron.py")],
    ),
    dict(
        id="C10",
        title="Broadcasting, reshaping, and squeezing follow the dense semantics",
        statement="Broadcasting a matrix of any representation to a shape or its batch to a batch shape, aligning the batches of several matrices, reshaping, flattening, and squeezing give the values and shape that the same operation gives on the dense form. Broadcasting only the batch keeps the representation.",
        quant=CONF + " and target shapes",
        why="Tests broadcast a few shapes; factors of one matrix may carry different batch shapes and the matrix dimensions themselves may be broadcast.",
        files=["matrix/ops/broadcast_to.py", "matrix/ops/broadcast_batch_to.py", "matrix/ops/reshape.py", "matrix/ops/squeeze.py", "matrix/ops/uprank.py", "matrix/ops/util.py"],
        mech=[("batch broadcasting per representation", "matrix/ops/broadcast_batch_to.py"), ("broadcasting through the dense form", "matrix/ops/broadcast_to.py"), ("alignment of batches", "matrix/ops/util.py")],
    ),
    dict(
        id="C11",
        title="Inverses and linear solves invert the dense matrix",
        statement="For every representation that supports it, the (positive-definite) inverse multiplied with the matrix gives the identity, and solving a linear system, a triangular system, or a system given by a Cholesky factor gives a result that satisfies the system, for every invertible matrix and every right-hand side of any representation and batch shape. Solutions have the broadcast shape.",
        quant=CONF + " such that the matrix (and the parts it is inverted through) are invertible",
        why="The matrix inversion lemma and Kronecker identities are exercised by the tests on one random positive-definite instance each; singularity of parts, non-symmetric parts, and batch combinations are not.",
        files=["matrix/ops/inv.py", "matrix/ops/pd_inv.py", "matrix/ops/solve.py", "matrix/ops/cholesky_solve.py", "matrix/ops/triangular_solve.py", "matrix/ops/schur.py", "matrix/ops/pd_schur.py"],
        mech=[("matrix inversion lemma", "matrix/ops/inv.py"), ("solves per representation", "matrix/ops/solve.py"), ("Schur complements", "matrix/ops/schur.py")],
    ),
    dict(
        id="C12",
        title="Log-determinants equal that of the dense matrix",
        statement="The log-determinant of a positive-definite matrix of any representation equals the logarithm of the determinant of its dense form, for every batch element.",
        quant=CONF + " such that the matrix is positive definite",
        why="The determinant lemma and the Kronecker exponents are checked by tests on single random instances with unit-sized or equal-sized factors.",
        files=["matrix/ops/logdet.py", "matrix/ops/pd_schur.py", "matrix/ops/cholesky.py"],
        mech=[("determinant lemma", "matrix/ops/logdet.py"), ("Kronecker determinant identity", "matrix/ops/logdet.py")],
    ),
    dict(
        id="C13",
        title="Cholesky factors and roots reproduce the matrix",
        statement="For every positive-(semi)definite matrix of any representation, the Cholesky-like factor times its transpose equals the dense matrix, and it is lower triangular with the documented exceptions; the positive square root is symmetric and its square equals the dense matrix.",
        quant=CONF + " such that the matrix is positive definite (semi-definite for zero, constant, and low-rank matrices)",
        why="Tests factor one random instance per representation; batches in the parts and nested factors are not covered.",
        files=["matrix/ops/cholesky.py", "matrix/ops/root.py"],
        mech=[("factorisation per representation", "matrix/ops/cholesky.py"), ("root per representation", "matrix/ops/root.py")],
    ),
    dict(
        id="C14",
        title="Quadratic forms and ratios with an inverse equal the dense ones",
        statement="The quadratic form of two matrices with the inverse of a positive-definite matrix, its diagonal, and the trace ratio of two positive-definite matrices equal those of the dense forms, whatever the representations and batch shapes, also when one argument is omitted or the same object is given twice.",
        quant=CONF + " such that the inverted matrix is positive definite",
        why="These are assembled from many other operations with separate paths for Woodbury matrices; tests evaluate one random instance per type combination.",
        files=["matrix/ops/iqf.py", "matrix/ops/iqf_diag.py", "matrix/ops/ratio.py"],
        mech=[("quadratic forms via Cholesky factors or the inversion lemma", "matrix/ops/iqf.py"), ("ratios via quadratic forms or traces", "matrix/ops/ratio.py")],
    ),
    dict(
        id="C15",
        title="Samples have exactly the requested covariance, shape, and state",
        statement="Samples from a covariance matrix of any representation are a linear map of independent standard normal noise whose covariance is exactly the dense matrix, with every requested sample and batch element using its own noise. The given random state is consumed and the advanced state returned, and without one the global random state is advanced.",
        quant="all positive-definite entries and all noise values, for every representation, batch shape, and number of samples within the stated bounds",
        why="Tests compare empirical covariances loosely for one instance; a wrong factor, shared noise between the parts, or a lost state is invisible to them.",
        files=["matrix/ops/sample.py", "matrix/ops/cholesky.py"],
        mech=[("linear map of standard normal noise", "matrix/ops/sample.py"), ("separate noise for the parts of a sum", "matrix/ops/sample.py")],
    ),
    dict(
        id="C16",
        title="Reported shapes always match the dense form",
        statement="For matrices of any representation with any row, column, rank, and batch sizes, the reported shape, rank, batch shape, and matrix shape are those of the matrix the constructor arguments denote, and argument shapes that do not denote a matrix are rejected by the constructor (tiled blocks: at the latest when the shape is asked), while those that do are accepted.",
        quant="all nonnegative integer dimensions (symbolic), for every representation with up to two batch dimensions per part",
        why="Tests construct a few sizes; the rules must hold for every size, including ones and differing batch ranks.",
        files=["matrix/ops/shape.py", "matrix/ops/shape_matrix.py", "matrix/ops/shape_batch.py", "matrix/lowrank.py", "matrix/diagonal.py", "matrix/kronecker.py", "matrix/woodbury.py", "matrix/constant.py"],
        mech=[("shape queries per representation", "matrix/ops/shape.py"), ("checks in constructors", "matrix/lowrank.py")],
        observe=["the reported shape of a matrix", "acceptance or rejection by the constructor"],
    ),
    dict(
        id="C17",
        title="Shape broadcasting is the NumPy rule for every combination of dimensions",
        statement="Broadcasting two or more shapes gives, for all dimensions, the shape of the NumPy broadcasting rule, and is rejected exactly when that rule does not apply; it is commutative, associative, and idempotent. Compatibility checks succeed exactly when broadcasting does.",
        quant="all nonnegative integer dimensions (symbolic), shapes of rank zero to four, up to three shapes",
        why="Tests list a few shapes; the rule is a statement over all integers.",
        files=["matrix/shape.py", "matrix/ops/shape_broadcast.py", "matrix/ops/shape_batch_broadcast.py", "matrix/ops/shape_matrix_broadcast.py"],
        mech=[("dimension-wise broadcasting", "matrix/shape.py"), ("expansion with leading ones", "matrix/shape.py")],
        observe=["the broadcast shape or the raised error"],
    ),
    dict(
        id="C18",
        title="Operations reject operands whose shapes do not fit",
        statement="Adding, multiplying, composing, solving with, or broadcasting matrices of any representation whose shapes do not fit raises an error, as does asking for the inverse, Cholesky decomposition, root, or log-determinant of a matrix that is not square; no result of whatever shape is silently returned, and no operation on shapes that fit is rejected.",
        quant="all positive integer dimensions (symbolic) with up to two batch dimensions, and all combinations of representations and of incompatible shapes and batch shapes within the stated bounds, and all entries",
        why="Tests check few incompatible pairs, while structured fast paths return results without ever touching the entries and so must check the shapes themselves.",
        files=["matrix/ops/add.py", "matrix/ops/multiply.py", "matrix/ops/matmul.py", "matrix/ops/solve.py", "matrix/shape.py", "matrix/ops/broadcast_to.py"],
        mech=[("composability assertions", "matrix/ops/matmul.py"), ("shape broadcasting", "matrix/shape.py")],
        observe=["whether the operation raises"],
    ),
    dict(
        id="C19",
        title="Operations never change their operands and caches are transparent",
        statement="No operation changes the value of any of its operands or of arrays given to constructors, and repeating any sequence of operations on the same objects, in any order, gives the same results as performing each on fresh copies.",
        over=["inputs", "histories"],
        quant="all entries, and all ordered pairs of operations on a shared operand (symbolically chosen), for every representation",
        why="Factorisations and dense forms are cached inside the matrices; tests run operations on fresh objects in one order.",
        files=["matrix/ops/dense.py", "matrix/ops/cholesky.py", "matrix/ops/schur.py", "matrix/ops/pd_schur.py", "matrix/lowrank.py", "matrix/woodbury.py"],
        mech=[("caching attributes", "matrix/ops/cholesky.py"), ("cached dense forms", "matrix/ops/dense.py"), ("cached Schur complements", "matrix/ops/schur.py")],
    ),
    dict(
        id="C20",
        title="Claimed structure is true, and structure is kept where promised",
        statement="Every result that claims to be zero, diagonal, constant, triangular, or low-rank really has that structure for all entries. Operations that preserve structure mathematically (such as sums, products, transposes, and inverses of diagonal matrices, or diagonal plus low-rank) return the structured representation.",
        quant=CONF,
        why="A wrong claim shows only when the result is used in a further operation; the tests compare dense forms and check types on single instances.",
        files=["matrix/ops/add.py", "matrix/ops/multiply.py", "matrix/ops/matmul.py", "matrix/ops/transpose.py", "matrix/triangular.py", "matrix/diagonal.py"],
        mech=[("type of the result chosen by dispatch", "matrix/ops/multiply.py"), ("guard against broadcasting of matrix dimensions", "matrix/ops/util.py")],
        observe=["the representation of the result", "the dense value of its parts"],
    ),
    dict(
        id="C21",
        title="Low-rank terms merge and cancel only when equal, at any scale",
        statement="When low-rank matrices, constants, and Woodbury matrices are added and subtracted, columns that are equal in every batch element are shared, so that the rank is at most the number of different columns, and columns that differ in any batch element are kept apart; every intermediate result is exact. When all low-rank terms have been subtracted again, in any order, the low-rank part disappears and the remaining part is back in its original representation (as in the example of the README). These decisions do not depend on the scale of the entries, and the tolerance never changes the result by more than a small fraction of the operands.",
        quant="all real columns of different lengths and all coefficients, columns equal or separated by more than the tolerance (the bound on the error and the independence of scale: all reals), ranks up to three, sequences of up to four additions and subtractions, batch shapes (), (2,), (2, 1), (2, 2)",
        why="Which columns are equal selects among exponentially many merge patterns, and only special values reach them.",
        files=["matrix/ops/algorithms/align.py", "matrix/ops/add.py"],
        mech=[("alignment of columns", "matrix/ops/algorithms/align.py"), ("detection of cancellation", "matrix/ops/add.py")],
    ),
    dict(
        id="C22",
        title="Replaying recorded decisions under compilation gives the same results",
        statement="When operations are recorded once and replayed, as is done for compiled functions (with the control-flow cache and with lazy shapes), every operation works and gives the right result in both runs, the replay takes exactly the recorded decisions in the same order, it does not decide on any value, and on any inputs for which the recorded decisions are right it gives the same results, in the same representation, as running the operations directly.",
        over=["inputs", "histories"],
        quant="all real entries on each recorded path, one program for every operation and combination of representations of the other checks, and sequences of up to four deciding operations replayed on other inputs",
        why="Tests compile a single function on a single input; the order of recorded decisions matters only for sequences.",
        files=["matrix/ops/algorithms/align.py", "matrix/ops/add.py", "matrix/ops/take.py", "matrix/ops/submatrix.py"],
        mech=[("recorded control flow", "matrix/ops/algorithms/align.py"), ("conversion of masks to concrete values", "matrix/ops/take.py")],
    ),
    dict(
        id="C23",
        title="Operators and methods agree with the functions on the dense forms",
        statement="Using the operators for addition, subtraction, element-wise multiplication, division, powers, matrix multiplication, and negation (also in expressions of several operators, and as augmented assignments) with a matrix on one side and a scalar, an array of rank at least two, or a matrix on the other, in either order, gives a matrix that equals the result of the operator on the dense forms. The other methods of matrices (transpose, shape, reshape, flatten, squeeze, diagonal, indexing) equal those of the dense array.",
        quant=CONF,
        why="Operators are promoted through several layers, and the reflected versions for arrays on the left are decided by NumPy; tests use operators on few combinations.",
        files=["matrix/matrix.py", "matrix/promote.py"],
        mech=[("operator methods", "matrix/matrix.py"), ("promotion of scalars and arrays", "matrix/promote.py")],
    ),
    dict(
        id="C24",
        title="Matrices made from matrices (eye, zeros, ones, casts) are as documented",
        statement="Zero and one matrices made to match a given matrix have its shape, including the batch shape, and its data type; the identity made to match has its matrix shape; filling a diagonal with a scalar, or a batch of scalars, gives that multiple of the identity; and casting a matrix keeps its representation and the values of all its parts, changes its data type, and leaves the matrix itself as it was. Densifying, converting to NumPy, and asking for rank, shape, and data type agree with the values that the matrix represents.",
        quant=CONF,
        why="Tests check single instances per representation.",
        files=["matrix/ops/eye.py", "matrix/ops/zeros.py", "matrix/ops/ones.py", "matrix/ops/zero.py", "matrix/ops/one.py", "matrix/ops/fill_diag.py", "matrix/ops/cast.py", "matrix/ops/to_numpy.py", "matrix/ops/dense.py"],
        mech=[("constructors from references", "matrix/ops/fill_diag.py"), ("casts per representation", "matrix/ops/cast.py")],
    ),
    dict(
        id="C25",
        title="Data types, abstractness, and missing values are those of the parts",
        statement="The data type reported for a matrix of any representation is the one to which the data types of all its parts promote, its dense form, its transpose, its negation, and its rows have that same data type, and a cast has exactly the data type cast to; sums, differences, and products have the data type to which those of the operands promote, and means a floating-point type, never arrays of Python objects (zero matrices, which keep their own data type, aside). A matrix is reported to be abstract (the symbolic value of a function being compiled) exactly if one of its parts is. The missing elements (NaN) reported for a matrix are, in the shape of the matrix, exactly those for which the dense form depends on a missing number.",
        quant=CONF,
        why="Tests check one data type for all parts, and compiled functions only by their results.",
        files=["matrix/ops/dtype.py", "matrix/ops/isabstract.py", "matrix/ops/isnan.py", "matrix/ops/cast.py"],
        mech=[("promotion of the types of all parts", "matrix/ops/dtype.py"), ("any part being abstract", "matrix/ops/isabstract.py")],
    ),
    dict(
        id="C90",
        title="Results are accurate in floating-point arithmetic",
        statement="For well-conditioned matrices, results computed in floating-point arithmetic are within a modest multiple of machine precision of the exact results.",
        quant="all floating-point entries with bounded condition numbers",
        why="Tests compare with a fixed tolerance on random matrices.",
        files=["matrix/ops/inv.py", "matrix/ops/add.py"],
        mech=[("choice of algorithms", "matrix/ops/inv.py")],
        na="All claimed checks read the arithmetic as exact real arithmetic; bit-precise floating-point reasoning about chains of matrix products, solves, and LAPACK kernels is out of reach of the solvers here.",
    ),
    dict(
        id="C91",
        title="All backends give the same results and support differentiation",
        statement="With TensorFlow, PyTorch, or JAX arrays every operation gives the same result as with NumPy arrays, also in compiled functions, and can be differentiated.",
        quant="all entries, backends, and compiled programs",
        why="Tests run few operations on backends other than NumPy.",
        files=["matrix/ops/add.py", "matrix/ops/util.py"],
        mech=[("backend-agnostic operations", "matrix/ops/add.py")],
        na="Tensors of TensorFlow, PyTorch, and JAX cannot hold solver terms, so the code cannot be executed symbolically on these backends; what the package itself contributes (recorded decisions) is property C22.",
    ),
]
