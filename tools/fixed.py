import subprocess
m={
"only merge low-rank":("C21","adding batched low-rank matrices merged columns that are equal in one batch element only"),
"judge cancellation":("C21","a difference of small low-rank matrices (entries around 1e-6) was dropped as if it cancelled"),
"always densify tiled":("C05","the dense form of tiled blocks of structured blocks was not a numeric array"),
"structure for sums":("C20","adding a diagonal, triangular, or other structured 1 x 1 (or row/column) matrix to a larger one claimed structure that the broadcast sum does not have, with wrong values"),
"structure for products":("C20","multiplying a diagonal or triangular matrix whose matrix dimensions are broadcast claimed structure that the product does not have, with wrong values"),
"structure in powers":("C04","powers 0 and -1 of diagonal and triangular matrices claimed structure that the result does not have"),
"diagonal of Kronecker":("C07","the diagonal (and trace) of a Kronecker product of non-square factors was wrong"),
"rows of batched":("C08","taking rows or columns of a low-rank matrix with batched plain-array factors took batch elements"),
"structure in submatrices":("C08","submatrices for repeated or unsorted indices of diagonal, triangular, and Woodbury matrices claimed structure that they do not have; for repeated indices the values were wrong"),
"two zero matrices":("C09","the Kronecker product of two zero matrices recursed infinitely"),
"batched tiled blocks":("C09","the block-diagonal matrix of batched tiled blocks raised an error"),
"zero right-hand":("C18","solving against a matrix for a zero right-hand side of incompatible shape did not raise"),
"log-determinants of low-rank":("C12","the log-determinant of low-rank and one-by-one constant matrices raised an error instead of being computed"),
"sample the parts of Woodbury":("C15","samples of different batch elements of a Woodbury matrix were correlated if only one of its parts had that batch"),
"Woodbury matrices of which":("C16","a Woodbury matrix of a diagonal and a low-rank part of different sizes was accepted, with wrong sums and diagonals"),
"does not fit the omitted right":("C16","a low-rank matrix whose middle factor does not fit the omitted right factor was accepted"),
"reject factors that do not fit":("C16","low-rank matrices with incompatible batch dimensions and Kronecker products of vectors or incompatible batches were accepted"),
"are not broadcast to shapes":("C18","zero and constant matrices could be broadcast to shapes that they cannot be broadcast to"),
"triangular matrices that are not square":("C18","the log-determinant of a triangular matrix that is not square was computed"),
"a single array":("C09","the block-diagonal matrix of a single plain array was that of its rows"),
 "select submatrices in compiled functions": ("C22","B.submatrix raised TypeError under lazy shapes (compiled functions) since the fix of submatrices, and did not consume the recorded decision for abstract indices"),
 "sums of constant matrices made by": ("C25","sums over rows or columns of a batch of constant matrices made by an operation were arrays of Python objects"),
 "means of structured matrices": ("C25","the mean over rows or columns of a low-rank, Woodbury, or Kronecker matrix was an array of Python objects"),
 "NumPy arrays on the left of an operator": ("C23","array + matrix (also -, *, /) gave an object array of matrices, and array @ matrix raised"),
}
log=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True)
lines=[l for l in open('/verif/known_findings.jsonl') if l.startswith('{')]
out=["".join(lines)]
for l in log.splitlines():
    h,s=l.split(' ',1)
    if s.startswith('fix:'):
        k=[x for x in m if x in s]
        assert len(k)==1,s
        p,t=m[k[0]]
        out.append(f"fixed: property={p} {h} {t}\n")
open('/verif/known_findings.jsonl','w').write("".join(out))
