#!/usr/bin/env python3
# Source of truth for /verif/properties.jsonl (run: python3 tools/gen_props.py)
import json, os
P=[]
B='include/tlapack/blas/'; L='include/tlapack/lapack/'
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      observe_at=observe or ["outputs of the public routine","operand and padding memory after the call"],hook_needed=hook)))

p("C01","Level-1 BLAS computes its defining vector operation on any vector view",
"asum, axpy, copy, dot, dotu, iamax, nrm2, rot, rotm, scal and swap return, for every pair of equally long vectors of any supported scalar type and any stride or direction, exactly the mathematical vector operation they document, to within rounding proportional to the vector length. They modify only the elements of their output vectors and treat length zero as a no-op or zero result.",
["inputs","configurations"],"all lengths, strides, directions, real/complex scalars and mixed real/complex pairs, data including extreme magnitudes",
"Existing tests use the level-1 kernels mostly indirectly, on contiguous vectors with benign data and a few sizes; strides, reversed vectors, every rotm flag and the empty vector are not enumerated.",
[B+x for x in ["asum.hpp","axpy.hpp","copy.hpp","dot.hpp","dotu.hpp","iamax.hpp","nrm2.hpp","rot.hpp","rotm.hpp","scal.hpp","swap.hpp"]],
[("element loops","include/tlapack/blas/*.hpp"),("blue's scaled accumulation",L+"lassq.hpp")])

p("C02","Scalar generators and scaled norms are accurate over the full exponent range",
"Plane-rotation generators (rotg, lartg, rotmg), reflector generators (larfg), lapy2, lapy3, ladiv, lassq/nrm2, rscl and lascl neither overflow, underflow nor lose accuracy when the exact result is representable, for magnitudes from the smallest normal to near overflow (rotmg: wherever d times a squared is representable). The rotation they return is unitary, annihilates the second component and reproduces the documented r, tau, beta or flag/H values.",
["inputs"],"all normal floating-point inputs of each scalar type and zero, including huge values and extreme ratios, and every scaling ratio",
"Tests sample a few fixed magnitudes; intermediate overflow/underflow only shows for exponents close to the format limits or for particular orderings of magnitudes.",
[B+"rotg.hpp",B+"lartg.hpp",B+"rotmg.hpp",L+"larfg.hpp",L+"lapy2.hpp",L+"lapy3.hpp",L+"ladiv.hpp",L+"lassq.hpp",B+"nrm2.hpp",L+"rscl.hpp",L+"lascl.hpp"],
[("safe_min/safe_max/blue constants","include/tlapack/base/constants.hpp"),("rescaling branches",B+"lartg.hpp")])

p("C03","Level-2 BLAS computes its matrix-vector operation for every option",
"gemv, ger, geru, hemv, symv, her, her2, syr, syr2, trmv and trsv compute the documented matrix-vector expression for every combination of layout, uplo, op, diag, shape and scalar, to within rounding proportional to the dimension. Triangular and Hermitian routines read and write only the referenced triangle (treating a unit diagonal as one without reading it and a Hermitian diagonal as real).",
["inputs","configurations"],"all m, n >= 0, strides and leading dimensions, all enum values the interface accepts, alpha/beta including 0, 1, -1 and complex values",
"Unit tests only reach level-2 kernels through factorizations, so most uplo/op/diag branches and rectangular or empty shapes are never compared with the definition.",
[B+x for x in ["gemv.hpp","ger.hpp","geru.hpp","hemv.hpp","symv.hpp","her.hpp","her2.hpp","syr.hpp","syr2.hpp","trmv.hpp","trsv.hpp"]],
[("per-option loop nests","include/tlapack/blas/*.hpp")])

p("C04","Level-3 BLAS computes its matrix-matrix operation for every option",
"gemm, hemm, symm, herk, her2k, syrk, syr2k, trmm and trsm compute the documented matrix-matrix expression for every combination of side, uplo, op, diag, layout, shape and scalar, to within rounding proportional to the inner dimension (trsm: a small residual). Only the documented part of the output is written, and only the referenced triangle of a triangular, symmetric or Hermitian operand is read.",
["inputs","configurations"],"all m, n, k >= 0, layouts, leading dimensions, all enum values the interface accepts, alpha/beta including 0, 1, -1 and complex values",
"Existing tests sample a few option combinations with square random data and check norms; the product of options, empty dimensions, off-triangle contents and layouts is not enumerated.",
[B+x for x in ["gemm.hpp","hemm.hpp","symm.hpp","herk.hpp","her2k.hpp","syrk.hpp","syr2k.hpp","trmm.hpp","trsm.hpp"]],
[("per-option loop nests","include/tlapack/blas/*.hpp")])

p("C05","Structured and in-place triangular products equal their mathematical value",
"lauum_recursive, lu_mult, ul_mult, mult_llh, mult_uhu, mult_hehe, gemmtr, trmm_out, trmm_blocked_mixed, trsm_tri, hemm2 and trtri_recursive produce the triangular, Hermitian or general product, solution or inverse they document for every uplo/diag/op/side option and every block size. The triangle they do not reference keeps its contents.",
["inputs","configurations"],"all sizes (including sizes not divisible by the block or recursion size), options, block sizes, scalars",
"Tests fix sizes and block sizes and usually fill the unreferenced triangle with zeros, hiding accesses to it and off-by-one errors at block boundaries.",
[L+x for x in ["lauum_recursive.hpp","lu_mult.hpp","ul_mult.hpp","mult_llh.hpp","mult_uhu.hpp","mult_hehe.hpp","gemmtr.hpp","trmm_out.hpp","trmm_blocked_mixed.hpp","trsm_tri.hpp","hemm2.hpp","trtri_recursive.hpp"]],
[("recursive splitting and base case n<=nx/nb","include/tlapack/lapack/")])

p("C06","Copy, set, scale, transpose, conjugate, rotation-sequence and sort utilities",
"lacpy, laset, lascl, conjugate, transpose, rot_sequence, rot_sequence3, larnv, lasrt and lamrg have exactly their documented effect on exactly the documented part of their operands, for every shape, access pattern, direction and option. Applying a rotation sequence equals applying its plane rotations one after another in the documented order.",
["inputs","configurations"],"all shapes, uplo/matrix-type/side/direction options, block sizes, number of rotations, vectors to sort incl. ties",
"Tests check few shapes with contiguous storage and do not check untouched regions; blocked code paths of transposition and rotation sequences depend on size and on the order of rotations.",
[L+x for x in ["lacpy.hpp","laset.hpp","lascl.hpp","conjugate.hpp","transpose.hpp","rot_sequence.hpp","rot_sequence3.hpp","larnv.hpp","lasrt.hpp","lamrg.hpp"]],
[("access-type dispatch",L+"laset.hpp"),("fused rotation kernels",L+"rot_sequence.hpp")])

p("C07","Matrix norms and NaN/Inf queries are exact in meaning for every access type",
"lange, lanhe, lansy and lantr return the requested max, one, infinity or Frobenius norm of the matrix described by uplo and diag, without spurious overflow or underflow, returning NaN when a referenced entry is NaN. hasnan and hasinf answer exactly whether a referenced entry is NaN or infinite, and iamax returns the first index of largest absolute value under its documented NaN and Inf rules.",
["inputs","configurations"],"all shapes, norms, uplo/diag, entries of any magnitude including NaN and infinities at any position",
"Tests evaluate norms on small random matrices; special values at arbitrary positions and unreferenced garbage are not explored.",
[L+x for x in ["lange.hpp","lanhe.hpp","lansy.hpp","lantr.hpp","hasnan.hpp","hasinf.hpp","infnorm_colmajor.hpp","infnorm_symmetric_colmajor.hpp","infnorm_hermitian_colmajor.hpp","infnorm_triangular_colmajor.hpp"]]+[B+"iamax.hpp"],
[("lassq accumulation",L+"lassq.hpp")])

p("C08","Householder reflectors, single and blocked, are unitary and applied exactly",
"larfg returns v, tau, beta such that H = I - tau v v^H is unitary and H^H maps the input vector to beta e1 with beta real; larf, larft and larfb apply single and block reflectors so that the result equals multiplying by the product of the elementary reflectors in the documented order, for every side, op, direction and storage. inv_house3 gives a reflector whose inverse action annihilates as documented, and the implicit unit/zero parts of the stored vectors are never read or written.",
["inputs","configurations"],"all sizes, side/op/direction/storev options, real and complex taus including zero taus, contents of unreferenced parts",
"Tests exercise reflectors through QR-like factorizations with a small subset of direction/storage/side combinations.",
[L+x for x in ["larfg.hpp","larf.hpp","larft.hpp","larfb.hpp","inv_house3.hpp"]],
[("T factor recurrence",L+"larft.hpp"),("block application",L+"larfb.hpp")])

p("C09","QR, LQ, QL and RQ factorizations are backward stable with unitary Q",
"Every orthogonal factorization routine (blocked, unblocked, recursive, triangular-pentagonal-free variants, and the householder_* drivers) returns a factor of the documented shape and reflectors such that A = QR, LQ, QL or RQ to backward-stable accuracy, for any shape and block size. The matching generators (ungXX, unglq, ungqr, ungq, gen_householder_q) form the documented columns or rows of that Q with orthonormal accuracy, and the multipliers (unmXX, unmq, householder_q_mul) apply Q or its conjugate transpose from either side.",
["inputs","configurations"],"all m, n, k, block sizes, sides, ops, storage kinds; rank-deficient, graded, zero and badly scaled matrices",
"Tests run a grid of well-conditioned random square-ish matrices with fixed block sizes; wide/tall/empty shapes, partial k and block boundaries are under-sampled.",
[L+x for x in ["geqr2.hpp","geqrf.hpp","geqrt3.hpp","gelq2.hpp","gelqf.hpp","gelqt.hpp","geql2.hpp","geqlf.hpp","gerq2.hpp","gerqf.hpp","ungq.hpp","ungqr.hpp","unglq.hpp","ungql.hpp","ungrq.hpp","ungq_level2.hpp","unmq.hpp","unmqr.hpp","unmlq.hpp","unmql.hpp","unmrq.hpp","unmq_level2.hpp","gen_householder_q.hpp","householder_q_mul.hpp","trge_qr2.hpp","trge_ung2r.hpp"]],
[("blocked update with larft/larfb",L+"geqrf.hpp"),("recursion",L+"geqrt3.hpp")])

p("C10","LU factorization with partial pivoting and LU-based inversion",
"getrf (every variant) returns L, U and a row interchange vector with P A = L U to backward-stable accuracy, multipliers bounded by one (in the magnitude used for the pivot search) and pivot indices within the remaining rows; when a pivot is exactly zero it stops and returns the one-based index of that first zero pivot. getri (every variant) turns such factors into the inverse with a small error, or reports a zero diagonal entry of U.",
["inputs","configurations"],"all shapes including wide and tall, singular and rank-deficient matrices, ties in pivot magnitude, graded data, all variants",
"Tests use random nonsingular matrices, for which info is always zero and any nearly-largest pivot passes.",
[L+x for x in ["getrf.hpp","getrf_level0.hpp","getrf_recursive.hpp","getri.hpp","getri_uili.hpp","getri_uxli.hpp","trtri_recursive.hpp","ul_mult.hpp"]],
[("pivot search",L+"getrf_level0.hpp"),("recursive split",L+"getrf_recursive.hpp")])

p("C11","Cholesky factorizations detect indefiniteness and solve accurately",
"potrf and its variants (potf2, potrf2, blocked, right-looking), pbtrf_with_workspace and pttrf factor a positive definite matrix with a backward-stable residual using only the chosen triangle or band, and for a matrix that is not positive definite return the order of the first non-positive-definite leading minor. potrs and potri turn the factor into solutions and the inverse with small residuals.",
["inputs","configurations"],"all sizes, uplo, variants, block sizes, bandwidths; definite, semidefinite and indefinite matrices with the failing minor anywhere",
"Tests factor one kind of well-conditioned matrix; failure at every position relative to block boundaries, and agreement between variants, is not covered.",
[L+x for x in ["potrf.hpp","potf2.hpp","potrf2.hpp","potrf_blocked.hpp","potrf_blocked_right_looking.hpp","potrs.hpp","potri.hpp","pbtrf_with_workspace.hpp","pttrf.hpp"]],
[("info propagation out of block/recursive calls",L+"potrf_blocked.hpp"),("info propagation",L+"potrf2.hpp")])

p("C12","Hessenberg and Hessenberg-triangular reductions are unitary equivalences",
"gehd2, gehrd (any block size, through lahr2) and hessenberg reduce any square matrix, or its active block, to upper Hessenberg form by a unitary similarity whose factor unghr forms and unmhr applies, leaving rows and columns outside the active block consistent. gghrd and gghd3 reduce a pair (A, triangular B) to Hessenberg-triangular form by unitary equivalence, and hessenberg_rq restores triangular form as documented.",
["inputs","configurations"],"all n, active ranges ilo/ihi, block sizes and crossover points, with and without accumulation of the transformations; structured and badly scaled data",
"Tests use a handful of sizes and (ilo,ihi) pairs; block-size crossover behaviour and rotation blocking depend on sizes the tests do not vary together.",
[L+x for x in ["gehd2.hpp","gehrd.hpp","lahr2.hpp","hessenberg.hpp","unghr.hpp","unmhr.hpp","gghrd.hpp","gghd3.hpp","hessenberg_rq.hpp"]],
[("panel reduction",L+"lahr2.hpp"),("rotation accumulation",L+"gghd3.hpp")])

p("C13","Eigenvalue iterations return a valid Schur form whenever they report success",
"lahqr, multishift_qr and qr_iteration, together with aggressive early deflation and multishift sweeps, take any finite Hessenberg matrix and, when reporting success, leave an (quasi-)triangular T in standard form whose diagonal blocks match the returned eigenvalues, with A Z = Z T and Z unitary to backward-stable accuracy. Reported failure identifies the converged part, non-requested Schur factors are not needed for correct eigenvalues, and rows and columns outside the active block are only touched as documented.",
["inputs","configurations"],"all n, active ranges, want_t/want_z, shift/deflation/crossover options; random, zero, triangular, companion, nilpotent, defective, graded, subdiagonal-zero matrices",
"Convergence paths are data dependent; tests sample a handful of matrices and option settings.",
[L+x for x in ["lahqr.hpp","multishift_qr.hpp","qr_iteration.hpp","aggressive_early_deflation.hpp","multishift_qr_sweep.hpp","move_bulge.hpp","lahqr_eig22.hpp","lahqr_schur22.hpp","lahqr_shiftcolumn.hpp","FrancisOpts.hpp"]],
[("deflation checks",L+"lahqr.hpp"),("sweep/AED",L+"multishift_qr.hpp")])

p("C14","Schur-form reordering preserves the decomposition and the spectrum",
"schur_swap and schur_move, for every pair of adjacent 1x1 and 2x2 blocks or any source and destination, keep A Q = Q T with Q unitary, keep T in (quasi-)triangular form with the selected block moved to the documented place and all other blocks in order, and preserve eigenvalues to backward-stable accuracy or report failure. lasy2 and lahqr_schur22 return the documented scaled Sylvester solution and standardized 2x2 Schur factorization.",
["inputs","configurations"],"all block-size combinations and positions, close and equal eigenvalues, graded blocks, with and without Q",
"Tests move one or two blocks in small random matrices; close eigenvalues, edges of the matrix and all block-size patterns are not enumerated.",
[L+x for x in ["schur_swap.hpp","schur_move.hpp","lasy2.hpp","lahqr_schur22.hpp"]],
[("swap kernels",L+"schur_swap.hpp"),("Sylvester solve",L+"lasy2.hpp")])

p("C15","QZ iterations return a valid generalized Schur form whenever they succeed",
"lahqz and multishift_qz, with aggressive early deflation and sweeps, take any finite Hessenberg-triangular pair and, when reporting success, leave (quasi-)triangular S and triangular P with Q S Z^H = A and Q P Z^H = B, Q and Z unitary to backward-stable accuracy. The returned alpha/beta pairs are the generalized eigenvalues, including infinite ones from a singular B.",
["inputs","configurations"],"all n, active ranges, want_s/q/z flags, shift/deflation options; singular B, zero diagonals at any position, graded pencils, defective pencils",
"Convergence paths depend on data; tests sample a few random pencils plus a couple of singular ones.",
[L+x for x in ["lahqz.hpp","multishift_qz.hpp","multishift_qz_sweep.hpp","aggressive_early_deflation_generalized.hpp","lahqz_eig22.hpp","lahqz_schur22.hpp","lahqz_shiftcolumn.hpp"]],
[("infinite-eigenvalue deflation",L+"lahqz.hpp")])

p("C16","Generalized Schur reordering preserves the pencil",
"generalized_schur_swap and generalized_schur_move keep Q (S,P) Z^H equal to the original pencil with unitary Q and Z, keep (quasi-)triangular form with the chosen block moved to the documented position and the remaining blocks in order, and preserve the generalized eigenvalues, or report failure.",
["inputs","configurations"],"all block-size combinations and positions, infinite and close eigenvalues, with and without Q/Z",
"Tests move a few blocks in random pencils; special positions and eigenvalues are not enumerated.",
[L+x for x in ["generalized_schur_swap.hpp","generalized_schur_move.hpp"]],
[("swap kernels",L+"generalized_schur_swap.hpp")])

p("C17","Eigenvectors computed from a Schur form satisfy their eigen-equation",
"trevc and trevc3 compute right and/or left eigenvectors of an upper (quasi-)triangular matrix, all, selected, or back-transformed by a supplied basis, such that every vector is finite, nonzero and has a small eigen-residual even for repeated, badly scaled or defective eigenvalues, and no memory outside the requested columns is written. The back- and forward-substitution helpers solve the shifted triangular system they document without overflow.",
["inputs","configurations"],"all n, side/howmny/selection options, block sizes, 1x1/2x2 block patterns, repeated, tiny and huge eigenvalues",
"Tests check random Schur forms; overflow protection and selection patterns including conjugate pairs need unusual inputs.",
[L+x for x in ["trevc.hpp","trevc3.hpp","trevc_backsolve.hpp","trevc_forwardsolve.hpp","trevc3_backsolve.hpp","trevc3_forwardsolve.hpp","trevc_protect.hpp"]],
[("scaling against overflow",L+"trevc_protect.hpp")])

p("C18","Bidiagonalization and SVD are backward stable with ordered singular values",
"gebd2, gebrd (any block size) and bidiag reduce any matrix to real bidiagonal form by unitary transformations that ungbr forms; svd_qr and gesvd return nonnegative, descending singular values with A = U S V^H and orthonormal U and V for every shape and requested-vectors option. svd22 and singularvalues22 give the documented 2x2 triangular SVD accurately over the full range.",
["inputs","configurations"],"all shapes, block sizes, uplo, wanted vectors; rank-deficient, zero, graded, clustered and split bidiagonals",
"Tests use random full-rank matrices of a few sizes; zero diagonals, splitting, negative values and tall/wide switching are data dependent.",
[L+x for x in ["gebd2.hpp","gebrd.hpp","labrd.hpp","bidiag.hpp","ungbr.hpp","svd_qr.hpp","gesvd.hpp","svd22.hpp","singularvalues22.hpp"]],
[("implicit zero-shift QR and sort",L+"svd_qr.hpp"),("panel reduction",L+"labrd.hpp")])

p("C19","Symmetric eigenvalue kernels return ordered accurate eigen-decompositions",
"hetd2 with ungtr reduces a Hermitian matrix, given in either triangle, to real tridiagonal form by a unitary similarity; steqr returns all eigenvalues in ascending order and, when asked, orthonormal eigenvectors with a small residual, for any real tridiagonal input. lae2 and laev2 return the eigenvalues (and rotation) of a symmetric 2x2 matrix with the documented ordering.",
["inputs","configurations"],"all n, uplo, with/without vectors; zero, split, graded, clustered and Wilkinson tridiagonals",
"Convergence and splitting are data dependent; tests use a few random matrices and do not look at the unreferenced triangle.",
[L+x for x in ["hetd2.hpp","ungtr.hpp","steqr.hpp","lae2.hpp","laev2.hpp"]],
[("QL/QR switching and splitting",L+"steqr.hpp")])

p("C20","Secular-equation solvers return the requested root between its poles",
"laed4, laed5 and laed6 return, for every admissible diagonal, vector, rho and index, the requested root of the secular equation inside its interlacing interval to high relative accuracy together with the documented difference vector, whenever they report success; non-convergence (info = 1) is reported only for nearly coincident poles or poles that carry next to no weight.",
["inputs"],"all n >= 1, root indices, positive rho, pole distributions from well separated to nearly coincident, graded weight vectors",
"Root finders switch branches on data; tests solve a few random secular equations.",
[L+x for x in ["laed4.hpp","laed5.hpp","laed6.hpp"]],
[("rational interpolation with safeguards",L+"laed4.hpp")])

p("C21","Tikhonov-regularized least squares solvers agree and minimize the objective",
"tkhnv and each of its variants (QR, bidiagonal Elden, SVD) return for every full-rank or rank-deficient overdetermined problem and every positive regularization parameter the unique minimizer of ||Ax-b||^2 + lambda^2 ||x||^2, satisfying the regularized normal equations to backward-stable accuracy; all variants agree.",
["inputs","configurations"],"all m >= n, number of right-hand sides, lambda magnitudes, ill-conditioned and rank-deficient A, all variants",
"Tests use a few random problems and one lambda; consistency between variants for tiny or huge lambda is not explored.",
[L+x for x in ["tkhnv.hpp","tik_qr.hpp","tik_bidiag_elden.hpp","tik_svd.hpp"]],
[("variant dispatch",L+"tkhnv.hpp")])

p("C22","No routine touches memory outside its operands or executes undefined behaviour",
"For every valid call, any BLAS or LAPACK routine of the library reads and writes only elements of its operands: no out-of-bounds or uninitialized-dependent access, no write to leading-dimension padding, stride gaps, read-only operands or unreferenced triangles, and no undefined behaviour. Unreferenced memory never influences the result.",
["inputs","configurations"],"all routines, shapes (including empty and 1-sized), layouts, leading dimensions, strides, options and arbitrary contents of unreferenced memory",
"Tests are built without sanitizers, use tight leading dimensions and zero-filled unreferenced parts, so stray accesses are invisible.",
["include/tlapack/blas","include/tlapack/lapack","include/tlapack/plugins/legacyArray.hpp","include/tlapack/LegacyMatrix.hpp","include/tlapack/LegacyVector.hpp","include/tlapack/base/utils.hpp"],
[("index arithmetic over slices","include/tlapack/plugins/legacyArray.hpp")])

p("C23","Workspace queries are sufficient and workspace contents never matter",
"Every *_work routine, given a workspace of exactly the size its *_worksize query reports, completes without touching memory outside it and yields the same valid result as the allocating interface, whatever the workspace initially contains. Workspace-size combination (minMax, sum, transpose) always yields a size sufficient for each of the combined requirements.",
["inputs","configurations"],"all routines with a workspace interface, shapes, options and block sizes; arbitrary initial workspace contents; all pairs of size requirements",
"Tests allocate the workspace through the query but cannot see overruns, reliance on zero-initialized memory, or shapes where the query is too small.",
["include/tlapack/base/workspace.hpp","include/tlapack/lapack","include/tlapack/plugins/legacyArray.hpp"],
[("WorkInfo algebra","include/tlapack/base/workspace.hpp"),("reshape","include/tlapack/plugins/legacyArray.hpp")])

p("C24","Invalid arguments are rejected before any output is modified",
"With input checks enabled, every public routine that checks its argument dimensions, index ranges or option values reports an incompatible call by throwing a domain error, before it reads out of bounds and with all its output operands unmodified; a valid call never raises one. Library check macros and error-check options behave as configured.",
["inputs","configurations"],"all checked preconditions of the public BLAS, LAPACK and legacy interfaces, each violated individually, and all valid argument combinations at their boundaries",
"Tests cover a few invalid calls of the legacy interface only; off-by-one preconditions and checks placed after a write go unnoticed.",
["include/tlapack/base/exceptionHandling.hpp","include/tlapack/blas","include/tlapack/lapack","include/tlapack/legacy_api"],
[("tlapack_check macros","include/tlapack/base/exceptionHandling.hpp")])

p("C25","Legacy, C and CBLAS interfaces agree with the template interface",
"Each pointer-based legacy routine, C wrapper and CBLAS wrapper performs the same operation as the template routine of that name for both layouts, all options, leading dimensions and positive or negative strides, following the BLAS convention that a negative stride traverses the vector backwards and that operands multiplied by zero need not be set.",
["inputs","configurations"],"all wrapped routines, layouts, scalar types, options, strides in both directions, zero and nonzero alpha/beta",
"Tests compare wrappers on a few cases; row-major paths, negative strides and per-type wrapper functions are generated by macros and sampled sparsely.",
["include/tlapack/legacy_api","src/tlapack_cwrappers.cpp","include/tlapack/legacy_api/base/utils.hpp"],
[("layout/option translation","include/tlapack/legacy_api/blas/"),("macro-generated wrappers","src/tlapack_cwrappers.cpp")])

p("C26","Results do not depend on the data structure or its memory layout",
"Every routine gives a correct result, with the same accuracy, for any matrix or vector type implementing the library's data-access interface: column-major, row-major, Eigen matrices through the Eigen plugin, and a user-defined type with arbitrary two-way strides whose layout the library does not know; operands of different layouts may be mixed where the signature has independent matrix types.",
["configurations","inputs"],"all routines, matrix/vector types (column-major, row-major, Eigen, user-defined strided), mixed layouts in one call, shapes and options",
"Tests instantiate only the built-in column- and row-major classes with a uniform layout; layout-specific shortcuts and mixed operands are not exercised.",
["include/tlapack/base/arrayTraits.hpp","include/tlapack/base/utils.hpp","include/tlapack/plugins/legacyArray.hpp","include/tlapack/plugins/eigen.hpp","include/tlapack/blas","include/tlapack/lapack"],
[("layout_trait dispatch","include/tlapack/base/arrayTraits.hpp"),("slice/row/col/diag views","include/tlapack/plugins/legacyArray.hpp")])

p("C27","Accuracy scales with the working precision for any real scalar type",
"Instantiated with a scalar type other than float and double - extended, quadruple (__float128) or multiprecision, or a 16-bit type of the Eigen plugins - every routine compiles and delivers results accurate to that type's own unit roundoff, using machine constants (unit in the last place, unit roundoff, safe minimum and maximum, Blue's constants) that are those of the type; no intermediate is silently rounded to a lower precision.",
["configurations","inputs"],"all routines, scalar types float, double, long double, __float128 and its complex type, multiprecision and its complex type, Eigen::bfloat16 and Eigen::half, shapes and data classes",
"Tests use fixed tolerances for four standard types and run the multiprecision type on few routines, so loss of precision to double is visible only in those.",
["include/tlapack/base/constants.hpp","include/tlapack/base/types.hpp","include/tlapack/base/scalar_type_traits.hpp","include/tlapack/plugins/gnuquad.hpp","include/tlapack/plugins/eigen_half.hpp","include/tlapack/plugins/eigen_bfloat16.hpp","include/tlapack/blas","include/tlapack/lapack"],
[("ulp/uroundoff/safe_min from numeric_limits","include/tlapack/base/constants.hpp")])

p("C28","Routines are re-entrant, deterministic and never modify their inputs",
"Concurrent calls on disjoint outputs, even when sharing read-only inputs, from any number of threads are free of data races and return bit-for-bit the result of the same call made alone; repeated calls with equal inputs return bit-identical results. Operands documented as input are bitwise unchanged on return.",
["schedules","inputs"],"all thread schedules over mixes of routines sharing const inputs, repeated and interleaved calls with differing sizes and options",
"Tests are single threaded and call every routine once per input; hidden static state or in-place modification and restoration of inputs cannot be observed.",
["include/tlapack/blas","include/tlapack/lapack","include/tlapack/base"],
[("absence of mutable static state","include/tlapack")])

p("C29","NaN, infinity and strong-zero semantics are honoured",
"A strong zero absorbs every operand, including NaN and infinity, so updates using it as beta ignore the previous output contents, while an ordinary zero scalar propagates NaN as IEEE arithmetic does. NaN or infinity in an input is never silently lost by level-1 to level-3 kernels or by norms, and iterative routines terminate on non-finite data instead of hanging or crashing.",
["inputs","configurations"],"all kernels with beta overloads, position and kind of the special value, iterative drivers fed with non-finite data",
"Tests place few special values in few routines; propagation through every option branch is not examined.",
["include/tlapack/base/StrongZero.hpp","include/tlapack/blas","include/tlapack/lapack"],
[("StrongZero arithmetic","include/tlapack/base/StrongZero.hpp"),("overloads without beta",B+"gemm.hpp")])

p("C30","Views, slices and base utilities address exactly the elements they name",
"slice, rows, cols, row, col, diag, transpose_view, reshape and conversions to legacy descriptors of any matrix, band matrix or vector (the library's own types and Eigen's), in either layout or direction and under any nesting, refer to exactly the elements their indices name, with the right sizes, and creation functors give independent objects of the requested size. Scalar utilities (abs1, conj, sign, ceil, enum conversions, machine constants) return their documented values.",
["inputs","programs"],"all compositions of views of any depth, index ranges including empty and full, strides and directions",
"Tests use views implicitly with tight leading dimensions; nested views, reversed vectors and off-diagonal views of rectangular matrices are not compared with a model.",
["include/tlapack/plugins/legacyArray.hpp","include/tlapack/plugins/eigen.hpp","include/tlapack/plugins/stdvector.hpp","include/tlapack/LegacyBandedMatrix.hpp","include/tlapack/LegacyMatrix.hpp","include/tlapack/LegacyVector.hpp","include/tlapack/base/utils.hpp","include/tlapack/base/types.hpp","include/tlapack/base/constants.hpp"],
[("pointer arithmetic of views","include/tlapack/plugins/legacyArray.hpp")])

p("C31","Symmetric-indefinite factorization reproduces the matrix",
"hetrf and its blocked/unblocked kernels factor any Hermitian or symmetric matrix, from either triangle, into U D U^H or L D L^H with unit-triangular factor, 1x1/2x2 diagonal blocks and a valid interchange vector, to backward-stable accuracy, without reading the other triangle.",
["inputs","configurations"],"all n, uplo, invariance (Hermitian or symmetric), block sizes; indefinite, zero-diagonal, singular and graded matrices",
"The repository's own test for this factorization is disabled, so nothing checks it at present.",
[L+x for x in ["hetrf.hpp","hetf3.hpp","hetrf_blocked.hpp"]],
[("pivot selection",L+"hetf3.hpp")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
