#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run once; the jsonl is committed).
import json
I="inputs"; P="programs"; C="configurations"; H="histories"; S="schedules"
ALL=["include/tlapack/blas","include/tlapack/lapack"]
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=obs or [],hook_needed=None))
    assert len(title)<=80,title
    return d
L=[]
L.append(p("C01","Routines stay inside the arrays they are given",
 "When a BLAS or LAPACK routine is called with arguments whose dimensions and index ranges conform to its documentation, it reads and writes only elements that lie inside the matrices, vectors and workspaces it was given or created, and only forms sub-views contained in the parent array. This holds for every size including zero and one, every rectangular shape, every option value and every block size.",
 [I],"all conforming sizes, shapes, enum options, index ranges (ilo/ihi, k) and block sizes",
 "Element access is unchecked in release builds; tests use a few dozen sizes, so an out-of-range access for another shape (empty, one-column, m<n, block size not dividing n) is never executed, and an in-allocation overrun is silent.",
 ALL,[("loop bounds and slice ranges derived from nrows/ncols/size","every routine"),("assert in operator() and slice","include/tlapack/LegacyMatrix.hpp, plugins/legacyArray.hpp")],
 obs=["element access operators and slice/rows/cols/row/col/diag/reshape calls"]))
L.append(p("C02","Conforming calls are never rejected",
 "A call whose arguments conform to the documentation never ends in an argument-error exception: every check a routine makes on its own arguments admits all conforming arguments, and every call one routine makes to another satisfies the requirements the callee checks. This includes empty and one-element problems, rectangular shapes, every documented option value and every positive block size.",
 [I],"all conforming sizes, shapes and option combinations, through the whole internal call graph",
 "Tests exercise each routine with few shapes and mostly default options; a wrong internal dimension for a rare side/trans/direction/storage combination or an empty block only throws for the untested shape.",
 ALL,[("tlapack_check / tlapack_check_false argument checks","head of every routine"),("internal calls between routines","include/tlapack/lapack")],
 obs=["std::domain_error"]))
L.append(p("C03","Non-conforming arguments are rejected before anything is modified",
 "When argument checking is enabled, a call that breaks a checked dimension requirement or passes an option value outside the documented set for that routine ends in an argument-error exception, and no output argument has been modified when it does.",
 [I],"all argument tuples violating one checked clause, for any sizes and option values",
 "The tests hardly ever pass bad arguments; a dropped, weakened or misplaced check does not change any result on good arguments.",
 ALL+["include/tlapack/base/exceptionHandling.hpp"],[("tlapack_check / tlapack_check_false","head of every routine")],obs=["std::domain_error","output arrays"]))
L.append(p("C04","Only the referenced triangle, band or diagonal is touched",
 "A routine taking a triangular, symmetric, Hermitian or Hessenberg operand reads and writes only the part of that array which its documentation says is referenced: with an upper (lower) selection the strictly lower (upper) part is neither read nor written, and with a unit-diagonal selection the diagonal of the triangular operand is not read.",
 [I],"all sizes, all uplo/diag/side/trans combinations",
 "A stray read of the other triangle multiplies or adds a value that the test set to zero or to the symmetric value, and a stray write restores or is not compared; only particular data outside the triangle would show it.",
 ["include/tlapack/blas","include/tlapack/lapack"],[("uplo/diag branches and loop bounds","trmm, trsm, trmv, trsv, symm, hemm, symv, hemv, syrk, herk, syr2k, her2k, her, her2, syr, syr2, potf2, potrf*, trtri_recursive, lauum_recursive, lantr, lansy, lanhe, lacpy, laset, ...")]))
L.append(p("C05","BLAS routines compute their documented formula",
 "Each Level 1, 2 and 3 BLAS routine (vector updates, products, rank updates, triangular products and solves, plane rotations) leaves in its output exactly the documented combination of its inputs, element by element and in exact arithmetic, for every side, uplo, transpose/conjugate, diag option, every value class of alpha and beta, real and complex scalars, and every size.",
 [I],"all sizes; all side x uplo x trans x diag x real/complex combinations; beta zero, one or general",
 "The BLAS templates have no unit tests of their own in the repository; they are reached only through LAPACK tests with a fraction of the option combinations, mostly alpha=+-1 and beta in {0,1}.",
 ["include/tlapack/blas"],[("option branches with explicit loops","include/tlapack/blas/*.hpp")]))
L.append(p("C06","Hermitian routines treat the diagonal as real",
 "Routines operating on a Hermitian matrix (hemm, hemv, her, her2, herk, her2k and the Hermitian norms) ignore the imaginary part of the stored diagonal entries, and those that update a Hermitian matrix leave a diagonal with zero imaginary part in every element of the diagonal they write, for all complex inputs.",
 [I],"all complex inputs, both triangles, both transposes, all sizes",
 "Test matrices have a real diagonal already, so an omitted real() makes no difference.",
 ["include/tlapack/blas/hemm.hpp","include/tlapack/blas/hemv.hpp","include/tlapack/blas/her.hpp","include/tlapack/blas/her2.hpp","include/tlapack/blas/herk.hpp","include/tlapack/blas/her2k.hpp","include/tlapack/lapack/lanhe.hpp","include/tlapack/lapack/infnorm_hermitian_colmajor.hpp"],
 [("real() applied to diagonal elements","Hermitian kernels")]))
L.append(p("C07","Queried workspace is always sufficient",
 "For every routine that comes with a workspace query, a workspace of the size the query returns for given arguments and options is enough for the workspace variant called with the same arguments and options: it never asks for more elements than it was given and never throws because the workspace is too small. The queried block may be of any shape with that many elements.",
 [I,C],"all sizes, shapes, sides, directions, storage modes, block sizes and options",
 "Tests use a few sizes and default block sizes; an undersized formula for another shape either writes past a buffer or throws only there.",
 ["include/tlapack/base/workspace.hpp","include/tlapack/lapack"],[("WorkInfo minMax and +=","include/tlapack/base/workspace.hpp"),("*_worksize functions","include/tlapack/lapack"),("reshape of the workspace","include/tlapack/plugins/legacyArray.hpp")],
 state=[("WorkInfo(m,n)","rows and columns of the required workspace","include/tlapack/base/workspace.hpp")]))
L.append(p("C08","An absent or exactly-zero beta means the output is not read",
 "When a BLAS-style update is called in the form without beta (or with the strong-zero constant), the previous contents of the output operand do not influence the result: not-a-number or uninitialized values stored there never appear in the output, for every routine, option combination and size, including empty inner dimensions.",
 [I],"all routines with an optional beta, all options and sizes, arbitrary prior output contents",
 "Tests pass initialized output arrays, for which 0*C is 0.",
 ["include/tlapack/base/StrongZero.hpp","include/tlapack/blas","include/tlapack/lapack/hemm2.hpp","include/tlapack/lapack/trmm_out.hpp","include/tlapack/lapack/mult_hehe.hpp"],
 [("StrongZero arithmetic","include/tlapack/base/StrongZero.hpp"),("overloads without beta","include/tlapack/blas/*.hpp")]))
L.append(p("C09","Input-only arguments come back unchanged",
 "An argument that a routine's documentation marks as input only, and the parts of an array that the documentation marks as not modified, have the same contents after the call as before, whatever the sizes, options and data.",
 [I],"all inputs, all routines, all options",
 "Tests keep copies of few inputs and never compare most of them afterwards.",
 ALL,[("const parameters and regions of write accesses","every routine")]))
L.append(p("C10","Failure reports carry the right index and are not lost",
 "When a factorization, inversion or iterative routine hits a failure (non-positive pivot, exactly zero pivot, non-convergence), it returns a nonzero info that identifies the failing position in the indexing of the matrix the caller passed, even if the failure was found by a nested call on a sub-block, and it returns zero when and only when no nested step failed.",
 [I],"all inputs that make some step fail at any position, all block sizes and recursion splits",
 "Tests almost exclusively use well-conditioned inputs, for which every info is zero.",
 ["include/tlapack/lapack/potf2.hpp","include/tlapack/lapack/potrf2.hpp","include/tlapack/lapack/potrf_blocked.hpp","include/tlapack/lapack/potrf_blocked_right_looking.hpp","include/tlapack/lapack/pbtrf_with_workspace.hpp","include/tlapack/lapack/getrf_level0.hpp","include/tlapack/lapack/getrf_recursive.hpp","include/tlapack/lapack/trtri_recursive.hpp","include/tlapack/lapack/getri.hpp","include/tlapack/lapack/potri.hpp","include/tlapack/lapack/pttrf.hpp","include/tlapack/lapack/hetrf_blocked.hpp"],
 [("info returned by nested calls translated by block offset","blocked and recursive factorizations")]))
L.append(p("C11","Sub-views address exactly the elements their name says",
 "For every supported matrix and vector type of the library (column-major, row-major, any leading dimension, any increment, forward or backward), element (i,j) of a slice, row, column, diagonal, transpose or reshape of an array is the documented element of the parent, has the documented extents, and writes through it go to that element only; a reshape's parts are disjoint and inside the parent.",
 [I,C],"all extents, offsets, leading dimensions and increments, both layouts and directions, const and non-const",
 "Tests use mostly column-major arrays with leading dimension equal to the row count; row-major diagonals, strided and backward vectors and non-contiguous reshapes are hardly exercised.",
 ["include/tlapack/LegacyMatrix.hpp","include/tlapack/LegacyVector.hpp","include/tlapack/LegacyBandedMatrix.hpp","include/tlapack/plugins/legacyArray.hpp","include/tlapack/plugins/stdvector.hpp"],
 [("pointer arithmetic of slice/rows/cols/row/col/diag/transpose_view/reshape","include/tlapack/plugins/legacyArray.hpp")]))
L.append(p("C12","No silent loss of precision",
 "Computations carried out in a given scalar type never pass through a less precise type: instantiated for a high-precision type no intermediate result is converted to double or float, no non-representable decimal literal enters the computation, and mixed-precision calls use the wider type.",
 [P,C],"every routine instantiated with any floating-point type, in particular wider than double",
 "Tests bound the error by a tolerance computed in the same type, with slack, and mostly run float and double; a value squeezed through double keeps 16 digits and passes.",
 ["include/tlapack/base","include/tlapack/blas","include/tlapack/lapack"],[("scalar_type / real_type deduction and explicit conversions","base/types.hpp and all routines")]))
L.append(p("C13","Routines depend only on the documented matrix and scalar interface",
 "Every routine compiles and resolves for any matrix type that provides just the documented access functions and any scalar type providing just the documented arithmetic; no routine reaches into the representation of a particular matrix class or needs functions specific to the built-in floating-point types.",
 [P,C],"all matrix, vector and scalar types that model the documented concepts",
 "The tests in this build only instantiate the library's own legacy matrix class; the other plugins are not available.",
 ["include/tlapack/base/arrayTraits.hpp","include/tlapack/base/concepts.hpp","include/tlapack/blas","include/tlapack/lapack"],[("access through nrows/ncols/operator()/slice/Create","all routines")]))
L.append(p("C14","C, CBLAS and Fortran bindings agree with the C++ routines",
 "For every exported C, CBLAS and Fortran entry point, the declarations in all languages have the same parameters in the same order with interoperable types and identical enumeration values, and the implementation forwards each argument to the matching parameter of the corresponding C++ routine for the scalar type in its name.",
 [I,P],"all exported entry points, all argument values",
 "The repository's tests do not call the wrappers, and a swapped leading dimension or option of equal type compiles and links.",
 ["src/tlapack_cwrappers.cpp","include/tlapack.h.in","include/tlapack_cblas.h.in","src/tlapack.f90","src/tlapack.fi.in","src/base"],[("macro-generated wrappers and interface blocks","src/")]))
L.append(p("C15","The legacy pointer interface maps to the right operands",
 "Each routine of the legacy pointer-based interface builds, from its dimensions, leading dimensions and increments (including negative ones), exactly the operand views that reference BLAS/LAPACK defines, validates its arguments, and passes them with all options to the matching generic routine, for both layouts and all option values.",
 [I],"all dimensions, leading dimensions, increments (positive and negative), layouts and options",
 "The tests reach the legacy interface for a handful of routines with unit increments only.",
 ["include/tlapack/legacy_api/blas","include/tlapack/legacy_api/lapack","include/tlapack/legacy_api/base"],[("create_matrix / create_vector / tlapack_expr_with_vector macros","include/tlapack/legacy_api/base/utils.hpp")]))
L.append(p("C16","No hidden state between calls",
 "The result of a routine depends only on its arguments: no routine reads or writes mutable state that survives the call, so calls on disjoint data can run concurrently from several threads and repeating a call with the same arguments gives the same result.",
 [S,H],"all interleavings of calls on disjoint data, all call histories",
 "Tests are single-threaded and call each routine from a fresh state.",
 ["include/tlapack"],[("absence of mutable static and global storage","include/tlapack")]))
L.append(p("C17","Every call terminates within a bounded number of iterations",
 "Every loop in the BLAS kernels and in the direct (non-iterative) LAPACK routines makes progress towards its end for every conforming size, including those for which unsigned counters run down to zero, and every recursion strictly reduces the problem until a base case; iterative eigenvalue and singular value routines stop after an explicit iteration limit.",
 [I],"all sizes including 0 and 1, all data",
 "A loop that fails to stop does so only for a size (often 0 or 1) or data that the tests do not use.",
 ALL,[("loop counters, recursion splits and iteration limits","all routines")]))
L.append(p("C18","Headers stand alone and can be used in several translation units",
 "Every public header compiles when it is the only one included after the plugin header, in any order with the others, and a program which includes the headers in any number of translation units links, because no header defines a non-inline function or variable.",
 [P,C],"every header, alone, and any set of translation units",
 "Each test program includes what it needs in a working order and is a single translation unit per library use.",
 ["include/tlapack"],[("include directives, inline/template definitions","every header")]))
L.append(p("C19","Not-a-number and infinity are never hidden by norms and scans",
 "If any referenced element of the operand is NaN, the norms (max, one, infinity, Frobenius; general, symmetric, Hermitian, triangular), the sum of magnitudes, the Euclidean norm and the sum-of-squares update return NaN, the NaN/Inf scans report it, and the maximum-magnitude index points at the first NaN (with the error-checking variant); the result never depends on where in the operand the NaN is.",
 [I],"all sizes, all positions of one or more NaN elements, all norms/uplo/diag",
 "Comparisons with NaN are false, so a max update that drops it passes every test with finite data; the tests try few positions.",
 ["include/tlapack/lapack/lange.hpp","include/tlapack/lapack/lansy.hpp","include/tlapack/lapack/lanhe.hpp","include/tlapack/lapack/lantr.hpp","include/tlapack/lapack/lassq.hpp","include/tlapack/blas/iamax.hpp","include/tlapack/blas/asum.hpp","include/tlapack/blas/nrm2.hpp","include/tlapack/lapack/hasnan.hpp","include/tlapack/lapack/hasinf.hpp","include/tlapack/lapack/infnorm_colmajor.hpp"],
 [("isnan guards in max updates","norm routines")]))
L.append(p("C20","Results do not depend on prior contents of workspace or pure outputs",
 "No routine reads an element of its workspace, of an output-only argument, or of an array it allocated itself before having written it, so results never depend on what those arrays held before the call.",
 [I,H],"all sizes and options, arbitrary prior contents of workspace and outputs",
 "Freshly allocated memory is usually zero and the allocating variants zero-fill, so a missing initialization passes.",
 ALL,[("initialization order of work arrays","all routines with workspace or outputs")]))
L.append(p("C21","Copy, set, scale and transpose cover exactly the selected region",
 "The auxiliary routines that copy, initialise, conjugate, transpose or scale a matrix or vector, or a selected triangle, Hessenberg part or band of it, give every element of the selected region its documented value and leave every other element as it was, for every shape and region option.",
 [I],"all shapes m<n, m=n, m>n, empty; all region options",
 "Tests use square or few rectangular shapes and general regions; an omitted last column in a wide trapezoid goes unnoticed.",
 ["include/tlapack/lapack/lacpy.hpp","include/tlapack/lapack/laset.hpp","include/tlapack/lapack/lascl.hpp","include/tlapack/lapack/transpose.hpp","include/tlapack/lapack/conjugate.hpp","include/tlapack/lapack/rscl.hpp"],[("region loops","the files listed")]))
L.append(p("C22","No routine is called internally with overlapping operands",
 "Whenever one routine calls another inside the library, an operand the callee writes does not overlap any other operand it reads or writes, unless the callee documents that as in-place, for all sizes, splits and block sizes.",
 [I],"all sizes, block sizes and recursion splits; every internal call",
 "Overlap of one row or column appears only for particular splits and gives plausible numbers.",
 ["include/tlapack/lapack"],[("block partitioning by slice/rows/cols","blocked and recursive routines")]))
L.append(p("C23","Allocating and workspace forms of a routine are the same computation",
 "The convenience form of a routine that allocates its own workspace passes every argument unchanged, in the matching position and with the same options, to the workspace form with a workspace obtained from the query for these very arguments, and returns its status; general front-ends that select an algorithm by direction, storage or variant reach the algorithm selected, with every argument forwarded.",
 [I,C],"all arguments, options and variants of every routine that has several forms",
 "Tests call one of the forms with one set of options, so a swapped or dropped argument of equal type in the other one is not seen.",
 ["include/tlapack/lapack"],[("foo / foo_work / foo_worksize triples; front-ends with Opts variants","include/tlapack/lapack")]))
L.append(p("C24","Block-recursive algorithms preserve the matrix identity they implement",
 "Each block or recursive triangular algorithm (in-place products of triangular factors, triangular inversion, Cholesky and LU by recursion or blocks, solves with a computed factor, out-of-place triangular products) satisfies its defining matrix equation in exact arithmetic for every split and block size: combining the results of its sub-calls by the block operations performed yields the documented product, inverse or factorization.",
 [I],"all sizes, split points and block sizes, all uplo/side/trans/diag options, real and complex scalars",
 "Tests check residuals for a few sizes and option combinations; some combinations of side, uplo, transpose and conjugation are not instantiated with complex data.",
 ["include/tlapack/lapack/lauum_recursive.hpp","include/tlapack/lapack/trtri_recursive.hpp","include/tlapack/lapack/mult_llh.hpp","include/tlapack/lapack/mult_uhu.hpp","include/tlapack/lapack/ul_mult.hpp","include/tlapack/lapack/lu_mult.hpp","include/tlapack/lapack/potrf2.hpp","include/tlapack/lapack/potrf_blocked.hpp","include/tlapack/lapack/trsm_tri.hpp","include/tlapack/lapack/trmm_out.hpp","include/tlapack/lapack/mult_hehe.hpp","include/tlapack/lapack/potrs.hpp"],
 [("block updates by gemm/trmm/trsm/herk on sub-views","the files listed")]))
# honest not-applicable
L.append(p("C30","Factorizations are backward stable",
 "Every factorization, reduction and solver returns factors whose residual is bounded by a modest multiple of the unit roundoff times the norm of the input, and orthogonal factors that are orthogonal to working precision.",
 [I],"all finite inputs of all sizes and scalings","Residual tests sample random matrices of a few sizes.",ALL,[("Householder/Givens/pivoting kernels","include/tlapack/lapack")]))
L.append(p("C31","Eigenvalue and singular value iterations converge",
 "The QR, QZ, divide-and-conquer and implicit-shift iterations find all eigenvalues or singular values of every finite input within their iteration limits and return them correctly ordered and paired.",
 [I],"all finite inputs","Tests use a few matrix families.",["include/tlapack/lapack/multishift_qr.hpp","include/tlapack/lapack/multishift_qz.hpp","include/tlapack/lapack/steqr.hpp","include/tlapack/lapack/svd_qr.hpp","include/tlapack/lapack/laed4.hpp"],[("shift strategies and deflation criteria","the files listed")]))
L.append(p("C32","Scaling-sensitive kernels neither overflow nor underflow needlessly",
 "Norms, rotations, complex division, reciprocal scaling and eigenvector solves return an accurate result whenever that result is representable, whatever the magnitude of the inputs.",
 [I],"all finite inputs over the whole exponent range","Tests probe chosen extreme magnitudes only.",["include/tlapack/lapack/lassq.hpp","include/tlapack/blas/rotg.hpp","include/tlapack/blas/lartg.hpp","include/tlapack/lapack/ladiv.hpp","include/tlapack/lapack/lascl.hpp","include/tlapack/lapack/rscl.hpp","include/tlapack/lapack/trevc_protect.hpp"],[("safe scaling constants","base/constants.hpp and the files listed")]))
L.append(p("C33","Alternative array libraries and optimized BLAS give the same results",
 "With Eigen, mdspan or StarPU arrays, or with the optimized BLAS back end switched on, every routine gives the same result as with the library's own arrays and kernels.",
 [C],"all plugins and back ends","These dependencies are not part of this build at all.",["include/tlapack/plugins/eigen.hpp","include/tlapack/plugins/mdspan.hpp","include/tlapack/plugins/starpu.hpp","include/tlapack/starpu","include/tlapack/legacy_api"],[("plugin adapters","include/tlapack/plugins")]))
if __name__=="__main__":
    with open("/verif/properties.jsonl","w") as f:
        for d in L: f.write(json.dumps(d)+"\n")
    print(len(L))
