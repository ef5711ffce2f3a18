#include "tlapack/blas/asum.hpp"
#include "tlapack/blas/axpy.hpp"
#include "tlapack/blas/copy.hpp"
#include "tlapack/blas/dot.hpp"
#include "tlapack/blas/dotu.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/blas/gemv.hpp"
#include "tlapack/blas/ger.hpp"
#include "tlapack/blas/geru.hpp"
#include "tlapack/blas/hemm.hpp"
#include "tlapack/blas/hemv.hpp"
#include "tlapack/blas/her.hpp"
#include "tlapack/blas/her2.hpp"
#include "tlapack/blas/her2k.hpp"
#include "tlapack/blas/herk.hpp"
#include "tlapack/blas/iamax.hpp"
#include "tlapack/blas/lartg.hpp"
#include "tlapack/blas/nrm2.hpp"
#include "tlapack/blas/rot.hpp"
#include "tlapack/blas/rotg.hpp"
#include "tlapack/blas/rotm.hpp"
#include "tlapack/blas/rotmg.hpp"
#include "tlapack/blas/scal.hpp"
#include "tlapack/blas/swap.hpp"
#include "tlapack/blas/symm.hpp"
#include "tlapack/blas/symv.hpp"
#include "tlapack/blas/syr.hpp"
#include "tlapack/blas/syr2.hpp"
#include "tlapack/blas/syr2k.hpp"
#include "tlapack/blas/syrk.hpp"
#include "tlapack/blas/trmm.hpp"
#include "tlapack/blas/trmv.hpp"
#include "tlapack/blas/trsm.hpp"
#include "tlapack/blas/trsv.hpp"
#include "tlapack/lapack/FrancisOpts.hpp"
#include "tlapack/lapack/aggressive_early_deflation.hpp"
#include "tlapack/lapack/aggressive_early_deflation_generalized.hpp"
#include "tlapack/lapack/bidiag.hpp"
#include "tlapack/lapack/conjugate.hpp"
#include "tlapack/lapack/gebd2.hpp"
#include "tlapack/lapack/gebrd.hpp"
#include "tlapack/lapack/gehd2.hpp"
#include "tlapack/lapack/gehrd.hpp"
#include "tlapack/lapack/gelq2.hpp"
#include "tlapack/lapack/gelqf.hpp"
#include "tlapack/lapack/gelqt.hpp"
#include "tlapack/lapack/gemmtr.hpp"
#include "tlapack/lapack/gen_householder_q.hpp"
#include "tlapack/lapack/generalized_schur_move.hpp"
#include "tlapack/lapack/generalized_schur_swap.hpp"
#include "tlapack/lapack/geql2.hpp"
#include "tlapack/lapack/geqlf.hpp"
#include "tlapack/lapack/geqr2.hpp"
#include "tlapack/lapack/geqrf.hpp"
#include "tlapack/lapack/geqrt3.hpp"
#include "tlapack/lapack/gerq2.hpp"
#include "tlapack/lapack/gerqf.hpp"
#include "tlapack/lapack/gesvd.hpp"
#include "tlapack/lapack/getrf.hpp"
#include "tlapack/lapack/getrf_level0.hpp"
#include "tlapack/lapack/getrf_recursive.hpp"
#include "tlapack/lapack/getri.hpp"
#include "tlapack/lapack/getri_uili.hpp"
#include "tlapack/lapack/getri_uxli.hpp"
#include "tlapack/lapack/gghd3.hpp"
#include "tlapack/lapack/gghrd.hpp"
#include "tlapack/lapack/hasinf.hpp"
#include "tlapack/lapack/hasnan.hpp"
#include "tlapack/lapack/hemm2.hpp"
#include "tlapack/lapack/hessenberg.hpp"
#include "tlapack/lapack/hessenberg_rq.hpp"
#include "tlapack/lapack/hetd2.hpp"
#include "tlapack/lapack/hetf3.hpp"
#include "tlapack/lapack/hetrf.hpp"
#include "tlapack/lapack/hetrf_blocked.hpp"
#include "tlapack/lapack/householder_lq.hpp"
#include "tlapack/lapack/householder_q_mul.hpp"
#include "tlapack/lapack/householder_ql.hpp"
#include "tlapack/lapack/householder_qr.hpp"
#include "tlapack/lapack/householder_rq.hpp"
#include "tlapack/lapack/infnorm_colmajor.hpp"
#include "tlapack/lapack/infnorm_hermitian_colmajor.hpp"
#include "tlapack/lapack/infnorm_symmetric_colmajor.hpp"
#include "tlapack/lapack/infnorm_triangular_colmajor.hpp"
#include "tlapack/lapack/inv_house3.hpp"
#include "tlapack/lapack/labrd.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/ladiv.hpp"
#include "tlapack/lapack/lae2.hpp"
#include "tlapack/lapack/laed2.hpp"
#include "tlapack/lapack/laed4.hpp"
#include "tlapack/lapack/laed5.hpp"
#include "tlapack/lapack/laed6.hpp"
#include "tlapack/lapack/laev2.hpp"
#include "tlapack/lapack/lahqr.hpp"
#include "tlapack/lapack/lahqr_eig22.hpp"
#include "tlapack/lapack/lahqr_schur22.hpp"
#include "tlapack/lapack/lahqr_shiftcolumn.hpp"
#include "tlapack/lapack/lahqz.hpp"
#include "tlapack/lapack/lahqz_eig22.hpp"
#include "tlapack/lapack/lahqz_schur22.hpp"
#include "tlapack/lapack/lahqz_shiftcolumn.hpp"
#include "tlapack/lapack/lahr2.hpp"
#include "tlapack/lapack/lamrg.hpp"
#include "tlapack/lapack/lange.hpp"
#include "tlapack/lapack/lanhe.hpp"
#include "tlapack/lapack/lansy.hpp"
#include "tlapack/lapack/lantr.hpp"
#include "tlapack/lapack/lapy2.hpp"
#include "tlapack/lapack/lapy3.hpp"
#include "tlapack/lapack/larf.hpp"
#include "tlapack/lapack/larfb.hpp"
#include "tlapack/lapack/larfg.hpp"
#include "tlapack/lapack/larft.hpp"
#include "tlapack/lapack/larnv.hpp"
#include "tlapack/lapack/lascl.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/lasrt.hpp"
#include "tlapack/lapack/lassq.hpp"
#include "tlapack/lapack/lasy2.hpp"
#include "tlapack/lapack/lauum_recursive.hpp"
#include "tlapack/lapack/lu_mult.hpp"
#include "tlapack/lapack/move_bulge.hpp"
#include "tlapack/lapack/mult_hehe.hpp"
#include "tlapack/lapack/mult_llh.hpp"
#include "tlapack/lapack/mult_uhu.hpp"
#include "tlapack/lapack/multishift_qr.hpp"
#include "tlapack/lapack/multishift_qr_sweep.hpp"
#include "tlapack/lapack/multishift_qz.hpp"
#include "tlapack/lapack/multishift_qz_sweep.hpp"
#include "tlapack/lapack/pbtrf_with_workspace.hpp"
#include "tlapack/lapack/potf2.hpp"
#include "tlapack/lapack/potrf.hpp"
#include "tlapack/lapack/potrf2.hpp"
#include "tlapack/lapack/potrf_blocked.hpp"
#include "tlapack/lapack/potrf_blocked_right_looking.hpp"
#include "tlapack/lapack/potri.hpp"
#include "tlapack/lapack/potrs.hpp"
#include "tlapack/lapack/pttrf.hpp"
#include "tlapack/lapack/qr_iteration.hpp"
#include "tlapack/lapack/rot_sequence.hpp"
#include "tlapack/lapack/rot_sequence3.hpp"
#include "tlapack/lapack/rscl.hpp"
#include "tlapack/lapack/schur_move.hpp"
#include "tlapack/lapack/schur_swap.hpp"
#include "tlapack/lapack/singularvalues22.hpp"
#include "tlapack/lapack/steqr.hpp"
#include "tlapack/lapack/svd22.hpp"
#include "tlapack/lapack/svd_qr.hpp"
#include "tlapack/lapack/tik_bidiag_elden.hpp"
#include "tlapack/lapack/tik_qr.hpp"
#include "tlapack/lapack/tik_svd.hpp"
#include "tlapack/lapack/tkhnv.hpp"
#include "tlapack/lapack/transpose.hpp"
#include "tlapack/lapack/trevc3.hpp"
#include "tlapack/lapack/trevc3_backsolve.hpp"
#include "tlapack/lapack/trevc3_forwardsolve.hpp"
#include "tlapack/lapack/trevc_backsolve.hpp"
#include "tlapack/lapack/trevc_forwardsolve.hpp"
#include "tlapack/lapack/trevc_protect.hpp"
#include "tlapack/lapack/trge_qr2.hpp"
#include "tlapack/lapack/trge_ung2r.hpp"
#include "tlapack/lapack/trmm_blocked_mixed.hpp"
#include "tlapack/lapack/trmm_out.hpp"
#include "tlapack/lapack/trsm_tri.hpp"
#include "tlapack/lapack/trtri_recursive.hpp"
#include "tlapack/lapack/ul_mult.hpp"
#include "tlapack/lapack/ung2l.hpp"
#include "tlapack/lapack/ung2r.hpp"
#include "tlapack/lapack/ungbr.hpp"
#include "tlapack/lapack/unghr.hpp"
#include "tlapack/lapack/ungl2.hpp"
#include "tlapack/lapack/unglq.hpp"
#include "tlapack/lapack/ungq.hpp"
#include "tlapack/lapack/ungq_level2.hpp"
#include "tlapack/lapack/ungql.hpp"
#include "tlapack/lapack/ungqr.hpp"
#include "tlapack/lapack/ungr2.hpp"
#include "tlapack/lapack/ungrq.hpp"
#include "tlapack/lapack/ungtr.hpp"
#include "tlapack/lapack/unm2l.hpp"
#include "tlapack/lapack/unm2r.hpp"
#include "tlapack/lapack/unmhr.hpp"
#include "tlapack/lapack/unml2.hpp"
#include "tlapack/lapack/unmlq.hpp"
#include "tlapack/lapack/unmq.hpp"
#include "tlapack/lapack/unmq_level2.hpp"
#include "tlapack/lapack/unmql.hpp"
#include "tlapack/lapack/unmqr.hpp"
#include "tlapack/lapack/unmr2.hpp"
#include "tlapack/lapack/unmrq.hpp"
#include "tlapack/lapack/trevc.hpp"
