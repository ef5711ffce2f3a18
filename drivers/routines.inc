// asum.hpp
void E_asum(const V_t& x) { (void)asum(x); }
// axpy.hpp
void E_axpy(const T& alpha, const V_t& x, V_t& y) { (void)axpy(alpha, x, y); }
// copy.hpp
void E_copy(const V_t& x, V_t& y) { (void)copy(x, y); }
// dot.hpp
void E_dot(const V_t& x, const V_t& y) { (void)dot(x, y); }
// dotu.hpp
void E_dotu(const V_t& x, const V_t& y) { (void)dotu(x, y); }
// gemm.hpp
void E_gemm(Op transA, Op transB, const T& alpha, const M_t& A, const M_t& B, const T& beta, M_t& C) { (void)gemm(transA, transB, alpha, A, B, beta, C); }
// gemm.hpp
void E_gemm__3(Op transA, Op transB, const T& alpha, const M_t& A, const M_t& B, M_t& C) { (void)gemm(transA, transB, alpha, A, B, C); }
// gemv.hpp
void E_gemv(Op trans, const T& alpha, const M_t& A, const V_t& x, const T& beta, V_t& y) { (void)gemv(trans, alpha, A, x, beta, y); }
// gemv.hpp
void E_gemv__3(Op trans, const T& alpha, const M_t& A, const V_t& x, V_t& y) { (void)gemv(trans, alpha, A, x, y); }
// ger.hpp
void E_ger(const T& alpha, const V_t& x, const V_t& y, M_t& A) { (void)ger(alpha, x, y, A); }
// geru.hpp
void E_geru(const T& alpha, const V_t& x, const V_t& y, M_t& A) { (void)geru(alpha, x, y, A); }
// hemm.hpp
void E_hemm(Side side, Uplo uplo, const T& alpha, const M_t& A, const M_t& B, const T& beta, M_t& C) { (void)hemm(side, uplo, alpha, A, B, beta, C); }
// hemm.hpp
void E_hemm__3(Side side, Uplo uplo, const T& alpha, const M_t& A, const M_t& B, M_t& C) { (void)hemm(side, uplo, alpha, A, B, C); }
// hemv.hpp
void E_hemv(Uplo uplo, const T& alpha, const M_t& A, const V_t& x, const T& beta, V_t& y) { (void)hemv(uplo, alpha, A, x, beta, y); }
// hemv.hpp
void E_hemv__3(Uplo uplo, const T& alpha, const M_t& A, const V_t& x, V_t& y) { (void)hemv(uplo, alpha, A, x, y); }
// her.hpp
void E_her(Uplo uplo, const R& alpha, const V_t& x, M_t& A) { (void)her(uplo, alpha, x, A); }
// her2.hpp
void E_her2(Uplo uplo, const T& alpha, const V_t& x, const V_t& y, M_t& A) { (void)her2(uplo, alpha, x, y, A); }
// her2k.hpp
void E_her2k(Uplo uplo, Op trans, const T& alpha, const M_t& A, const M_t& B, const R& beta, M_t& C) { (void)her2k(uplo, trans, alpha, A, B, beta, C); }
// her2k.hpp
void E_her2k__3(Uplo uplo, Op trans, const T& alpha, const M_t& A, const M_t& B, M_t& C) { (void)her2k(uplo, trans, alpha, A, B, C); }
// herk.hpp
void E_herk(Uplo uplo, Op trans, const R& alpha, const M_t& A, const R& beta, M_t& C) { (void)herk(uplo, trans, alpha, A, beta, C); }
// herk.hpp
void E_herk__3(Uplo uplo, Op trans, const R& alpha, const M_t& A, M_t& C) { (void)herk(uplo, trans, alpha, A, C); }
// iamax.hpp
void E_iamax(const V_t& x) { (void)iamax(x); }
void E_iamax_ec(const V_t& x, R (*absf)(const T&)) { (void)iamax_ec(x, absf); }
void E_iamax_nc(const V_t& x, R (*absf)(const T&)) { (void)iamax_nc(x, absf); }
// lartg.hpp
#ifdef DRV_REAL
void E_lartg(const T& a, const T& b, R& c, T& s, T& r) { (void)lartg(a, b, c, s, r); }
#endif
// nrm2.hpp
void E_nrm2(const V_t& x) { (void)nrm2(x); }
// rot.hpp
void E_rot(V_t& x, V_t& y, R c, T s) { (void)rot(x, y, c, s); }
// rotg.hpp
#ifdef DRV_REAL
void E_rotg(T& a, T& b, T& c, T& s) { (void)rotg(a, b, c, s); }
#endif
// rotg.hpp
#ifndef DRV_REAL
void E_rotg__2(T& a, const T& b, R& c, T& s) { (void)rotg(a, b, c, s); } // COMPLEX
#endif
// rotm.hpp
#ifdef DRV_REAL
void E_rotm_m2(V_t& x, V_t& y, const T h[4]) { (void)rotm<-2>(x, y, h); }
#endif
#ifdef DRV_REAL
void E_rotm_m1(V_t& x, V_t& y, const T h[4]) { (void)rotm<-1>(x, y, h); }
#endif
#ifdef DRV_REAL
void E_rotm_0(V_t& x, V_t& y, const T h[4]) { (void)rotm<0>(x, y, h); }
#endif
#ifdef DRV_REAL
void E_rotm_1(V_t& x, V_t& y, const T h[4]) { (void)rotm<1>(x, y, h); }
#endif

// rotmg.hpp
#ifdef DRV_REAL
void E_rotmg(T& d1, T& d2, T& a, const T& b, T h[4]) { (void)rotmg(d1, d2, a, b, h); }
#endif
// rotmg.hpp
#ifdef DRV_REAL
void E_rotmg__2(T& d1, T& d2, T& a, const T b, T h[4]) { (void)rotmg(d1, d2, a, b, h); }
#endif
// scal.hpp
void E_scal(const T& alpha, V_t& x) { (void)scal(alpha, x); }
// swap.hpp
void E_swap(V_t& x, V_t& y) { (void)swap(x, y); }
// symm.hpp
void E_symm(Side side, Uplo uplo, const T& alpha, const M_t& A, const M_t& B, const T& beta, M_t& C) { (void)symm(side, uplo, alpha, A, B, beta, C); }
// symm.hpp
void E_symm__3(Side side, Uplo uplo, const T& alpha, const M_t& A, const M_t& B, M_t& C) { (void)symm(side, uplo, alpha, A, B, C); }
// symv.hpp
void E_symv(Uplo uplo, const T& alpha, const M_t& A, const V_t& x, const T& beta, V_t& y) { (void)symv(uplo, alpha, A, x, beta, y); }
// symv.hpp
void E_symv__3(Uplo uplo, const T& alpha, const M_t& A, const V_t& x, V_t& y) { (void)symv(uplo, alpha, A, x, y); }
// syr.hpp
void E_syr(Uplo uplo, const T& alpha, const V_t& x, M_t& A) { (void)syr(uplo, alpha, x, A); }
// syr2.hpp
void E_syr2(Uplo uplo, const T& alpha, const V_t& x, const V_t& y, M_t& A) { (void)syr2(uplo, alpha, x, y, A); }
// syr2k.hpp
void E_syr2k(Uplo uplo, Op trans, const T& alpha, const M_t& A, const M_t& B, const T& beta, M_t& C) { (void)syr2k(uplo, trans, alpha, A, B, beta, C); }
// syr2k.hpp
void E_syr2k__3(Uplo uplo, Op trans, const T& alpha, const M_t& A, const M_t& B, M_t& C) { (void)syr2k(uplo, trans, alpha, A, B, C); }
// syrk.hpp
void E_syrk(Uplo uplo, Op trans, const T& alpha, const M_t& A, const T& beta, M_t& C) { (void)syrk(uplo, trans, alpha, A, beta, C); }
// syrk.hpp
void E_syrk__3(Uplo uplo, Op trans, const T& alpha, const M_t& A, M_t& C) { (void)syrk(uplo, trans, alpha, A, C); }
// trmm.hpp
void E_trmm(Side side, Uplo uplo, Op trans, Diag diag, const T& alpha, const M_t& A, M_t& B) { (void)trmm(side, uplo, trans, diag, alpha, A, B); }
// trmv.hpp
void E_trmv(Uplo uplo, Op trans, Diag diag, const M_t& A, V_t& x) { (void)trmv(uplo, trans, diag, A, x); }
// trsm.hpp
void E_trsm(Side side, Uplo uplo, Op trans, Diag diag, const T& alpha, const M_t& A, M_t& B) { (void)trsm(side, uplo, trans, diag, alpha, A, B); }
// trsv.hpp
void E_trsv(Uplo uplo, Op trans, Diag diag, const M_t& A, V_t& x) { (void)trsv(uplo, trans, diag, A, x); }
// aggressive_early_deflation.hpp
void E_aggressive_early_deflation_worksize(bool want_t, bool want_z, idx_t ilo, idx_t ihi, idx_t nw, const M_t& A, const CV_t& s, const M_t& Z, const idx_t& ns, const idx_t& nd, const FrancisOpts& opts) { (void)aggressive_early_deflation_worksize<T>(want_t, want_z, ilo, ihi, nw, A, s, Z, ns, nd, opts); }
// aggressive_early_deflation.hpp
void E_aggressive_early_deflation_work(bool want_t, bool want_z, idx_t ilo, idx_t ihi, idx_t nw, M_t& A, CV_t& s, M_t& Z, idx_t& ns, idx_t& nd, M_t& work, FrancisOpts& opts) { (void)aggressive_early_deflation_work(want_t, want_z, ilo, ihi, nw, A, s, Z, ns, nd, work, opts); }
// aggressive_early_deflation.hpp
void E_aggressive_early_deflation_work__2(bool want_t, bool want_z, idx_t ilo, idx_t ihi, idx_t nw, M_t& A, CV_t& s, M_t& Z, idx_t& ns, idx_t& nd, M_t& work) { (void)aggressive_early_deflation_work(want_t, want_z, ilo, ihi, nw, A, s, Z, ns, nd, work); }
// aggressive_early_deflation.hpp
void E_aggressive_early_deflation(bool want_t, bool want_z, idx_t ilo, idx_t ihi, idx_t nw, M_t& A, CV_t& s, M_t& Z, idx_t& ns, idx_t& nd, FrancisOpts& opts) { (void)aggressive_early_deflation(want_t, want_z, ilo, ihi, nw, A, s, Z, ns, nd, opts); }
// aggressive_early_deflation.hpp
void E_aggressive_early_deflation__2(bool want_t, bool want_z, idx_t ilo, idx_t ihi, idx_t nw, M_t& A, CV_t& s, M_t& Z, idx_t& ns, idx_t& nd) { (void)aggressive_early_deflation(want_t, want_z, ilo, ihi, nw, A, s, Z, ns, nd); }
// aggressive_early_deflation_generalized.hpp
void E_aggressive_early_deflation_generalized(bool want_s, bool want_q, bool want_z, idx_t ilo, idx_t ihi, idx_t nw, M_t& A, M_t& B, CV_t& alpha, V_t& beta, M_t& Q, M_t& Z, idx_t& ns, idx_t& nd, FrancisOpts& opts) { (void)aggressive_early_deflation_generalized(want_s, want_q, want_z, ilo, ihi, nw, A, B, alpha, beta, Q, Z, ns, nd, opts); }
// bidiag.hpp
void E_bidiag_worksize(const M_t& A, const V_t& tauv, const V_t& tauw, const BidiagOpts& opts) { (void)bidiag_worksize<T>(A, tauv, tauw, opts); }
// bidiag.hpp
void E_bidiag_work(M_t& A, V_t& tauv, V_t& tauw, M_t& work, const BidiagOpts& opts) { (void)bidiag_work(A, tauv, tauw, work, opts); }
// bidiag.hpp
void E_bidiag(M_t& A, V_t& tauv, V_t& tauw, const BidiagOpts& opts) { (void)bidiag(A, tauv, tauw, opts); }
// conjugate.hpp
void E_conjugate(V_t& x) { (void)conjugate(x); }
// gebd2.hpp
void E_gebd2_worksize(const M_t& A, const V_t& tauv, const V_t& tauw) { (void)gebd2_worksize<T>(A, tauv, tauw); }
// gebd2.hpp
void E_gebd2_work(M_t& A, V_t& tauv, V_t& tauw, M_t& work) { (void)gebd2_work(A, tauv, tauw, work); }
// gebd2.hpp
void E_gebd2(M_t& A, V_t& tauv, V_t& tauw) { (void)gebd2(A, tauv, tauw); }
// gebrd.hpp
void E_gebrd_worksize(const M_t& A, const V_t& tauq, const V_t& taup, const GebrdOpts& opts) { (void)gebrd_worksize<T>(A, tauq, taup, opts); }
// gebrd.hpp
void E_gebrd_work(M_t& A, V_t& tauv, V_t& tauw, M_t& work, const GebrdOpts& opts) { (void)gebrd_work(A, tauv, tauw, work, opts); }
// gebrd.hpp
void E_gebrd(M_t& A, V_t& tauv, V_t& tauw, const GebrdOpts& opts) { (void)gebrd(A, tauv, tauw, opts); }
// gehd2.hpp
void E_gehd2_worksize(idx_t ilo, idx_t ihi, const M_t& A, const V_t& tau) { (void)gehd2_worksize<T>(ilo, ihi, A, tau); }
// gehd2.hpp
void E_gehd2_work(idx_t ilo, idx_t ihi, M_t& A, V_t& tau, M_t& work) { (void)gehd2_work(ilo, ihi, A, tau, work); }
// gehd2.hpp
void E_gehd2(idx_t ilo, idx_t ihi, M_t& A, V_t& tau) { (void)gehd2(ilo, ihi, A, tau); }
// gehrd.hpp
void E_gehrd_worksize(idx_t ilo, idx_t ihi, const M_t& A, const V_t& tau, const GehrdOpts& opts) { (void)gehrd_worksize<T>(ilo, ihi, A, tau, opts); }
// gehrd.hpp
void E_gehrd_work(idx_t ilo, idx_t ihi, M_t& A, V_t& tau, M_t& work, const GehrdOpts& opts) { (void)gehrd_work(ilo, ihi, A, tau, work, opts); }
// gehrd.hpp
void E_gehrd(idx_t ilo, idx_t ihi, M_t& A, V_t& tau, const GehrdOpts& opts) { (void)gehrd(ilo, ihi, A, tau, opts); }
// gelq2.hpp
void E_gelq2_worksize(const M_t& A, const V_t& tauw) { (void)gelq2_worksize<T>(A, tauw); }
// gelq2.hpp
void E_gelq2_work(M_t& A, V_t& tauw, M_t& work) { (void)gelq2_work(A, tauw, work); }
// gelq2.hpp
void E_gelq2(M_t& A, V_t& tauw) { (void)gelq2(A, tauw); }
// gelqf.hpp
void E_gelqf_worksize(const M_t& A, const V_t& tau, const GelqfOpts& opts) { (void)gelqf_worksize<T>(A, tau, opts); }
// gelqf.hpp
void E_gelqf_work(M_t& A, V_t& tau, M_t& work, const GelqfOpts& opts) { (void)gelqf_work(A, tau, work, opts); }
// gelqf.hpp
void E_gelqf(M_t& A, V_t& tau, const GelqfOpts& opts) { (void)gelqf(A, tau, opts); }
// gelqt.hpp
void E_gelqt_worksize(const M_t& A, const M_t& TT) { (void)gelqt_worksize<T>(A, TT); }
// gelqt.hpp
void E_gelqt_work(M_t& A, M_t& TT, M_t& work) { (void)gelqt_work(A, TT, work); }
// gelqt.hpp
void E_gelqt(M_t& A, M_t& TT) { (void)gelqt(A, TT); }
// gemmtr.hpp
void E_gemmtr(Uplo uplo, Op transA, Op transB, const T& alpha, const M_t& A, const M_t& B, const T& beta, M_t& C) { (void)gemmtr(uplo, transA, transB, alpha, A, B, beta, C); }
// gen_householder_q.hpp
void E_gen_householder_q_worksize(Direction direction, StoreV storeMode, const M_t& A, const V_t& tau, const GenHouseholderQOpts& opts) { (void)gen_householder_q_worksize<T>(direction, storeMode, A, tau, opts); }
// gen_householder_q.hpp
void E_gen_householder_q_work(Direction direction, StoreV storeMode, M_t& A, const V_t& tau, M_t& work, const GenHouseholderQOpts& opts) { (void)gen_householder_q_work(direction, storeMode, A, tau, work, opts); }
// gen_householder_q.hpp
void E_gen_householder_q(Direction direction, StoreV storeMode, M_t& A, const V_t& tau, const GenHouseholderQOpts& opts) { (void)gen_householder_q(direction, storeMode, A, tau, opts); }
// generalized_schur_move.hpp
void E_generalized_schur_move(bool want_q, bool want_z, M_t& A, M_t& B, M_t& Q, M_t& Z, idx_t& ifst, idx_t& ilst) { (void)generalized_schur_move(want_q, want_z, A, B, Q, Z, ifst, ilst); }
// generalized_schur_swap.hpp
void E_generalized_schur_swap(bool want_q, bool want_z, M_t& A, M_t& B, M_t& Q, M_t& Z, const idx_t& j0, const idx_t& n1, const idx_t& n2) { (void)generalized_schur_swap(want_q, want_z, A, B, Q, Z, j0, n1, n2); }
// geql2.hpp
void E_geql2_worksize(const M_t& A, const V_t& tau) { (void)geql2_worksize<T>(A, tau); }
// geql2.hpp
void E_geql2_work(M_t& A, V_t& tau, M_t& work) { (void)geql2_work(A, tau, work); }
// geql2.hpp
void E_geql2(M_t& A, V_t& tau) { (void)geql2(A, tau); }
// geqlf.hpp
void E_geqlf_worksize(const M_t& A, const V_t& tau, const GeqlfOpts& opts) { (void)geqlf_worksize<T>(A, tau, opts); }
// geqlf.hpp
void E_geqlf_work(M_t& A, V_t& tau, M_t& work, const GeqlfOpts& opts) { (void)geqlf_work(A, tau, work, opts); }
// geqlf.hpp
void E_geqlf(M_t& A, V_t& tau, const GeqlfOpts& opts) { (void)geqlf(A, tau, opts); }
// geqr2.hpp
void E_geqr2_worksize(const M_t& A, const V_t& tau) { (void)geqr2_worksize<T>(A, tau); }
// geqr2.hpp
void E_geqr2_work(M_t& A, V_t& tau, M_t& work) { (void)geqr2_work(A, tau, work); }
// geqr2.hpp
void E_geqr2(M_t& A, V_t& tau) { (void)geqr2(A, tau); }
// geqrf.hpp
void E_geqrf_worksize(const M_t& A, const V_t& tau, const GeqrfOpts& opts) { (void)geqrf_worksize<T>(A, tau, opts); }
// geqrf.hpp
void E_geqrf_work(M_t& A, V_t& tau, M_t& work, const GeqrfOpts& opts) { (void)geqrf_work(A, tau, work, opts); }
// geqrf.hpp
void E_geqrf(M_t& A, V_t& tau, const GeqrfOpts& opts) { (void)geqrf(A, tau, opts); }
// geqrt3.hpp
void E_geqrt3(M_t& A, M_t& Tmatrix, const Geqrt3Opts& opts) { (void)geqrt3(A, Tmatrix, opts); }
// gerq2.hpp
void E_gerq2_worksize(const M_t& A, const V_t& tau) { (void)gerq2_worksize<T>(A, tau); }
// gerq2.hpp
void E_gerq2_work(M_t& A, V_t& tau, M_t& work) { (void)gerq2_work(A, tau, work); }
// gerq2.hpp
void E_gerq2(M_t& A, V_t& tau) { (void)gerq2(A, tau); }
// gerqf.hpp
void E_gerqf_worksize(const M_t& A, const V_t& tau, const GerqfOpts& opts) { (void)gerqf_worksize<T>(A, tau, opts); }
// gerqf.hpp
void E_gerqf_work(M_t& A, V_t& tau, M_t& work, const GerqfOpts& opts) { (void)gerqf_work(A, tau, work, opts); }
// gerqf.hpp
void E_gerqf(M_t& A, V_t& tau, const GerqfOpts& opts) { (void)gerqf(A, tau, opts); }
// gesvd.hpp
void E_gesvd(bool want_u, bool want_vt, M_t& A, RV_t& s, M_t& U, M_t& Vt, const GesvdOpts& opts) { (void)gesvd(want_u, want_vt, A, s, U, Vt, opts); }
// getrf.hpp
void E_getrf(M_t& A, IV_t& piv, const GetrfOpts& opts) { (void)getrf(A, piv, opts); }
// getrf_level0.hpp
void E_getrf_level0(M_t& A, IV_t& piv) { (void)getrf_level0(A, piv); }
// getrf_recursive.hpp
void E_getrf_recursive(M_t& A, IV_t& piv) { (void)getrf_recursive(A, piv); }
// getri.hpp
void E_getri_worksize(const M_t& A, const IV_t& piv, const GetriOpts& opts) { (void)getri_worksize<T>(A, piv, opts); }
// getri.hpp
void E_getri_work(M_t& A, const IV_t& piv, M_t& work, const GetriOpts& opts) { (void)getri_work(A, piv, work, opts); }
// getri.hpp
void E_getri(M_t& A, const IV_t& piv, const GetriOpts& opts) { (void)getri(A, piv, opts); }
// getri_uili.hpp
void E_getri_uili(M_t& A) { (void)getri_uili(A); }
// getri_uxli.hpp
void E_getri_uxli_worksize(const M_t& A) { (void)getri_uxli_worksize<T>(A); }
// getri_uxli.hpp
void E_getri_uxli_work(M_t& A, M_t& work) { (void)getri_uxli_work(A, work); }
// getri_uxli.hpp
void E_getri_uxli(M_t& A) { (void)getri_uxli(A); }
// gghd3.hpp
void E_gghd3(bool wantq, bool wantz, idx_t ilo, idx_t ihi, M_t& A, M_t& B, M_t& Q, M_t& Z, const Gghd3Opts& opts) { (void)gghd3(wantq, wantz, ilo, ihi, A, B, Q, Z, opts); }
// gghrd.hpp
void E_gghrd(bool wantq, bool wantz, idx_t ilo, idx_t ihi, M_t& A, M_t& B, M_t& Q, M_t& Z) { (void)gghrd(wantq, wantz, ilo, ihi, A, B, Q, Z); }
// hasinf.hpp
void E_hasinf(Uplo uplo, const M_t& A) { (void)hasinf(uplo, A); }
// hasinf.hpp
void E_hasinf__2(BandAccess accessType, const M_t& A) { (void)hasinf(accessType, A); }
// hasinf.hpp
void E_hasinf__3(const V_t& x) { (void)hasinf(x); }
// hasnan.hpp
void E_hasnan(Uplo uplo, const M_t& A) { (void)hasnan(uplo, A); }
// hasnan.hpp
void E_hasnan__2(BandAccess accessType, const M_t& A) { (void)hasnan(accessType, A); }
// hasnan.hpp
void E_hasnan__3(const V_t& x) { (void)hasnan(x); }
// hemm2.hpp
void E_hemm2(Side side, Uplo uplo, Op transB, const T& alpha, const M_t& A, const M_t& B, const T& beta, M_t& C) { (void)hemm2(side, uplo, transB, alpha, A, B, beta, C); }
// hessenberg.hpp
void E_hessenberg_worksize(idx_t ilo, idx_t ihi, const M_t& A, const V_t& tau, const HessenbergOpts& opts) { (void)hessenberg_worksize<T>(ilo, ihi, A, tau, opts); }
// hessenberg.hpp
void E_hessenberg_work(idx_t ilo, idx_t ihi, M_t& A, V_t& tau, M_t& work, const HessenbergOpts& opts) { (void)hessenberg_work(ilo, ihi, A, tau, work, opts); }
// hessenberg.hpp
void E_hessenberg(idx_t ilo, idx_t ihi, M_t& A, V_t& tau, const HessenbergOpts& opts) { (void)hessenberg(ilo, ihi, A, tau, opts); }
// hessenberg_rq.hpp
void E_hessenberg_rq(M_t& T, RV_t& cl, V_t& sl, RV_t& cr, V_t& sr) { (void)hessenberg_rq(T, cl, sl, cr, sr); }
// hetd2.hpp
void E_hetd2(Uplo uplo, M_t& A, V_t& tau) { (void)hetd2(uplo, A, tau); }
// hetf3.hpp
void E_hetf3(Uplo uplo, M_t& A, SV_t& ipiv, M_t& work, const BlockedLDLOpts& opts) { (void)hetf3(uplo, A, ipiv, work, opts); }
// hetrf.hpp
void E_hetrf_work(Uplo uplo, M_t& A, SV_t& ipiv, M_t& work, const HetrfOpts& opts) { (void)hetrf_work(uplo, A, ipiv, work, opts); }
// hetrf.hpp
void E_hetrf(Uplo uplo, M_t& A, SV_t& ipiv, const HetrfOpts& opts) { (void)hetrf(uplo, A, ipiv, opts); }
// hetrf_blocked.hpp
void E_hetrf_blocked_worksize(const M_t& A, const BlockedLDLOpts& opts) { (void)hetrf_blocked_worksize<T>(A, opts); }
// hetrf_blocked.hpp
void E_hetrf_blocked_work(Uplo uplo, M_t& A, SV_t& ipiv, M_t& work, const BlockedLDLOpts& opts) { (void)hetrf_blocked_work(uplo, A, ipiv, work, opts); }
// hetrf_blocked.hpp
void E_hetrf_blocked(Uplo uplo, M_t& A, SV_t& ipiv, const BlockedLDLOpts& opts) { (void)hetrf_blocked(uplo, A, ipiv, opts); }
// hetrf_blocked.hpp
void E_hetrf_blocked__2(Uplo uplo, M_t& A, SV_t& ipiv) { (void)hetrf_blocked(uplo, A, ipiv); }
// householder_lq.hpp
void E_householder_lq_worksize(const M_t& A, const V_t& tau, const HouseholderLQOpts& opts) { (void)householder_lq_worksize<T>(A, tau, opts); }
// householder_lq.hpp
void E_householder_lq_work(M_t& A, V_t& tau, M_t& work, const HouseholderLQOpts& opts) { (void)householder_lq_work(A, tau, work, opts); }
// householder_lq.hpp
void E_householder_lq(M_t& A, V_t& tau, const HouseholderLQOpts& opts) { (void)householder_lq(A, tau, opts); }
// householder_q_mul.hpp
void E_householder_q_mul_worksize(Side side, Op trans, Direction direction, StoreV storeMode, const M_t& V, const V_t& tau, const M_t& C, const HouseholderQMulOpts& opts) { (void)householder_q_mul_worksize<T>(side, trans, direction, storeMode, V, tau, C, opts); }
// householder_q_mul.hpp
void E_householder_q_mul_work(Side side, Op trans, Direction direction, StoreV storeMode, const M_t& V, const V_t& tau, M_t& C, M_t& work, const HouseholderQMulOpts& opts) { (void)householder_q_mul_work(side, trans, direction, storeMode, V, tau, C, work, opts); }
// householder_q_mul.hpp
void E_householder_q_mul(Side side, Op trans, Direction direction, StoreV storeMode, const M_t& V, const V_t& tau, M_t& C, const HouseholderQMulOpts& opts) { (void)householder_q_mul(side, trans, direction, storeMode, V, tau, C, opts); }
// householder_ql.hpp
void E_householder_ql_worksize(const M_t& A, const V_t& tau, const HouseholderQLOpts& opts) { (void)householder_ql_worksize<T>(A, tau, opts); }
// householder_ql.hpp
void E_householder_ql_work(M_t& A, V_t& tau, M_t& work, const HouseholderQLOpts& opts) { (void)householder_ql_work(A, tau, work, opts); }
// householder_ql.hpp
void E_householder_ql(M_t& A, V_t& tau, const HouseholderQLOpts& opts) { (void)householder_ql(A, tau, opts); }
// householder_qr.hpp
void E_householder_qr_worksize(const M_t& A, const V_t& tau, const HouseholderQROpts& opts) { (void)householder_qr_worksize<T>(A, tau, opts); }
// householder_qr.hpp
void E_householder_qr_work(M_t& A, V_t& tau, M_t& work, const HouseholderQROpts& opts) { (void)householder_qr_work(A, tau, work, opts); }
// householder_qr.hpp
void E_householder_qr(M_t& A, V_t& tau, const HouseholderQROpts& opts) { (void)householder_qr(A, tau, opts); }
// householder_rq.hpp
void E_householder_rq_worksize(const M_t& A, const V_t& tau, const HouseholderRQOpts& opts) { (void)householder_rq_worksize<T>(A, tau, opts); }
// householder_rq.hpp
void E_householder_rq_work(M_t& A, V_t& tau, M_t& work, const HouseholderRQOpts& opts) { (void)householder_rq_work(A, tau, work, opts); }
// householder_rq.hpp
void E_householder_rq(M_t& A, V_t& tau, const HouseholderRQOpts& opts) { (void)householder_rq(A, tau, opts); }
// infnorm_colmajor.hpp
void E_infnorm_colmajor_worksize(const M_t& A) { (void)infnorm_colmajor_worksize<T>(A); }
// infnorm_colmajor.hpp
void E_infnorm_colmajor_work(const M_t& A, M_t& work) { (void)infnorm_colmajor_work(A, work); }
// infnorm_colmajor.hpp
void E_infnorm_colmajor(const M_t& A) { (void)infnorm_colmajor(A); }
// infnorm_hermitian_colmajor.hpp
void E_infnorm_hermitian_colmajor_worksize(Uplo uplo, const M_t& A) { (void)infnorm_hermitian_colmajor_worksize<T>(uplo, A); }
// infnorm_hermitian_colmajor.hpp
void E_infnorm_hermitian_colmajor_work(Uplo uplo, const M_t& A, M_t& work) { (void)infnorm_hermitian_colmajor_work(uplo, A, work); }
// infnorm_hermitian_colmajor.hpp
void E_infnorm_hermitian_colmajor(Uplo uplo, const M_t& A) { (void)infnorm_hermitian_colmajor(uplo, A); }
// infnorm_symmetric_colmajor.hpp
void E_infnorm_symmetric_colmajor_worksize(Uplo uplo, const M_t& A) { (void)infnorm_symmetric_colmajor_worksize<T>(uplo, A); }
// infnorm_symmetric_colmajor.hpp
void E_infnorm_symmetric_colmajor_work(Uplo uplo, const M_t& A, M_t& work) { (void)infnorm_symmetric_colmajor_work(uplo, A, work); }
// infnorm_symmetric_colmajor.hpp
void E_infnorm_symmetric_colmajor(Uplo uplo, const M_t& A) { (void)infnorm_symmetric_colmajor(uplo, A); }
// infnorm_triangular_colmajor.hpp
void E_infnorm_triangular_colmajor_worksize(Uplo uplo, Diag diag, const M_t& A) { (void)infnorm_triangular_colmajor_worksize<T>(uplo, diag, A); }
// infnorm_triangular_colmajor.hpp
void E_infnorm_triangular_colmajor_work(Uplo uplo, Diag diag, const M_t& A, M_t& work) { (void)infnorm_triangular_colmajor_work(uplo, diag, A, work); }
// infnorm_triangular_colmajor.hpp
void E_infnorm_triangular_colmajor(Uplo uplo, Diag diag, const M_t& A) { (void)infnorm_triangular_colmajor(uplo, diag, A); }
// inv_house3.hpp
void E_inv_house3(const M_t& A, V_t& v, T& tau) { (void)inv_house3(A, v, tau); }
// labrd.hpp
void E_labrd(M_t& A, V_t& tauq, V_t& taup, M_t& X, M_t& Y) { (void)labrd(A, tauq, taup, X, Y); }
// lacpy.hpp
void E_lacpy(Uplo uplo, const M_t& A, M_t& B) { (void)lacpy(uplo, A, B); }
// ladiv.hpp
void E_ladiv(const R& a, const R& b, const R& c, const R& d, R& p, R& q) { (void)ladiv(a, b, c, d, p, q); }
// ladiv.hpp
#ifndef DRV_REAL
void E_ladiv__2(const T& x, const T& y) { (void)ladiv(x, y); }
#endif
// lae2.hpp
#ifdef DRV_REAL
void E_lae2(T a, T b, T c, T& s1, T& s2) { (void)lae2(a, b, c, s1, s2); }
#endif
// laev2.hpp
#ifdef DRV_REAL
void E_laev2(T a, T b, T c, T& s1, T& s2, T& cs, T& sn) { (void)laev2(a, b, c, s1, s2, cs, sn); }
#endif
// lahqr.hpp
void E_lahqr(bool want_t, bool want_z, idx_t ilo, idx_t ihi, M_t& A, CV_t& w, M_t& Z) { (void)lahqr(want_t, want_z, ilo, ihi, A, w, Z); }
// lahqr_eig22.hpp
void E_lahqr_eig22(T a00, T a01, T a10, T a11, CT& s1, CT& s2) { (void)lahqr_eig22(a00, a01, a10, a11, s1, s2); }
// lahqr_schur22.hpp
#ifdef DRV_REAL
void E_lahqr_schur22(T& a, T& b, T& c, T& d, CT& s1, CT& s2, T& cs, T& sn) { (void)lahqr_schur22(a, b, c, d, s1, s2, cs, sn); }
#endif
// lahqr_shiftcolumn.hpp
void E_lahqr_shiftcolumn(const M_t& H, V_t& v, CT s1, CT s2) { (void)lahqr_shiftcolumn(H, v, s1, s2); }
// lahqr_shiftcolumn.hpp
void E_lahqr_shiftcolumn__2(const M_t& H, V_t& v, T s1, T s2) { (void)lahqr_shiftcolumn(H, v, s1, s2); }
// lahqz.hpp
void E_lahqz(bool want_s, bool want_q, bool want_z, idx_t ilo, idx_t ihi, M_t& A, M_t& B, CV_t& alpha, V_t& beta, M_t& Q, M_t& Z) { (void)lahqz(want_s, want_q, want_z, ilo, ihi, A, B, alpha, beta, Q, Z); }
// lahqz_eig22.hpp
void E_lahqz_eig22(const M_t& A, const M_t& B, CT& alpha1, CT& alpha2, T& beta1, T& beta2) { (void)lahqz_eig22(A, B, alpha1, alpha2, beta1, beta2); }
// lahqz_schur22.hpp
void E_lahqz_schur22(M_t& A, M_t& B, CT& alpha1, CT& alpha2, R& beta1, R& beta2, R& cl, T& sl, R& cr, T& sr, T& scal0, T& scal1) { (void)lahqz_schur22(A, B, alpha1, alpha2, beta1, beta2, cl, sl, cr, sr, scal0, scal1); }
// lahqz_shiftcolumn.hpp
void E_lahqz_shiftcolumn(const M_t& A, const M_t& B, V_t& v, CT s1, CT s2, T beta1, T beta2) { (void)lahqz_shiftcolumn(A, B, v, s1, s2, beta1, beta2); }
// lahr2.hpp
void E_lahr2(idx_t k, idx_t nb, M_t& A, V_t& tau, M_t& T, M_t& Y) { (void)lahr2(k, nb, A, tau, T, Y); }
// lange.hpp
void E_lange(Norm normType, const M_t& A) { (void)lange(normType, A); }
// lanhe.hpp
void E_lanhe(Norm normType, Uplo uplo, const M_t& A) { (void)lanhe(normType, uplo, A); }
// lansy.hpp
void E_lansy(Norm normType, Uplo uplo, const M_t& A) { (void)lansy(normType, uplo, A); }
// lantr.hpp
void E_lantr(Norm normType, Uplo uplo, Diag diag, const M_t& A) { (void)lantr(normType, uplo, diag, A); }
// lapy2.hpp
void E_lapy2(const R& x, const R& y) { (void)lapy2(x, y); }
// lapy3.hpp
void E_lapy3(const R& x, const R& y, const R& z) { (void)lapy3(x, y, z); }
// larf.hpp
void E_larf_work(Side side, StoreV storeMode, const V_t& x, const T& tau, V_t& C0, M_t& C1, M_t& work) { (void)larf_work(side, storeMode, x, tau, C0, C1, work); }
// larf.hpp
void E_larf_worksize(Side side, StoreV storeMode, const V_t& x, const T& tau, const V_t& C0, const M_t& C1) { (void)larf_worksize<T>(side, storeMode, x, tau, C0, C1); }
// larf.hpp
void E_larf(Side side, StoreV storeMode, const V_t& x, const T& tau, V_t& C0, M_t& C1) { (void)larf(side, storeMode, x, tau, C0, C1); }
// larf.hpp
void E_larf_work__2(Side side, Direction direction, StoreV storeMode, const V_t& v, const T& tau, M_t& C, M_t& work) { (void)larf_work(side, direction, storeMode, v, tau, C, work); }
// larf.hpp
void E_larf_worksize__2(Side side, Direction direction, StoreV storeMode, const V_t& v, const T& tau, const M_t& C) { (void)larf_worksize<T>(side, direction, storeMode, v, tau, C); }
// larf.hpp
void E_larf__2(Side side, Direction direction, StoreV storeMode, const V_t& v, const T& tau, M_t& C) { (void)larf(side, direction, storeMode, v, tau, C); }
// larfb.hpp
void E_larfb_worksize(Side side, Op trans, Direction direction, StoreV storeMode, const M_t& V, const M_t& Tmatrix, const M_t& C) { (void)larfb_worksize<T>(side, trans, direction, storeMode, V, Tmatrix, C); }
// larfb.hpp
void E_larfb_work(Side side, Op trans, Direction direction, StoreV storeMode, const M_t& V, const M_t& Tmatrix, M_t& C, M_t& work) { (void)larfb_work(side, trans, direction, storeMode, V, Tmatrix, C, work); }
// larfb.hpp
void E_larfb(Side side, Op trans, Direction direction, StoreV storeMode, const M_t& V, const M_t& Tmatrix, M_t& C) { (void)larfb(side, trans, direction, storeMode, V, Tmatrix, C); }
// larfg.hpp
void E_larfg(StoreV storeMode, T& alpha, V_t& x, T& tau) { (void)larfg(storeMode, alpha, x, tau); }
// larfg.hpp
void E_larfg__2(Direction direction, StoreV storeMode, V_t& v, T& tau) { (void)larfg(direction, storeMode, v, tau); }
// larft.hpp
void E_larft(Direction direction, StoreV storeMode, const M_t& V, const V_t& tau, M_t& T) { (void)larft(direction, storeMode, V, tau, T); }
// lascl.hpp
void E_lascl(Uplo uplo, const R& b, const R& a, M_t& A) { (void)lascl(uplo, b, a, A); }
// lascl.hpp
void E_lascl__2(BandAccess accessType, const R& b, const R& a, M_t& A) { (void)lascl(accessType, b, a, A); }
// laset.hpp
void E_laset(Uplo uplo, const T& alpha, const T& beta, M_t& A) { (void)laset(uplo, alpha, beta, A); }
// lasrt.hpp
void E_lasrt(char id, idx_t n, RV_t& d) { (void)lasrt(id, n, d); }
// lassq.hpp
void E_lassq(const V_t& x, R& scale, R& sumsq) { (void)lassq(x, scale, sumsq); }
// lasy2.hpp
#ifdef DRV_REAL
void E_lasy2(Op trans_l, Op trans_r, int isign, const M_t& TL, const M_t& TR, const M_t& B, T& scale, M_t& X, T& xnorm) { (void)lasy2(trans_l, trans_r, isign, TL, TR, B, scale, X, xnorm); }
#endif
// lauum_recursive.hpp
void E_lauum_recursive(const Uplo& uplo, M_t& C) { (void)lauum_recursive(uplo, C); }
// lu_mult.hpp
void E_lu_mult(M_t& A, const LuMultOpts& opts) { (void)lu_mult(A, opts); }
// move_bulge.hpp
void E_move_bulge(M_t& H, V_t& v, CT s1, CT s2) { (void)move_bulge(H, v, s1, s2); }
// mult_hehe.hpp
void E_mult_hehe(Uplo uplo, const T& alpha, M_t& A, M_t& B, const T& beta, M_t& C) { (void)mult_hehe(uplo, alpha, A, B, beta, C); }
// mult_hehe.hpp
void E_mult_hehe__2(Uplo uplo, const T& alpha, M_t& A, M_t& B, M_t& C) { (void)mult_hehe(uplo, alpha, A, B, C); }
// mult_llh.hpp
void E_mult_llh(M_t& L, const mult_llh_Opts& opts) { (void)mult_llh(L, opts); }
// mult_uhu.hpp
void E_mult_uhu(M_t& U, const mult_uhu_Opts& opts) { (void)mult_uhu(U, opts); }
// multishift_qr.hpp
void E_multishift_qr_worksize_sweep(bool want_t, bool want_z, idx_t ilo, idx_t ihi, const M_t& A, const CV_t& w, const M_t& Z, const FrancisOpts& opts) { (void)multishift_qr_worksize_sweep<T>(want_t, want_z, ilo, ihi, A, w, Z, opts); }
// multishift_qr.hpp
void E_multishift_qr_worksize(bool want_t, bool want_z, idx_t ilo, idx_t ihi, const M_t& A, const CV_t& w, const M_t& Z, const FrancisOpts& opts) { (void)multishift_qr_worksize<T>(want_t, want_z, ilo, ihi, A, w, Z, opts); }
// multishift_qr.hpp
void E_multishift_qr_work(bool want_t, bool want_z, idx_t ilo, idx_t ihi, M_t& A, CV_t& w, M_t& Z, M_t& work, FrancisOpts& opts) { (void)multishift_qr_work(want_t, want_z, ilo, ihi, A, w, Z, work, opts); }
// multishift_qr.hpp
void E_multishift_qr_work__2(bool want_t, bool want_z, idx_t ilo, idx_t ihi, M_t& A, CV_t& w, M_t& Z, M_t& work) { (void)multishift_qr_work(want_t, want_z, ilo, ihi, A, w, Z, work); }
// multishift_qr.hpp
void E_multishift_qr(bool want_t, bool want_z, idx_t ilo, idx_t ihi, M_t& A, CV_t& w, M_t& Z, FrancisOpts& opts) { (void)multishift_qr(want_t, want_z, ilo, ihi, A, w, Z, opts); }
// multishift_qr.hpp
void E_multishift_qr__2(bool want_t, bool want_z, idx_t ilo, idx_t ihi, M_t& A, CV_t& w, M_t& Z) { (void)multishift_qr(want_t, want_z, ilo, ihi, A, w, Z); }
// multishift_qr_sweep.hpp
void E_multishift_QR_sweep_worksize(bool want_t, bool want_z, idx_t ilo, idx_t ihi, const M_t& A, const CV_t& s, const M_t& Z) { (void)multishift_QR_sweep_worksize<T>(want_t, want_z, ilo, ihi, A, s, Z); }
// multishift_qr_sweep.hpp
void E_multishift_QR_sweep_work(bool want_t, bool want_z, idx_t ilo, idx_t ihi, M_t& A, const CV_t& s, M_t& Z, M_t& work) { (void)multishift_QR_sweep_work(want_t, want_z, ilo, ihi, A, s, Z, work); }
// multishift_qr_sweep.hpp
void E_multishift_QR_sweep(bool want_t, bool want_z, idx_t ilo, idx_t ihi, M_t& A, const CV_t& s, M_t& Z) { (void)multishift_QR_sweep(want_t, want_z, ilo, ihi, A, s, Z); }
// multishift_qz.hpp
void E_multishift_qz(bool want_s, bool want_q, bool want_z, idx_t ilo, idx_t ihi, M_t& A, M_t& B, CV_t& alpha, V_t& beta, M_t& Q, M_t& Z, FrancisOpts& opts) { (void)multishift_qz(want_s, want_q, want_z, ilo, ihi, A, B, alpha, beta, Q, Z, opts); }
// multishift_qz_sweep.hpp
void E_multishift_QZ_sweep(bool want_t, bool want_q, bool want_z, idx_t ilo, idx_t ihi, M_t& A, M_t& B, const CV_t& alpha, const V_t& beta, M_t& Q, M_t& Z) { (void)multishift_QZ_sweep(want_t, want_q, want_z, ilo, ihi, A, B, alpha, beta, Q, Z); }
// pbtrf_with_workspace.hpp
void E_pbtrf_with_workspace(Uplo uplo, M_t& A, idx_t kd, const BlockedBandedCholeskyOpts& opts) { (void)pbtrf_with_workspace(uplo, A, kd, opts); }
// potf2.hpp
void E_potf2(Uplo uplo, M_t& A) { (void)potf2(uplo, A); }
// potrf.hpp
void E_potrf(Uplo uplo, M_t& A, const PotrfOpts& opts) { (void)potrf(uplo, A, opts); }
// potrf2.hpp
void E_potrf2(Uplo uplo, M_t& A, const EcOpts& opts) { (void)potrf2(uplo, A, opts); }
// potrf_blocked.hpp
void E_potrf_blocked(Uplo uplo, M_t& A, const BlockedCholeskyOpts& opts) { (void)potrf_blocked(uplo, A, opts); }
// potrf_blocked.hpp
void E_potrf_blocked__2(Uplo uplo, M_t& A) { (void)potrf_blocked(uplo, A); }
// potrf_blocked_right_looking.hpp
void E_potrf_rl(Uplo uplo, M_t& A, const BlockedCholeskyOpts& opts) { (void)potrf_rl(uplo, A, opts); }
// potri.hpp
void E_potri(Uplo uplo, M_t& A) { (void)potri(uplo, A); }
// potrs.hpp
void E_potrs(Uplo uplo, const M_t& A, M_t& B) { (void)potrs(uplo, A, B); }
// pttrf.hpp
#ifdef DRV_REAL
void E_pttrf(RV_t& D, V_t& E, const EcOpts& opts) { (void)pttrf(D, E, opts); }
#endif
// qr_iteration.hpp
void E_qr_iteration_worksize(bool want_t, bool want_z, idx_t ilo, idx_t ihi, const M_t& A, const CV_t& w, const M_t& Z, const QRIterationOpts& opts) { (void)qr_iteration_worksize<T>(want_t, want_z, ilo, ihi, A, w, Z, opts); }
// qr_iteration.hpp
void E_qr_iteration_work(bool want_t, bool want_z, idx_t ilo, idx_t ihi, M_t& A, CV_t& w, M_t& Z, M_t& work, QRIterationOpts& opts) { (void)qr_iteration_work(want_t, want_z, ilo, ihi, A, w, Z, work, opts); }
// qr_iteration.hpp
void E_qr_iteration(bool want_t, bool want_z, idx_t ilo, idx_t ihi, M_t& A, CV_t& w, M_t& Z, QRIterationOpts& opts) { (void)qr_iteration(want_t, want_z, ilo, ihi, A, w, Z, opts); }
// rot_sequence.hpp
void E_rot_sequence(Side side, Direction direction, const RV_t& c, const V_t& s, M_t& A) { (void)rot_sequence(side, direction, c, s, A); }
// rot_sequence3.hpp
void E_rot_sequence3(Side side, Direction direction, const RM_t& C, const M_t& S, M_t& A) { (void)rot_sequence3(side, direction, C, S, A); }
// rscl.hpp
void E_rscl(const T& alpha, V_t& x) { (void)rscl(alpha, x); }
// schur_move.hpp
void E_schur_move(bool want_q, M_t& A, M_t& Q, idx_t& ifst, idx_t& ilst) { (void)schur_move(want_q, A, Q, ifst, ilst); }
// schur_swap.hpp
void E_schur_swap(bool want_q, M_t& A, M_t& Q, const idx_t& j0, const idx_t& n1, const idx_t& n2) { (void)schur_swap(want_q, A, Q, j0, n1, n2); }
// singularvalues22.hpp
#ifdef DRV_REAL
void E_singularvalues22(const T& f, const T& g, const T& h, T& ssmin, T& ssmax) { (void)singularvalues22(f, g, h, ssmin, ssmax); }
#endif
// steqr.hpp
void E_steqr(bool want_z, RV_t& d, RV_t& e, M_t& Z) { (void)steqr(want_z, d, e, Z); }
// svd22.hpp
#ifdef DRV_REAL
void E_svd22(const T& f, const T& g, const T& h, T& ssmin, T& ssmax, T& csl, T& snl, T& csr, T& snr) { (void)svd22(f, g, h, ssmin, ssmax, csl, snl, csr, snr); }
#endif
// svd_qr.hpp
void E_svd_qr(Uplo uplo, bool want_u, bool want_vt, RV_t& d, RV_t& e, M_t& U, M_t& Vt) { (void)svd_qr(uplo, want_u, want_vt, d, e, U, Vt); }
// tik_bidiag_elden.hpp
void E_tik_bidiag_elden(M_t& A, M_t& b, R lambda) { (void)tik_bidiag_elden(A, b, lambda); }
// tik_qr.hpp
void E_tik_qr(M_t& A, M_t& b, R lambda) { (void)tik_qr(A, b, lambda); }
// tik_svd.hpp
void E_tik_svd(M_t& A, M_t& b, R lambda) { (void)tik_svd(A, b, lambda); }
// tkhnv.hpp
void E_tkhnv(M_t& A, M_t& b, R lambda, const TikOpts& opts) { (void)tkhnv(A, b, lambda, opts); }
// transpose.hpp
void E_conjtranspose(M_t& A, M_t& B, const TransposeOpts& opts) { (void)conjtranspose(A, B, opts); }
// transpose.hpp
void E_transpose(M_t& A, M_t& B, const TransposeOpts& opts) { (void)transpose(A, B, opts); }
// trevc.hpp
void E_trevc(Side side, HowMny howmny, BV_t& select, const M_t& T, M_t& Vl, M_t& Vr, RV_t& rwork, M_t& work) { (void)trevc(side, howmny, select, T, Vl, Vr, rwork, work); }
// trevc3.hpp
void E_trevc3_worksize(Side side, HowMny howmny, BV_t& select, const M_t& T, M_t& Vl, M_t& Vr, const Trevc3Opts& opts) { (void)trevc3_worksize(side, howmny, select, T, Vl, Vr, opts); }
// trevc3.hpp
void E_trevc3_work(Side side, HowMny howmny, BV_t& select, const M_t& T, M_t& Vl, M_t& Vr, RV_t& rwork, M_t& work, const Trevc3Opts& opts) { (void)trevc3_work(side, howmny, select, T, Vl, Vr, rwork, work, opts); }
// trevc3.hpp
void E_trevc3(Side side, HowMny howmny, BV_t& select, const M_t& T, M_t& Vl, M_t& Vr, const Trevc3Opts& opts) { (void)trevc3(side, howmny, select, T, Vl, Vr, opts); }
// trevc3_backsolve.hpp
void E_trevc3_backsolve(const M_t& T, M_t& X, RV_t& colN, M_t& work, idx_t ks, idx_t ke, idx_t blocksize) { (void)trevc3_backsolve(T, X, colN, work, ks, ke, blocksize); }
// trevc3_forwardsolve.hpp
void E_trevc3_forwardsolve(const M_t& T, M_t& X, RV_t& colN, M_t& work, idx_t ks, idx_t ke, idx_t blocksize) { (void)trevc3_forwardsolve(T, X, colN, work, ks, ke, blocksize); }
// trevc_backsolve.hpp
void E_trevc_backsolve_single(const M_t& T, V_t& v, idx_t k, const RV_t& colN) { (void)trevc_backsolve_single(T, v, k, colN); }
// trevc_backsolve.hpp
#ifdef DRV_REAL
void E_trevc_backsolve_double(const M_t& T, V_t& v_r, V_t& v_i, idx_t k, const RV_t& colN) { (void)trevc_backsolve_double(T, v_r, v_i, k, colN); }
#endif
// trevc_forwardsolve.hpp
void E_trevc_forwardsolve_single(const M_t& T, V_t& v, idx_t k, const RV_t& colN) { (void)trevc_forwardsolve_single(T, v, k, colN); }
// trevc_forwardsolve.hpp
#ifdef DRV_REAL
void E_trevc_forwardsolve_double(const M_t& T, V_t& v_r, V_t& v_i, idx_t k, const RV_t& colN) { (void)trevc_forwardsolve_double(T, v_r, v_i, k, colN); }
#endif
// trevc_protect.hpp
#ifdef DRV_REAL
void E_trevc_protectdiv(T a, T b, T sf_min, T sf_max) { (void)trevc_protectdiv(a, b, sf_min, sf_max); }
#endif
// trevc_protect.hpp
void E_trevc_protectdiv__2(T a, T b, R sf_min, R sf_max) { (void)trevc_protectdiv(a, b, sf_min, sf_max); }
// trevc_protect.hpp
#ifdef DRV_REAL
void E_trevc_protectdiv__3(T ar, T ai, T br, T bi, R sf_min, R sf_max) { (void)trevc_protectdiv(ar, ai, br, bi, sf_min, sf_max); }
#endif
// trevc_protect.hpp
#ifdef DRV_REAL
void E_trevc_protectupdate(T ynorm, T tnorm, T xnorm, T sf_max) { (void)trevc_protectupdate(ynorm, tnorm, xnorm, sf_max); }
#endif
// trevc_protect.hpp
#ifdef DRV_REAL
void E_trevc_protectsum(T a, T b, T sf_max) { (void)trevc_protectsum(a, b, sf_max); }
#endif
// trevc_protect.hpp
void E_trevc_protectsum__2(T a, T b, R sf_max) { (void)trevc_protectsum(a, b, sf_max); }
// trevc_protect.hpp
#ifdef DRV_REAL
void E_trevc_2x2solve(T a, T b, T c, T d, T& x1, T& x2, T& scale, T sf_min, T sf_max) { (void)trevc_2x2solve(a, b, c, d, x1, x2, scale, sf_min, sf_max); }
#endif
// trevc_protect.hpp
#ifdef DRV_REAL
void E_trevc_2x2solve__2(T ar, T ai, T br, T bi, T cr, T ci, T dr, T di, T& x1r, T& x1i, T& x2r, T& x2i, T& scale, T sf_min, T sf_max) { (void)trevc_2x2solve(ar, ai, br, bi, cr, ci, dr, di, x1r, x1i, x2r, x2i, scale, sf_min, sf_max); }
#endif
// trevc_protect.hpp
void E_trevc_colnorms(Norm norm, const M_t& T, RV_t& colN) { (void)trevc_colnorms(norm, T, colN); }
// trge_qr2.hpp
void E_trge_qr2(M_t& A, V_t& tau) { (void)trge_qr2(A, tau); }
// trge_ung2r.hpp
void E_trge_ung2r(M_t& W, V_t& tau) { (void)trge_ung2r(W, tau); }
// trmm_blocked_mixed.hpp
void E_trmm_blocked_mixed(Side side, Uplo uplo, Op trans, Diag diag, const T& alpha, const M_t& A, M_t& B, M_t& work, const TrmmBlockedOpts& opts) { (void)trmm_blocked_mixed(side, uplo, trans, diag, alpha, A, B, work, opts); }
// trmm_out.hpp
void E_trmm_out(Side side, Uplo uplo, Op transA, Diag diag, Op transB, const T& alpha, const M_t& A, const M_t& B, const T& beta, M_t& C) { (void)trmm_out(side, uplo, transA, diag, transB, alpha, A, B, beta, C); }
// trsm_tri.hpp
void E_trsm_tri(Side sideA, Uplo uploB, Op transA, Diag diagA, const T& alpha, const M_t& A, M_t& B) { (void)trsm_tri(sideA, uploB, transA, diagA, alpha, A, B); }
// trtri_recursive.hpp
void E_trtri_recursive(Uplo uplo, Diag diag, M_t& C, const EcOpts& opts) { (void)trtri_recursive(uplo, diag, C, opts); }
// ul_mult.hpp
void E_ul_mult(M_t& A) { (void)ul_mult(A); }
// ung2l.hpp
void E_ung2l_worksize(const M_t& A, const V_t& tau) { (void)ung2l_worksize<T>(A, tau); }
// ung2l.hpp
void E_ung2l_work(M_t& A, const V_t& tau, M_t& work) { (void)ung2l_work(A, tau, work); }
// ung2l.hpp
void E_ung2l(M_t& A, const V_t& tau) { (void)ung2l(A, tau); }
// ung2r.hpp
void E_ung2r_worksize(const M_t& A, const V_t& tau) { (void)ung2r_worksize<T>(A, tau); }
// ung2r.hpp
void E_ung2r_work(M_t& A, const V_t& tau, M_t& work) { (void)ung2r_work(A, tau, work); }
// ung2r.hpp
void E_ung2r(M_t& A, const V_t& tau) { (void)ung2r(A, tau); }
// ungbr.hpp
void E_ungbr_q_worksize(idx_t k, M_t& A, const V_t& tau, const UngbrOpts& opts) { (void)ungbr_q_worksize<T>(k, A, tau, opts); }
// ungbr.hpp
void E_ungbr_p_worksize(idx_t k, M_t& A, const V_t& tau, const UngbrOpts& opts) { (void)ungbr_p_worksize<T>(k, A, tau, opts); }
// ungbr.hpp
void E_ungbr_q_work(idx_t k, M_t& A, const V_t& tau, M_t& work, const UngbrOpts& opts) { (void)ungbr_q_work(k, A, tau, work, opts); }
// ungbr.hpp
void E_ungbr_q(idx_t k, M_t& A, const V_t& tau, const UngbrOpts& opts) { (void)ungbr_q(k, A, tau, opts); }
// ungbr.hpp
void E_ungbr_p_work(idx_t k, M_t& A, const V_t& tau, M_t& work, const UngbrOpts& opts) { (void)ungbr_p_work(k, A, tau, work, opts); }
// ungbr.hpp
void E_ungbr_p(idx_t k, M_t& A, const V_t& tau, const UngbrOpts& opts) { (void)ungbr_p(k, A, tau, opts); }
// unghr.hpp
void E_unghr_worksize(idx_t ilo, idx_t ihi, const M_t& A, const V_t& tau) { (void)unghr_worksize<T>(ilo, ihi, A, tau); }
// unghr.hpp
void E_unghr_work(idx_t ilo, idx_t ihi, M_t& A, const V_t& tau, M_t& work) { (void)unghr_work(ilo, ihi, A, tau, work); }
// unghr.hpp
void E_unghr(idx_t ilo, idx_t ihi, M_t& A, const V_t& tau) { (void)unghr(ilo, ihi, A, tau); }
// ungl2.hpp
void E_ungl2_worksize(const M_t& Q, const V_t& tauw) { (void)ungl2_worksize<T>(Q, tauw); }
// ungl2.hpp
void E_ungl2_work(M_t& Q, const V_t& tauw, M_t& work) { (void)ungl2_work(Q, tauw, work); }
// ungl2.hpp
void E_ungl2(M_t& Q, const V_t& tauw) { (void)ungl2(Q, tauw); }
// unglq.hpp
void E_unglq(M_t& A, const V_t& tau, const UnglqOpts& opts) { (void)unglq(A, tau, opts); }
// ungq.hpp
void E_ungq_worksize(Direction direction, StoreV storeMode, const M_t& A, const V_t& tau, const UngqOpts& opts) { (void)ungq_worksize<T>(direction, storeMode, A, tau, opts); }
// ungq.hpp
void E_ungq_work(Direction direction, StoreV storeMode, M_t& A, const V_t& tau, M_t& work, const UngqOpts& opts) { (void)ungq_work(direction, storeMode, A, tau, work, opts); }
// ungq.hpp
void E_ungq(Direction direction, StoreV storeMode, M_t& A, const V_t& tau, const UngqOpts& opts) { (void)ungq(direction, storeMode, A, tau, opts); }
// ungq_level2.hpp
void E_ungq_level2_worksize(Direction direction, StoreV storeMode, const M_t& A, const V_t& tau) { (void)ungq_level2_worksize<T>(direction, storeMode, A, tau); }
// ungq_level2.hpp
void E_ungq_level2_work(Direction direction, StoreV storeMode, M_t& A, const V_t& tau, M_t& work) { (void)ungq_level2_work(direction, storeMode, A, tau, work); }
// ungq_level2.hpp
void E_ungq_level2(Direction direction, StoreV storeMode, M_t& A, const V_t& tau) { (void)ungq_level2(direction, storeMode, A, tau); }
// ungql.hpp
void E_ungql(M_t& A, const V_t& tau, const UngqlOpts& opts) { (void)ungql(A, tau, opts); }
// ungqr.hpp
void E_ungqr(M_t& A, const V_t& tau, const UngqrOpts& opts) { (void)ungqr(A, tau, opts); }
// ungr2.hpp
void E_ungr2_worksize(const M_t& A, const V_t& tau) { (void)ungr2_worksize<T>(A, tau); }
// ungr2.hpp
void E_ungr2_work(M_t& A, const V_t& tau, M_t& work) { (void)ungr2_work(A, tau, work); }
// ungr2.hpp
void E_ungr2(M_t& A, const V_t& tau) { (void)ungr2(A, tau); }
// ungrq.hpp
void E_ungrq(M_t& A, const V_t& tau, const UngrqOpts& opts) { (void)ungrq(A, tau, opts); }
// ungtr.hpp
void E_ungtr(Uplo uplo, M_t& Q, const V_t& tau) { (void)ungtr(uplo, Q, tau); }
// unm2l.hpp
void E_unm2l_worksize(Side side, Op trans, const M_t& A, const V_t& tau, const M_t& C) { (void)unm2l_worksize<T>(side, trans, A, tau, C); }
// unm2l.hpp
void E_unm2l(Side side, Op trans, const M_t& A, const V_t& tau, M_t& C) { (void)unm2l(side, trans, A, tau, C); }
// unm2r.hpp
void E_unm2r_worksize(Side side, Op trans, const M_t& A, const V_t& tau, const M_t& C) { (void)unm2r_worksize<T>(side, trans, A, tau, C); }
// unm2r.hpp
void E_unm2r(Side side, Op trans, const M_t& A, const V_t& tau, M_t& C) { (void)unm2r(side, trans, A, tau, C); }
// unmhr.hpp
void E_unmhr_worksize(Side side, Op trans, idx_t ilo, idx_t ihi, const M_t& A, const V_t& tau, const M_t& C) { (void)unmhr_worksize<T>(side, trans, ilo, ihi, A, tau, C); }
// unmhr.hpp
void E_unmhr_work(Side side, Op trans, idx_t ilo, idx_t ihi, const M_t& A, const V_t& tau, M_t& C, M_t& work) { (void)unmhr_work(side, trans, ilo, ihi, A, tau, C, work); }
// unmhr.hpp
void E_unmhr(Side side, Op trans, idx_t ilo, idx_t ihi, const M_t& A, const V_t& tau, M_t& C) { (void)unmhr(side, trans, ilo, ihi, A, tau, C); }
// unml2.hpp
void E_unml2_worksize(Side side, Op trans, const M_t& A, const V_t& tau, const M_t& C) { (void)unml2_worksize<T>(side, trans, A, tau, C); }
// unml2.hpp
void E_unml2(Side side, Op trans, const M_t& A, const V_t& tau, M_t& C) { (void)unml2(side, trans, A, tau, C); }
// unmlq.hpp
void E_unmlq_worksize(Side side, Op trans, const M_t& A, const V_t& tau, const M_t& C, const UnmlqOpts& opts) { (void)unmlq_worksize<T>(side, trans, A, tau, C, opts); }
// unmlq.hpp
void E_unmlq(Side side, Op trans, const M_t& A, const V_t& tau, M_t& C, const UnmlqOpts& opts) { (void)unmlq(side, trans, A, tau, C, opts); }
// unmq.hpp
void E_unmq_worksize(Side side, Op trans, Direction direction, StoreV storeMode, const M_t& V, const V_t& tau, const M_t& C, const UnmqOpts& opts) { (void)unmq_worksize<T>(side, trans, direction, storeMode, V, tau, C, opts); }
// unmq.hpp
void E_unmq_work(Side side, Op trans, Direction direction, StoreV storeMode, const M_t& V, const V_t& tau, M_t& C, M_t& work, const UnmqOpts& opts) { (void)unmq_work(side, trans, direction, storeMode, V, tau, C, work, opts); }
// unmq.hpp
void E_unmq(Side side, Op trans, Direction direction, StoreV storeMode, const M_t& V, const V_t& tau, M_t& C, const UnmqOpts& opts) { (void)unmq(side, trans, direction, storeMode, V, tau, C, opts); }
// unmq_level2.hpp
void E_unmq_level2_worksize(Side side, Op trans, Direction direction, StoreV storeMode, const M_t& V, const V_t& tau, const M_t& C) { (void)unmq_level2_worksize<T>(side, trans, direction, storeMode, V, tau, C); }
// unmq_level2.hpp
void E_unmq_level2_work(Side side, Op trans, Direction direction, StoreV storeMode, const M_t& V, const V_t& tau, M_t& C, M_t& work) { (void)unmq_level2_work(side, trans, direction, storeMode, V, tau, C, work); }
// unmq_level2.hpp
void E_unmq_level2(Side side, Op trans, Direction direction, StoreV storeMode, const M_t& V, const V_t& tau, M_t& C) { (void)unmq_level2(side, trans, direction, storeMode, V, tau, C); }
// unmql.hpp
void E_unmql_worksize(Side side, Op trans, const M_t& A, const V_t& tau, const M_t& C, const UnmqlOpts& opts) { (void)unmql_worksize<T>(side, trans, A, tau, C, opts); }
// unmql.hpp
void E_unmql(Side side, Op trans, const M_t& A, const V_t& tau, M_t& C, const UnmqlOpts& opts) { (void)unmql(side, trans, A, tau, C, opts); }
// unmqr.hpp
void E_unmqr_worksize(Side side, Op trans, const M_t& A, const V_t& tau, const M_t& C, const UnmqrOpts& opts) { (void)unmqr_worksize<T>(side, trans, A, tau, C, opts); }
// unmqr.hpp
void E_unmqr(Side side, Op trans, const M_t& A, const V_t& tau, M_t& C, const UnmqrOpts& opts) { (void)unmqr(side, trans, A, tau, C, opts); }
// unmr2.hpp
void E_unmr2_worksize(Side side, Op trans, const M_t& A, const V_t& tau, const M_t& C) { (void)unmr2_worksize<T>(side, trans, A, tau, C); }
// unmr2.hpp
void E_unmr2(Side side, Op trans, const M_t& A, const V_t& tau, M_t& C) { (void)unmr2(side, trans, A, tau, C); }
// unmrq.hpp
void E_unmrq_worksize(Side side, Op trans, const M_t& A, const V_t& tau, const M_t& C, const UnmrqOpts& opts) { (void)unmrq_worksize<T>(side, trans, A, tau, C, opts); }
// unmrq.hpp
void E_unmrq(Side side, Op trans, const M_t& A, const V_t& tau, M_t& C, const UnmrqOpts& opts) { (void)unmrq(side, trans, A, tau, C, opts); }
// hemm2.hpp
void E_hemm2__3(Side side, Uplo uplo, Op transB, const T& alpha, const M_t& A, const M_t& B, M_t& C) { (void)hemm2(side, uplo, transB, alpha, A, B, C); }
// lamrg.hpp
#ifdef DRV_REAL
void E_lamrg(idx_t n1, idx_t n2, RV_t& a, int dtrd1, int dtrd2, IV_t& index) { (void)lamrg(n1, n2, a, dtrd1, dtrd2, index); }
// laed5.hpp
void E_laed5(idx_t i, RV_t& d, RV_t& z, RV_t& delta, R rho, R& dlam) { (void)laed5(i, d, z, delta, rho, dlam); }
#ifndef ARCH
// (template parameters not constrained by concepts)
// laed6.hpp
void E_laed6(idx_t kniter, bool& orgati, R rho, std::vector<R>& d, std::vector<R>& z, R& finit, R& tau) { (void)laed6(kniter, orgati, rho, d, z, finit, tau); }
// laed4.hpp
void E_laed4(idx_t n, idx_t i, std::vector<R>& d, std::vector<R>& z, std::vector<R>& delta, R rho, R& dlam) { (void)laed4(n, i, d, z, delta, rho, dlam); }
// laed2.hpp
void E_laed2(idx_t& k, idx_t n, idx_t n1, std::vector<R>& d, RM_t& q, idx_t ldq, std::vector<idx_t>& indxq, R& rho, std::vector<R>& z, std::vector<R>& dlambda, std::vector<R>& w, std::vector<R>& q2, std::vector<idx_t>& indx, std::vector<idx_t>& indxc, std::vector<idx_t>& indxp, std::vector<idx_t>& coltyp) { (void)laed2(k, n, n1, d, q, ldq, indxq, rho, z, dlambda, w, q2, indx, indxc, indxp, coltyp); }
#endif
#endif
