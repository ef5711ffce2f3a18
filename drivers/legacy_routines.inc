void L_asum(legacy::idx_t n, T const* x, legacy::int_t incx) { (void)legacy::asum(n, x, incx); }
void L_axpy(legacy::idx_t n, T alpha, T const* x, legacy::int_t incx, T* y, legacy::int_t incy) { (void)legacy::axpy(n, alpha, x, incx, y, incy); }
void L_copy(legacy::idx_t n, T const* x, legacy::int_t incx, T* y, legacy::int_t incy) { (void)legacy::copy(n, x, incx, y, incy); }
void L_dot(legacy::idx_t n, T const* x, legacy::int_t incx, T const* y, legacy::int_t incy) { (void)legacy::dot(n, x, incx, y, incy); }
void L_dotu(legacy::idx_t n, T const* x, legacy::int_t incx, T const* y, legacy::int_t incy) { (void)legacy::dotu(n, x, incx, y, incy); }
void L_gemm(Layout layout, Op transA, Op transB, legacy::idx_t m, legacy::idx_t n, legacy::idx_t k, T alpha, T const* A, legacy::idx_t lda, T const* B, legacy::idx_t ldb, T beta, T* C, legacy::idx_t ldc) { (void)legacy::gemm(layout, transA, transB, m, n, k, alpha, A, lda, B, ldb, beta, C, ldc); }
void L_gemv(Layout layout, Op trans, legacy::idx_t m, legacy::idx_t n, T alpha, T const* A, legacy::idx_t lda, T const* x, legacy::int_t incx, T beta, T* y, legacy::int_t incy) { (void)legacy::gemv(layout, trans, m, n, alpha, A, lda, x, incx, beta, y, incy); }
void L_ger(Layout layout, legacy::idx_t m, legacy::idx_t n, T alpha, T const* x, legacy::int_t incx, T const* y, legacy::int_t incy, T* A, legacy::idx_t lda) { (void)legacy::ger(layout, m, n, alpha, x, incx, y, incy, A, lda); }
void L_geru(Layout layout, legacy::idx_t m, legacy::idx_t n, T alpha, T const* x, legacy::int_t incx, T const* y, legacy::int_t incy, T* A, legacy::idx_t lda) { (void)legacy::geru(layout, m, n, alpha, x, incx, y, incy, A, lda); }
void L_hemm(Layout layout, Side side, Uplo uplo, legacy::idx_t m, legacy::idx_t n, T alpha, T const* A, legacy::idx_t lda, T const* B, legacy::idx_t ldb, T beta, T* C, legacy::idx_t ldc) { (void)legacy::hemm(layout, side, uplo, m, n, alpha, A, lda, B, ldb, beta, C, ldc); }
void L_hemv(Layout layout, Uplo uplo, legacy::idx_t n, T alpha, T const* A, legacy::idx_t lda, T const* x, legacy::int_t incx, T beta, T* y, legacy::int_t incy) { (void)legacy::hemv(layout, uplo, n, alpha, A, lda, x, incx, beta, y, incy); }
void L_her(Layout layout, Uplo uplo, legacy::idx_t n, R alpha, T const* x, legacy::int_t incx, T* A, legacy::idx_t lda) { (void)legacy::her(layout, uplo, n, alpha, x, incx, A, lda); }
void L_her2(Layout layout, Uplo uplo, legacy::idx_t n, T alpha, T const* x, legacy::int_t incx, T const* y, legacy::int_t incy, T* A, legacy::idx_t lda) { (void)legacy::her2(layout, uplo, n, alpha, x, incx, y, incy, A, lda); }
void L_her2k(Layout layout, Uplo uplo, Op trans, legacy::idx_t n, legacy::idx_t k, T alpha, T const* A, legacy::idx_t lda, T const* B, legacy::idx_t ldb, R beta, T* C, legacy::idx_t ldc) { (void)legacy::her2k(layout, uplo, trans, n, k, alpha, A, lda, B, ldb, beta, C, ldc); }
void L_herk(Layout layout, Uplo uplo, Op trans, legacy::idx_t n, legacy::idx_t k, R alpha, T const* A, legacy::idx_t lda, R beta, T* C, legacy::idx_t ldc) { (void)legacy::herk(layout, uplo, trans, n, k, alpha, A, lda, beta, C, ldc); }
void L_iamax(legacy::idx_t n, T const* x, legacy::int_t incx) { (void)legacy::iamax(n, x, incx); }
void L_nrm2(legacy::idx_t n, T const* x, legacy::int_t incx) { (void)legacy::nrm2(n, x, incx); }
void L_rot(legacy::idx_t n, T* x, legacy::int_t incx, T* y, legacy::int_t incy, const R& c, const T& s) { (void)legacy::rot(n, x, incx, y, incy, c, s); }
void L_rotg(T* a, T* b, R* c, T* s) { (void)legacy::rotg(a, b, c, s); }
#ifdef DRV_REAL
void L_rotm(legacy::idx_t n, T* x, legacy::int_t incx, T* y, legacy::int_t incy, T const param[5]) { (void)legacy::rotm(n, x, incx, y, incy, param); }
#endif
#ifdef DRV_REAL
void L_rotmg(R* d1, R* d2, R* a, R b, R param[5]) { (void)legacy::rotmg<R>(d1, d2, a, b, param); }
#endif
void L_scal(legacy::idx_t n, const T& alpha, T* x, legacy::int_t incx) { (void)legacy::scal(n, alpha, x, incx); }
void L_swap(legacy::idx_t n, T* x, legacy::int_t incx, T* y, legacy::int_t incy) { (void)legacy::swap(n, x, incx, y, incy); }
void L_symm(Layout layout, Side side, Uplo uplo, legacy::idx_t m, legacy::idx_t n, T alpha, T const* A, legacy::idx_t lda, T const* B, legacy::idx_t ldb, T beta, T* C, legacy::idx_t ldc) { (void)legacy::symm(layout, side, uplo, m, n, alpha, A, lda, B, ldb, beta, C, ldc); }
void L_symv(Layout layout, Uplo uplo, legacy::idx_t n, T alpha, T const* A, legacy::idx_t lda, T const* x, legacy::int_t incx, T beta, T* y, legacy::int_t incy) { (void)legacy::symv(layout, uplo, n, alpha, A, lda, x, incx, beta, y, incy); }
void L_syr(Layout layout, Uplo uplo, legacy::idx_t n, T alpha, T const* x, legacy::int_t incx, T* A, legacy::idx_t lda) { (void)legacy::syr(layout, uplo, n, alpha, x, incx, A, lda); }
void L_syr2(Layout layout, Uplo uplo, legacy::idx_t n, T alpha, T const* x, legacy::int_t incx, T const* y, legacy::int_t incy, T* A, legacy::idx_t lda) { (void)legacy::syr2(layout, uplo, n, alpha, x, incx, y, incy, A, lda); }
void L_syr2k(Layout layout, Uplo uplo, Op trans, legacy::idx_t n, legacy::idx_t k, T alpha, T const* A, legacy::idx_t lda, T const* B, legacy::idx_t ldb, T beta, T* C, legacy::idx_t ldc) { (void)legacy::syr2k(layout, uplo, trans, n, k, alpha, A, lda, B, ldb, beta, C, ldc); }
void L_syrk(Layout layout, Uplo uplo, Op trans, legacy::idx_t n, legacy::idx_t k, T alpha, T const* A, legacy::idx_t lda, T beta, T* C, legacy::idx_t ldc) { (void)legacy::syrk(layout, uplo, trans, n, k, alpha, A, lda, beta, C, ldc); }
void L_trmm(Layout layout, Side side, Uplo uplo, Op trans, Diag diag, legacy::idx_t m, legacy::idx_t n, T alpha, T const* A, legacy::idx_t lda, T* B, legacy::idx_t ldb) { (void)legacy::trmm(layout, side, uplo, trans, diag, m, n, alpha, A, lda, B, ldb); }
void L_trmv(Layout layout, Uplo uplo, Op trans, Diag diag, legacy::idx_t n, T const* A, legacy::idx_t lda, T* x, legacy::int_t incx) { (void)legacy::trmv(layout, uplo, trans, diag, n, A, lda, x, incx); }
void L_trsm(Layout layout, Side side, Uplo uplo, Op trans, Diag diag, legacy::idx_t m, legacy::idx_t n, T alpha, T const* A, legacy::idx_t lda, T* B, legacy::idx_t ldb) { (void)legacy::trsm(layout, side, uplo, trans, diag, m, n, alpha, A, lda, B, ldb); }
void L_trsv(Layout layout, Uplo uplo, Op trans, Diag diag, legacy::idx_t n, T const* A, legacy::idx_t lda, T* x, legacy::int_t incx) { (void)legacy::trsv(layout, uplo, trans, diag, n, A, lda, x, incx); }
void L_geqr2(legacy::idx_t m, legacy::idx_t n, T* A, legacy::idx_t lda, T* tau) { (void)legacy::geqr2(m, n, A, lda, tau); }
void L_lacpy(Uplo uplo, legacy::idx_t m, legacy::idx_t n, const T* A, legacy::idx_t lda, T* B, legacy::idx_t ldb) { (void)legacy::lacpy(uplo, m, n, A, lda, B, ldb); }
void L_lacpy__2(legacy::MatrixType matrixtype, legacy::idx_t m, legacy::idx_t n, const T* A, legacy::idx_t lda, T* B, legacy::idx_t ldb) { (void)legacy::lacpy(matrixtype, m, n, A, lda, B, ldb); }
void L_lange(Norm normType, legacy::idx_t m, legacy::idx_t n, const T* A, legacy::idx_t lda) { (void)legacy::lange(normType, m, n, A, lda); }
void L_lanhe(Norm normType, Uplo uplo, legacy::idx_t n, const T* A, legacy::idx_t lda) { (void)legacy::lanhe(normType, uplo, n, A, lda); }
void L_lansy(Norm normType, Uplo uplo, legacy::idx_t n, const T* A, legacy::idx_t lda) { (void)legacy::lansy(normType, uplo, n, A, lda); }
void L_lantr(Norm normType, Uplo uplo, Diag diag, legacy::idx_t m, legacy::idx_t n, const T* A, legacy::idx_t lda) { (void)legacy::lantr(normType, uplo, diag, m, n, A, lda); }
void L_larf(Side side, legacy::idx_t m, legacy::idx_t n, T const* v, legacy::int_t incv, T tau, T* C, legacy::idx_t ldC) { (void)legacy::larf(side, m, n, v, incv, tau, C, ldC); }
void L_larfb(Side side, Op trans, Direction direction, StoreV storev, legacy::idx_t m, legacy::idx_t n, legacy::idx_t k, T const* V, legacy::idx_t ldv, T const* Tt, legacy::idx_t ldt, T* C, legacy::idx_t ldc) { (void)legacy::larfb(side, trans, direction, storev, m, n, k, V, ldv, Tt, ldt, C, ldc); }
void L_larfg(legacy::idx_t n, T& alpha, T* x, legacy::int_t incx, T& tau) { (void)legacy::larfg(n, alpha, x, incx, tau); }
void L_larfg__2(legacy::idx_t n, T* alpha, T* x, legacy::int_t incx, T* tau) { (void)legacy::larfg(n, alpha, x, incx, tau); }
void L_larft(Direction direction, StoreV storev, legacy::idx_t n, legacy::idx_t k, const T* V, legacy::idx_t ldV, const T* tau, T* Tt, legacy::idx_t ldT) { (void)legacy::larft(direction, storev, n, k, V, ldV, tau, Tt, ldT); }
void L_larnv(legacy::idx_t idist, legacy::idx_t* iseed, legacy::idx_t n, T* x) { (void)legacy::larnv<T>(idist, iseed, n, x); }
void L_lascl(legacy::MatrixType matrixtype, legacy::idx_t kl, legacy::idx_t ku, const R& b, const R& a, legacy::idx_t m, legacy::idx_t n, T* A, legacy::idx_t lda) { (void)legacy::lascl<legacy::MatrixType, ::T>(matrixtype, kl, ku, b, a, m, n, A, lda); }
void L_laset(Uplo uplo, legacy::idx_t m, legacy::idx_t n, T alpha, T beta, T* A, legacy::idx_t lda) { (void)legacy::laset(uplo, m, n, alpha, beta, A, lda); }
void L_laset__2(legacy::MatrixType matrixtype, legacy::idx_t m, legacy::idx_t n, T alpha, T beta, T* A, legacy::idx_t lda) { (void)legacy::laset(matrixtype, m, n, alpha, beta, A, lda); }
void L_lassq(legacy::idx_t n, T const* x, legacy::int_t incx, R& scl, R& sumsq) { (void)legacy::lassq(n, x, incx, scl, sumsq); }
void L_potrf(Uplo uplo, legacy::idx_t n, T* A, legacy::idx_t lda) { (void)legacy::potrf(uplo, n, A, lda); }
void L_potrs(Uplo uplo, legacy::idx_t n, legacy::idx_t nrhs, const T* A, legacy::idx_t lda, T* B, legacy::idx_t ldb) { (void)legacy::potrs(uplo, n, nrhs, A, lda, B, ldb); }
void L_ung2r(legacy::idx_t m, legacy::idx_t n, legacy::idx_t k, T* A, legacy::idx_t lda, const T* tau) { (void)legacy::ung2r(m, n, k, A, lda, tau); }
void L_unm2r(Side side, Op trans, legacy::idx_t m, legacy::idx_t n, legacy::idx_t k, T* A, legacy::idx_t lda, const T* tau, T* C, legacy::idx_t ldc) { (void)legacy::unm2r(side, trans, m, n, k, A, lda, tau, C, ldc); }
void L_unmqr(Side side, Op trans, legacy::idx_t m, legacy::idx_t n, legacy::idx_t k, T const* A, legacy::idx_t lda, T const* tau, T* C, legacy::idx_t ldc) { (void)legacy::unmqr(side, trans, m, n, k, A, lda, tau, C, ldc); }
