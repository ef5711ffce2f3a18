"""Contracts of the LAPACK routines."""
from spec import *
from spec_blas import op


def kmin(c, A):
    return c.min(A.nr, A.nc)


def work(c, w):
    if isinstance(w, View):
        c.work(w)


def OT(real):
    return [NT, T, CT] if real else [NT, CT]


# ------------------------------------------------------------ QR-like factorisations
@spec("geqr2 gelq2 geql2 gerq2 geqrf gelqf geqlf gerqf householder_qr householder_lq householder_ql householder_rq", "mvo?")
def _(c, A, tau):
    c.le(kmin(c, A), tau.nr, "size(tau) >= min(m,n)")
    c.RW(A)
    c.W(tau, rows(0, kmin(c, A)))
    c.zero()


@spec("geqr2_work gelq2_work geql2_work gerq2_work geqrf_work gelqf_work geqlf_work gerqf_work householder_qr_work householder_lq_work householder_ql_work householder_rq_work", "mvmo?")
def _(c, A, tau, w):
    c.le(kmin(c, A), tau.nr, "size(tau) >= min(m,n)")
    c.RW(A)
    c.W(tau, rows(0, kmin(c, A)))
    work(c, w)
    c.zero()


def bd(c, A, tv, tw):
    k = kmin(c, A)
    c.le(k, tv.nr, "size(tauv) >= min(m,n)")
    c.le(k, tw.nr, "size(tauw) >= min(m,n)")
    c.RW(A)
    c.W(tv, rows(0, k))
    c.W(tw, rows(0, k))
    c.zero()


@spec("gebd2 gebrd bidiag", "mvvo?")
def _(c, A, tv, tw):
    bd(c, A, tv, tw)


@spec("gebd2_work gebrd_work bidiag_work", "mvvmo?")
def _(c, A, tv, tw, w):
    bd(c, A, tv, tw)
    work(c, w)


def hess(c, ilo, ihi, A, tau):
    c.sq(A, "A is square")
    c.le(0, ilo, "0 <= ilo", False)
    c.le(ilo, ihi, "ilo <= ihi", False)
    c.le(ihi, A.nc, "ihi <= n", False)
    c.le(A.nc - 1, tau.nr, "size(tau) >= n-1")
    c.RW(A, lambda i, j: rel(i, "<", ihi) & rel(j, ">=", ilo))
    c.W(tau, full)
    c.zero()


@spec("gehd2", "iimvo?")
def _(c, ilo, ihi, A, tau):
    hess(c, ilo, ihi, A, tau)


@spec("gehd2_work", "iimvmo?")
def _(c, ilo, ihi, A, tau, w):
    hess(c, ilo, ihi, A, tau)
    work(c, w)


def hessb(c, ilo, ihi, A, tau, chk=True):
    c.req(rel(0, "<=", ilo) & rel(ilo, "<", A.nc), "0 <= ilo < n", chk)
    c.req(rel(ilo, "<=", ihi) , "ilo <= ihi", False)
    c.req(rel(ihi, "<=", A.nc), "ihi <= n", chk)
    c.sq(A, "A is square")
    c.le(A.nc - 1, tau.nr, "size(tau) >= n-1")
    c.RW(A, lambda i, j: rel(i, "<", ihi) & rel(j, ">=", ilo))
    c.W(tau, full)
    c.zero()


@spec("gehrd", "iimvo?", nb=[3])
def _(c, ilo, ihi, A, tau, o=None):
    hessb(c, ilo, ihi, A, tau)


@spec("gehrd_work", "iimvmo?", nb=[3])
def _(c, ilo, ihi, A, tau, w, o=None):
    hessb(c, ilo, ihi, A, tau)
    work(c, w)


# the unblocked variant, gehd2, does not check ilo and ihi
@spec("hessenberg", "iimvo?", nb=[3])
def _(c, ilo, ihi, A, tau, o=None):
    hessb(c, ilo, ihi, A, tau, False)


@spec("hessenberg_work", "iimvmo?", nb=[3])
def _(c, ilo, ihi, A, tau, w, o=None):
    hessb(c, ilo, ihi, A, tau, False)
    work(c, w)


@spec("labrd", "mvvmm")
def _(c, A, tq, tp, X, Y):
    nb = X.nc
    c.eq(X.nr, A.nr, "nrows(X) == nrows(A)", False)
    c.eq(Y.nr, A.nc, "nrows(Y) == ncols(A)", False)
    c.le(nb, Y.nc, "ncols(Y) >= nb", False)
    c.le(nb, kmin(c, A), "nb <= min(m,n)", False)
    c.le(nb, tq.nr, "size(tauq) >= nb", False)
    c.le(nb, tp.nr, "size(taup) >= nb", False)
    c.RW(A)
    c.W(tq, rows(0, nb))
    c.W(tp, rows(0, nb))
    c.W(X)
    c.W(Y, box(0, A.nc, 0, nb))
    c.zero()


@spec("lahr2", "iimvmm")
def _(c, k, nb, A, tau, T, Y):
    c.le(0, k, "0 <= k", False)
    c.le(0, nb, "0 <= nb", False)
    c.le(k + nb + 1, A.nr, "k+nb < n", False)
    c.le(1, nb, "nb >= 1", False)
    c.le(A.nr - k, A.nc, "ncols(A) >= n-k", False)
    c.le(nb, tau.nr, "size(tau) >= nb", False)
    c.eq(nb, T.nr, "nrows(T) == nb", False)
    c.eq(nb, T.nc, "ncols(T) == nb", False)
    c.le(A.nr, Y.nr, "nrows(Y) >= n", False)
    c.le(nb, Y.nc, "ncols(Y) >= nb", False)
    c.RW(A)
    c.W(tau)
    c.W(T)
    c.W(Y)
    c.zero()


@spec("gelqt", "mm")
def _(c, A, TT):
    c.le(A.nr, TT.nr, "nrows(TT) >= m")
    c.le(1, TT.nc, "nb >= 1", False)
    c.RW(A)
    c.W(TT)
    c.zero()


@spec("gelqt_work", "mmm")
def _(c, A, TT, w):
    c.le(A.nr, TT.nr, "nrows(TT) >= m")
    c.le(1, TT.nc, "nb >= 1", False)
    c.RW(A)
    c.W(TT)
    work(c, w)
    c.zero()


@spec("geqrt3", "mmo?")
def _(c, A, Tm):
    c.le(A.nc, A.nr, "m >= n", False)
    c.eq(Tm.nr, A.nc, "nrows(T) == n", False)
    c.eq(Tm.nc, A.nc, "ncols(T) == n", False)
    c.RW(A)
    c.RW(Tm, upper)


# ------------------------------------------------------------ generating Q
def uq(c, A, tau, cw, reg, wk=None, chk=False):
    m, n, k = A.nr, A.nc, tau.nr
    if cw:
        c.req(rel(n, "<=", m) & rel(k, "<=", n), "m >= n >= k", chk)
    else:
        c.req(rel(m, "<=", n) & rel(k, "<=", m), "n >= m >= k", chk)
    c.R(A, reg)
    c.W(A)
    c.R(tau)
    if wk is not None:
        work(c, wk)
    c.zero()


def vreg(F, V, rn, cn, k, s=0):
    """the elements of V that define k reflectors: Columnwise rn x k, Rowwise k x cn"""
    if V == CW:
        if F == FW:
            return lambda i, j: rel(i, ">", j) & rel(j, "<", k)
        return lambda i, j: rel(i, "<", rn - k + j) & rel(j, ">=", 0)
    if F == FW:
        return lambda i, j: rel(j, ">", i) & rel(i, "<", k)
    return lambda i, j: rel(j, "<", cn - k + i) & rel(i, ">=", 0)


def qreg(c, F, V, A, k):
    """reflectors stored in A; the unit diagonal may be read (it is scaled and then replaced), callers need not set it"""
    d = 1 if c.mode == "call" else 0
    m, n = A.nr, A.nc
    if V == CW:
        if F == FW:
            return lambda i, j: rel(i, ">=", j + d) & rel(j, "<", k)
        return lambda i, j: rel(i + d, "<=", m - n + j) & rel(j, ">=", n - k)
    if F == FW:
        return lambda i, j: rel(j, ">=", i + d) & rel(i, "<", k)
    return lambda i, j: rel(j + d, "<=", n - m + i) & rel(i, ">=", m - k)


def mkung(nm, F, V):
    @spec("ung%s2%s" % (nm[1:], "r") if False else nm, "mvo?")
    def _(c, A, tau):
        uq(c, A, tau, V == CW, qreg(c, F, V, A, tau.nr), chk=True)

    @spec(" ".join(x + "_work" for x in nm.split()), "mvmo?")
    def _(c, A, tau, w):
        uq(c, A, tau, V == CW, qreg(c, F, V, A, tau.nr), w, chk=True)


mkung("ung2r ungqr", FW, CW)
mkung("ung2l ungql", BW, CW)
mkung("ungl2 unglq", FW, RW)
mkung("ungr2 ungrq", BW, RW)


@spec("ungq ungq_level2 gen_householder_q", "FVmvo?")
def _(c, F, V, A, tau):
    uq(c, A, tau, V == CW, qreg(c, F, V, A, tau.nr), chk=True)


@spec("ungq_work ungq_level2_work gen_householder_q_work", "FVmvmo?")
def _(c, F, V, A, tau, w):
    uq(c, A, tau, V == CW, qreg(c, F, V, A, tau.nr), w, chk=True)


def ungbrq(c, k, A, tau, w=None):
    m, n = A.nr, A.nc
    # m >= n >= min(m,k) and tau of length min(m,k) (m >= k) or m-1 otherwise
    c.le(n, m, "m >= n", False)
    c.le(c.min(m, k), n, "n >= min(m,k)", False)
    c.eq(tau.nr, c.min(m, k), "size(tau) == min(m,k)", False)
    c.R(A, lambda i, j: rel(i, ">=", j) & rel(j, "<", k))
    c.W(A)
    c.R(tau)
    if w is not None:
        work(c, w)


def ungbrp(c, k, A, tau, w=None):
    m, n = A.nr, A.nc
    c.le(m, n, "n >= m", False)
    c.le(c.min(n, k), m, "m >= min(n,k)", False)
    c.eq(tau.nr, c.min(n, k), "size(tau) == min(n,k)", False)
    c.R(A, lambda i, j: rel(j, ">=", i) & rel(i, "<", k))
    c.W(A)
    c.R(tau)
    if w is not None:
        work(c, w)


@spec("ungbr_q", "imvo?")
def _(c, k, A, tau):
    ungbrq(c, k, A, tau)


@spec("ungbr_q_work", "imvmo?")
def _(c, k, A, tau, w):
    ungbrq(c, k, A, tau, w)


@spec("ungbr_p", "imvo?")
def _(c, k, A, tau):
    ungbrp(c, k, A, tau)


@spec("ungbr_p_work", "imvmo?")
def _(c, k, A, tau, w):
    ungbrp(c, k, A, tau, w)


def unghr(c, ilo, ihi, A, tau):
    c.sq(A, "A is square", False)
    c.le(0, ilo, "0 <= ilo", False)
    c.le(ilo, ihi, "ilo <= ihi", False)
    c.le(ihi, A.nc, "ihi <= n", False)
    c.le(A.nc - 1, tau.nr, "size(tau) >= n-1")
    c.R(A, lambda i, j: rel(i, ">", j + 1) & rel(j, ">=", ilo) & rel(i, "<", ihi))
    c.W(A)
    c.R(tau)
    c.zero()


@spec("unghr", "iimv")
def _(c, ilo, ihi, A, tau):
    unghr(c, ilo, ihi, A, tau)


@spec("unghr_work", "iimvm")
def _(c, ilo, ihi, A, tau, w):
    unghr(c, ilo, ihi, A, tau)
    work(c, w)


@spec("ungtr", "Umv", unchecked="U")
def _(c, u, Q, tau):
    c.sq(Q, "Q is square", False)
    c.eq(tau.nr, c.max(Q.nr - 1, 0), "size(tau) == n-1", False)
    c.R(Q, supper if u == UP else slower)
    c.W(Q)
    c.R(tau)
    c.zero()


# ------------------------------------------------------------ applying Q
def unm(c, S, F, V, Vm, tau, C, w=None):
    nQ = C.nr if S == LE else C.nc
    k = tau.nr
    if V == CW:
        c.req(rel(Vm.nc, "==", k) & rel(Vm.nr, "==", nQ), "V is nQ x k")
    else:
        c.req(rel(Vm.nr, "==", k) & rel(Vm.nc, "==", nQ), "V is k x nQ")
    c.le(k, nQ, "k <= nQ", False)
    c.some(C.nr, C.nc)
    c.R(Vm, vreg(F, V, nQ, nQ, k))
    c.R(tau)
    c.RW(C)
    if w is not None:
        work(c, w)
    c.zero()


def mkunm(nm, F, V):
    @spec(nm, "SOmvmo?", O="OT")
    def _(c, S, O, A, tau, C):
        unm(c, S, F, V, A, tau, C)

    @spec(" ".join(x + "_work" for x in nm.split()), "SOmvmmo?", O="OT")
    def _(c, S, O, A, tau, C, w):
        unm(c, S, F, V, A, tau, C, w)


mkunm("unm2r unmqr", FW, CW)
mkunm("unm2l unmql", BW, CW)
mkunm("unml2 unmlq", FW, RW)
mkunm("unmr2 unmrq", BW, RW)


@spec("unmq unmq_level2 householder_q_mul", "SOFVmvmo?", O="OT")
def _(c, S, O, F, V, Vm, tau, C):
    unm(c, S, F, V, Vm, tau, C)


@spec("unmq_work unmq_level2_work householder_q_mul_work", "SOFVmvmmo?", O="OT")
def _(c, S, O, F, V, Vm, tau, C, w):
    unm(c, S, F, V, Vm, tau, C, w)


def unmhr(c, S, ilo, ihi, A, tau, C, w=None):
    nQ = C.nr if S == LE else C.nc
    c.sq(A, "A is square", False)
    c.eq(A.nr, nQ, "order of A", False)
    c.le(0, ilo, "0 <= ilo", False)
    c.le(ilo + 1, ihi, "ilo < ihi", False)
    c.le(ihi, A.nc, "ihi <= n", False)
    c.le(A.nc - 1, tau.nr, "size(tau) >= n-1", False)
    c.R(A, lambda i, j: rel(i, ">", j + 1) & rel(j, ">=", ilo) & rel(i, "<", ihi))
    c.R(tau)
    c.RW(C)
    if w is not None:
        work(c, w)
    c.zero()


@spec("unmhr", "SOiimvm", O="OT")
def _(c, S, O, ilo, ihi, A, tau, C):
    unmhr(c, S, ilo, ihi, A, tau, C)


@spec("unmhr_work", "SOiimvmm", O="OT", unchecked="SO")
def _(c, S, O, ilo, ihi, A, tau, C, w):
    unmhr(c, S, ilo, ihi, A, tau, C, w)


# ------------------------------------------------------------ reflectors
def larf1(c, S, V, x, C0, C1, w=None):
    m, n = C1.nr, C1.nc
    c.eq(x.nr, m if S == LE else n, "size(x) matches C1")
    c.eq(C0.nr, n if S == LE else m, "size(C0) matches C1", False)
    c.some(m, n)
    c.R(x)
    c.RW(C1)
    c.some(C0.nr)
    c.RW(C0)
    if w is not None:
        work(c, w)


@spec("larf", "SVvsvm")
def _(c, S, V, x, tau, C0, C1):
    larf1(c, S, V, x, C0, C1)


@spec("larf_work", "SVvsvmm")
def _(c, S, V, x, tau, C0, C1, w):
    larf1(c, S, V, x, C0, C1, w)


def larf2(c, S, F, v, C, w=None):
    m, n = C.nr, C.nc
    k = m if S == LE else n
    c.eq(v.nr, k, "size(v) matches C")
    c.some(m, n)
    c.R(v, rows(1, k) if F == FW else rows(0, k - 1))
    c.RW(C)
    if w is not None:
        work(c, w)


@spec("larf", "SFVvsm")
def _(c, S, F, V, v, tau, C):
    larf2(c, S, F, v, C)


@spec("larf_work", "SFVvsmm")
def _(c, S, F, V, v, tau, C, w):
    larf2(c, S, F, v, C, w)


@spec("larfg", "Vsvs", wonly=(3,))
def _(c, V, a, x, t):
    c.RW(x)


@spec("larfg", "FVvs", wonly=(3,))
def _(c, F, V, v, t):
    c.le(1, v.nr, "size(v) >= 1", False)
    c.RW(v)


def larfb(c, S, F, V, Vm, Tm, C, w=None):
    m, n, k = C.nr, C.nc, Tm.nr
    nQ = m if S == LE else n
    if V == CW:
        c.req(rel(Vm.nc, "==", k) & rel(Vm.nr, "==", nQ), "V is nQ x k")
    else:
        c.req(rel(Vm.nr, "==", k) & rel(Vm.nc, "==", nQ), "V is k x nQ")
    c.sq(Tm, "T is square")
    c.le(k, nQ, "k <= nQ", False)
    c.some(m, n)
    c.R(Vm, vreg(F, V, nQ, nQ, k))
    c.R(Tm, upper if F == FW else lower)
    c.RW(C)
    if w is not None:
        work(c, w)
    c.zero()


@spec("larfb", "SOFVmmm", O="OT")
def _(c, S, O, F, V, Vm, Tm, C):
    larfb(c, S, F, V, Vm, Tm, C)


@spec("larfb_work", "SOFVmmmm", O="OT")
def _(c, S, O, F, V, Vm, Tm, C, w):
    larfb(c, S, F, V, Vm, Tm, C, w)


@spec("larft", "FVmvm")
def _(c, F, V, Vm, tau, Tm):
    k = tau.nr
    n = Vm.nr if V == CW else Vm.nc
    c.le(k, Vm.nc if V == CW else Vm.nr, "k reflectors in V")
    c.req(rel(Tm.nr, ">=", k) & rel(Tm.nc, ">=", k), "T is k x k")
    c.le(k, n, "k <= n", False)
    if F == BW:
        c.eq(Vm.nc if V == CW else Vm.nr, k, "V has k reflectors", False)
    c.R(Vm, vreg(F, V, n, n, k))
    c.R(tau)
    c.W(Tm, inter(upper if F == FW else lower, box(0, k, 0, k)))
    c.zero()


@spec("inv_house3", "mvs")
def _(c, A, v, tau):
    c.le(2, A.nr, "A is 2 x 3", False)
    c.le(3, A.nc, "A is 2 x 3", False)
    c.eq(v.nr, 3, "size(v) == 3", False)
    c.R(A)
    c.W(v)


@spec("lahqr_shiftcolumn", "mvss")
def _(c, H, v, s1, s2):
    n = H.nc
    c.req(rel(n, "==", 2) | rel(n, "==", 3), "n is 2 or 3")
    c.sq(H, "H is square")
    c.eq(v.nr, n, "size(v) == n")
    c.R(H)
    c.W(v)
    c.zero()


@spec("lahqz_shiftcolumn", "mmvssss")
def _(c, A, B, v, s1, s2, b1, b2):
    n = A.nc
    c.req(rel(n, "==", 2) | rel(n, "==", 3), "n is 2 or 3")
    c.sq(A, "A is square")
    c.eq(B.nr, n, "nrows(B) == n", False)
    c.eq(B.nc, n, "ncols(B) == n", False)
    c.eq(v.nr, n, "size(v) == n")
    c.R(A)
    c.R(B)
    c.W(v)
    c.zero()


@spec("move_bulge", "mvss")
def _(c, H, v, s1, s2):
    c.eq(H.nr, 4, "H is 4 x 4", False)
    c.eq(H.nc, 4, "H is 4 x 4", False)
    c.eq(v.nr, 3, "size(v) == 3", False)
    c.RW(H)
    c.RW(v)


@spec("lahqz_eig22", "mmssss")
def _(c, A, B, *r):
    for X in (A, B):
        c.le(2, X.nr, "2 x 2", False)
        c.le(2, X.nc, "2 x 2", False)
    c.R(A)
    c.R(B, upper)


@spec("lahqz_schur22", "mmssssssssss")
def _(c, A, B):
    for X in (A, B):
        c.eq(X.nr, 2, "2 x 2", False)
        c.eq(X.nc, 2, "2 x 2", False)
    c.RW(A)
    c.RW(B)


# ------------------------------------------------------------ elementary
@spec("lacpy", "Umm", U=[UP, LO, GE])
def _(c, u, A, B):
    c.le(A.nr, B.nr, "nrows(B) >= nrows(A)", False)
    c.le(A.nc, B.nc, "ncols(B) >= ncols(A)", False)
    c.R(A, REG[u])
    c.W(B, inter(REG[u], box(0, A.nr, 0, A.nc)))


@spec("laset", "Ussm", U=[UP, LO, GE])
def _(c, u, a, b, A):
    c.W(A, REG[u])


@spec("lascl", "Ussm", U=[UP, LO, GE, UH, LH, SU, SL])
def _(c, u, b, a, A):
    c.RW(A, REG[u])
    c.zero()


@spec("lascl", "ossm")
def _(c, acc, b, a, A):
    kl, ku = band(acc)
    c.req(rel(0, "<=", kl) & rel(kl, "<", A.nr) & rel(0, "<=", ku) & rel(ku, "<", A.nc), "0 <= kl < m and 0 <= ku < n")
    c.RW(A, lambda i, j: rel(i, "<=", j + kl) & rel(j, "<=", i + ku))
    c.zero()


def band(acc):
    if not isinstance(acc, Rec):
        raise NoContract()
    return acc.get("lower_bandwidth"), acc.get("upper_bandwidth")


@spec("hasnan hasinf", "Um", U=[UP, LO, GE, UH, LH, SU, SL])
def _(c, u, A):
    c.R(A, REG[u])


@spec("hasnan hasinf", "om")
def _(c, acc, A):
    kl, ku = band(acc)
    c.req(rel(0, "<=", kl) & rel(0, "<=", ku), "bandwidths", False)
    c.R(A, lambda i, j: rel(i, "<=", j + kl) & rel(j, "<=", i + ku))


@spec("lange", "Nm")
def _(c, N, A):
    c.R(A)


@spec("infnorm_colmajor", "m")
def _(c, A):
    c.R(A)


@spec("infnorm_colmajor_work", "mm")
def _(c, A, w):
    c.R(A)
    work(c, w)


@spec("lanhe lansy", "NUm")
def _(c, N, u, A):
    c.sq(A, "A is square", False)
    c.R(A, REG[u])


@spec("infnorm_hermitian_colmajor infnorm_symmetric_colmajor", "Um")
def _(c, u, A):
    c.sq(A, "A is square", False)
    c.R(A, REG[u])


@spec("infnorm_hermitian_colmajor_work infnorm_symmetric_colmajor_work", "Umm")
def _(c, u, A, w):
    c.sq(A, "A is square", False)
    c.R(A, REG[u])
    work(c, w)


@spec("lantr", "NUDm")
def _(c, N, u, d, A):
    c.R(A, tri(u, d))


@spec("infnorm_triangular_colmajor", "UDm")
def _(c, u, d, A):
    c.R(A, tri(u, d))


@spec("infnorm_triangular_colmajor_work", "UDmm")
def _(c, u, d, A, w):
    c.R(A, tri(u, d))
    work(c, w)


@spec("lassq", "vss[fo]?")
def _(c, x, sc, su):
    c.R(x)


@spec("transpose conjtranspose", "mmo?")
def _(c, A, B, o=None):
    c.eq(A.nr, B.nc, "nrows(A) == ncols(B)")
    c.eq(A.nc, B.nr, "ncols(A) == nrows(B)")
    nxreq(c, o, 2)
    c.R(A)
    c.W(B)


def nxreq(c, o, lo):
    if isinstance(o, Rec) and isinstance(o.get("nx"), Lin):
        c.le(lo, o.get("nx"), "nx >= %d" % lo)


@spec("rot_sequence", "SFvvm", unchecked="S")
def _(c, S, F, cs, s, A):
    m, n = A.nr, A.nc
    k = (m if S == LE else n) - 1
    c.le(0, k, "at least one row (column)", False)
    c.eq(cs.nr, k, "size(c) == k")
    c.eq(s.nr, k, "size(s) == k")
    c.R(cs)
    c.R(s)
    c.RW(A)
    c.zero()


@spec("rot_sequence3", "SFmmm", unchecked="S")
def _(c, S, F, Cm, Sm, A):
    m, n = A.nr, A.nc
    k = (m if S == LE else n) - 1
    c.le(0, k, "at least one row (column)", False)
    c.eq(Sm.nc, Cm.nc, "ncols(S) == ncols(C)")
    c.eq(Cm.nr, k, "nrows(C) == k")
    c.eq(Sm.nr, k, "nrows(S) == k")
    c.R(Cm)
    c.R(Sm)
    c.RW(A)


@spec("hessenberg_rq", "mvvvv")
def _(c, Tm, cl, sl, cr, sr):
    n = Tm.nr
    c.sq(Tm, "T is square", False)
    c.le(1, n, "n >= 1", False)
    for v in (cl, sl, cr, sr):
        c.le(n - 1, v.nr, "rotations of length n-1", False)
    c.R(cl)
    c.R(sl)
    c.W(cr, rows(0, n - 1))
    c.W(sr, rows(0, n - 1))
    c.RW(Tm, uhess)


@spec("lasrt", "iiv")
def _(c, id, n, d):
    c.le(0, n, "n >= 0", False)
    c.le(n, d.nr, "size(d) >= n", False)
    c.RW(d)


@spec("lamrg", "iiviiv", noentry=True)
def _(c, n1, n2, a, d1, d2, ix):
    raise NoContract()


# ------------------------------------------------------------ LU, inverse
@spec("getrf getrf_level0 getrf_recursive", "mvo?")
def _(c, A, piv):
    c.le(kmin(c, A), piv.nr, "size(piv) >= min(m,n)")
    c.RW(A)
    c.W(piv, rows(0, kmin(c, A)))
    c.info(kmin(c, A))


@spec("getri", "mvo?")
def _(c, A, piv):
    c.sq(A, "A is square")
    c.le(A.nr, piv.nr, "size(piv) >= n", False)
    c.RW(A)
    c.R(piv, rows(0, A.nr))
    c.info(A.nr)


@spec("getri_work", "mvmo?")
def _(c, A, piv, w):
    c.sq(A, "A is square")
    c.le(A.nr, piv.nr, "size(piv) >= n", False)
    c.RW(A)
    c.R(piv, rows(0, A.nr))
    work(c, w)
    c.info(A.nr)


@spec("getri_uili getri_uxli", "m")
def _(c, A):
    c.sq(A, "A is square")
    c.RW(A)
    c.info(A.nr)


@spec("getri_uxli_work", "mm")
def _(c, A, w):
    c.sq(A, "A is square")
    c.RW(A)
    work(c, w)
    c.info(A.nr)


@spec("ul_mult", "m")
def _(c, A):
    c.sq(A, "A is square")
    c.RW(A)
    c.zero()


@spec("lu_mult", "mo?")
def _(c, A, o=None):
    c.sq(A, "A is square")
    nxreq(c, o, 1)
    c.RW(A)


@spec("mult_llh", "mo?")
def _(c, A, o=None):
    c.sq(A, "L is square")
    nxreq(c, o, 1)
    c.RW(A, lower)


@spec("mult_uhu", "mo?")
def _(c, A, o=None):
    c.sq(A, "U is square")
    nxreq(c, o, 1)
    c.RW(A, upper)


@spec("lauum_recursive", "Um")
def _(c, u, A):
    c.sq(A, "C is square")
    c.RW(A, REG[u])
    c.zero()


@spec("trtri_recursive", "UDmo?")
def _(c, u, d, A):
    c.sq(A, "C is square")
    c.RW(A, tri(u, d))
    c.info(L(0) if d == 85 else A.nr)


# ------------------------------------------------------------ Cholesky
@spec("potrf potrf2 potf2 potrf_blocked potrf_rl", "Umo?")
def _(c, u, A):
    c.sq(A, "A is square")
    c.RW(A, REG[u])
    c.info(A.nr)


@spec("potri", "Um")
def _(c, u, A):
    c.sq(A, "A is square")
    c.RW(A, REG[u])
    c.info(A.nr)


@spec("potrs", "Umm")
def _(c, u, A, B):
    c.sq(A, "A is square")
    c.eq(B.nr, A.nr, "nrows(B) == n")
    c.R(A, REG[u])
    c.RW(B)
    c.zero()


@spec("pbtrf_with_workspace", "Umio?")
def _(c, u, A, kd):
    c.sq(A, "A is square")
    c.req(rel(kd, "<", A.nr), "kd < n")
    c.le(0, kd, "kd >= 0", False)
    c.RW(A, (lambda i, j: rel(i, "<=", j) & rel(j, "<=", i + kd)) if u == UP else (lambda i, j: rel(j, "<=", i) & rel(i, "<=", j + kd)))
    c.info(A.nr)


@spec("pttrf", "vvo?")
def _(c, D, E):
    c.eq(D.nr, E.nr + 1, "size(D) == size(E)+1")
    c.RW(D)
    c.RW(E)
    c.info(D.nr)


# ------------------------------------------------------------ Hermitian indefinite, tridiagonal
@spec("hetd2", "Umv")
def _(c, u, A, tau):
    c.sq(A, "A is square")
    c.le(A.nr - 1, tau.nr, "size(tau) >= n-1")
    c.RW(A, REG[u])
    c.RW(tau, rows(0, A.nr - 1))
    c.zero()


def hetrf(c, u, A, ip, w=None, chk=False):
    c.sq(A, "A is square")
    c.eq(ip.nr, A.nr, "size(ipiv) == n", chk)
    c.RW(A, REG[u])
    c.W(ip)
    if w is not None:
        work(c, w)
    c.info(A.nr)


@spec("hetf3", "Umvmo?", nb=[3])
def _(c, u, A, ip, w, o=None):
    hetrf(c, u, A, ip, w, True)


@spec("hetrf hetrf_blocked", "Umvo?", nb=[3])
def _(c, u, A, ip, o=None):
    hetrf(c, u, A, ip)


@spec("hetrf_work hetrf_blocked_work", "Umvmo?", nb=[3])
def _(c, u, A, ip, w, o=None):
    hetrf(c, u, A, ip, w)


# ------------------------------------------------------------ eigenvalues, singular values
@spec("steqr", "bvvm")
def _(c, wz, d, e, Z):
    n = d.nr
    c.le(n - 1, e.nr, "size(e) >= n-1", False)
    c.RW(d)
    c.RW(e, rows(0, n - 1))
    if istrue(wz):
        c.eq(Z.nr, n, "nrows(Z) == n", False)
        c.eq(Z.nc, n, "ncols(Z) == n", False)
        c.RW(Z)
    c.info(n)


def istrue(b):
    if b is True or b is False:
        return b
    if isinstance(b, B):
        if b.T is TRUE:
            return True
        if b.T is FALSE:
            return False
    if isinstance(b, Lin) and b.const:
        return b.c != 0
    raise NoContract()


@spec("svd_qr", "Ubbvvmm")
def _(c, u, wu, wv, d, e, U, Vt):
    n = d.nr
    c.le(n - 1, e.nr, "size(e) >= n-1", False)
    c.RW(d)
    c.RW(e, rows(0, n - 1))
    if istrue(wu):
        c.le(n, U.nc, "ncols(U) >= n", False)
        c.RW(U)
    if istrue(wv):
        c.le(n, Vt.nr, "nrows(Vt) >= n", False)
        c.RW(Vt)
    c.info(n)


@spec("gesvd", "bbmvmmo?")
def _(c, wu, wv, A, s, U, Vt):
    m, n = A.nr, A.nc
    k = kmin(c, A)
    c.le(k, s.nr, "size(s) == min(m,n)", False)
    c.le(s.nr, k, "size(s) == min(m,n)", False)
    c.RW(A)
    c.W(s)
    if istrue(wu):
        c.eq(U.nr, m, "nrows(U) == m", False)
        c.req(rel(U.nc, "==", m) | rel(U.nc, "==", k), "ncols(U) is m or min(m,n)", False)
        c.W(U)
    if istrue(wv):
        c.eq(Vt.nc, n, "ncols(Vt) == n", False)
        c.req(rel(Vt.nr, "==", n) | rel(Vt.nr, "==", k), "nrows(Vt) is n or min(m,n)", False)
        c.W(Vt)
    c.info(k)


def qr(c, wt, wz, ilo, ihi, A, w, Z):
    n = A.nc
    c.sq(A, "A is square")
    c.eq(w.nr, n, "size(w) == n")
    if istrue(wz):
        c.req(rel(Z.nr, "==", n) & rel(Z.nc, "==", n), "Z is n x n")
    c.le(0, ilo, "0 <= ilo", False)
    c.le(ilo, ihi, "ilo <= ihi", False)
    c.le(ihi, n, "ihi <= n", False)
    c.RW(A)
    c.W(w)
    if istrue(wz):
        c.RW(Z)
    c.info(ihi)


@spec("lahqr multishift_qr qr_iteration", "bbiimvmo?")
def _(c, wt, wz, ilo, ihi, A, w, Z):
    qr(c, wt, wz, ilo, ihi, A, w, Z)


@spec("multishift_qr_work qr_iteration_work", "bbiimvmmo?")
def _(c, wt, wz, ilo, ihi, A, w, Z, wk):
    qr(c, wt, wz, ilo, ihi, A, w, Z)
    work(c, wk)


def sweep(c, wt, wz, ilo, ihi, A, s, Z):
    n = A.nc
    c.le(12, n, "n >= 12")
    c.sq(A, "A is square")
    if istrue(wz):
        c.eq(Z.nc, n, "ncols(Z) == n")
        c.eq(Z.nr, n, "nrows(Z) == n")
    c.le(0, ilo, "0 <= ilo", False)
    c.le(ilo, ihi, "ilo <= ihi", False)
    c.le(ihi, n, "ihi <= n", False)
    c.le(s.nr + s.nr, ihi - ilo, "size(s) small compared to the window", False)
    c.RW(A)
    c.R(s)
    if istrue(wz):
        c.RW(Z)


@spec("multishift_QR_sweep", "bbiimvm")
def _(c, wt, wz, ilo, ihi, A, s, Z):
    sweep(c, wt, wz, ilo, ihi, A, s, Z)


@spec("multishift_QR_sweep_work", "bbiimvmm")
def _(c, wt, wz, ilo, ihi, A, s, Z, w):
    sweep(c, wt, wz, ilo, ihi, A, s, Z)
    work(c, w)


def aed(c, wt, wz, ilo, ihi, nw, A, s, Z):
    n = A.nc
    c.sq(A, "A is square")
    if istrue(wz):
        c.eq(Z.nc, n, "ncols(Z) == n")
        c.eq(Z.nr, n, "nrows(Z) == n")
    c.eq(s.nr, n, "size(s) == n")
    c.le(0, ilo, "0 <= ilo", False)
    c.le(ilo, ihi, "ilo <= ihi", False)
    c.le(ihi, n, "ihi <= n", False)
    c.le(6, n, "n >= 6", False)
    c.le(1, nw, "nw >= 1", False)
    c.RW(A)
    c.W(s)
    if istrue(wz):
        c.RW(Z)


@spec("aggressive_early_deflation", "bbiiimvmiio?", wonly=(8, 9))
def _(c, wt, wz, ilo, ihi, nw, A, s, Z, ns, nd):
    aed(c, wt, wz, ilo, ihi, nw, A, s, Z)


@spec("aggressive_early_deflation_work", "bbiiimvmiimo?", wonly=(8, 9))
def _(c, wt, wz, ilo, ihi, nw, A, s, Z, ns, nd, w):
    aed(c, wt, wz, ilo, ihi, nw, A, s, Z)
    work(c, w)


@spec("lahqz multishift_qz", "bbbiimmvvmmo?")
def _(c, ws, wq, wz, ilo, ihi, A, Bm, al, be, Q, Z):
    n = A.nc
    c.sq(A, "A is square")
    c.eq(Bm.nc, n, "ncols(B) == n")
    c.eq(Bm.nr, n, "nrows(B) == n")
    c.eq(al.nr, n, "size(alpha) == n")
    c.eq(be.nr, n, "size(beta) == n")
    if istrue(wq):
        c.req(rel(Q.nr, "==", n) & rel(Q.nc, "==", n), "Q is n x n")
    if istrue(wz):
        c.req(rel(Z.nr, "==", n) & rel(Z.nc, "==", n), "Z is n x n")
    c.le(0, ilo, "0 <= ilo", False)
    c.le(ilo, ihi, "ilo <= ihi", False)
    c.le(ihi, n, "ihi <= n", False)
    c.RW(A)
    c.RW(Bm)
    c.W(al)
    c.W(be)
    if istrue(wq):
        c.RW(Q)
    if istrue(wz):
        c.RW(Z)
    c.info(ihi)


@spec("gghrd gghd3", "bbiimmmmo?", nb=[3])
def _(c, wq, wz, ilo, ihi, A, Bm, Q, Z, o=None):
    n = A.nc
    c.req(rel(0, "<=", ilo) & rel(ilo, "<", n), "0 <= ilo < n")
    c.req(rel(ilo, "<", ihi) & rel(ihi, "<=", n), "ilo < ihi <= n")
    c.sq(A, "A is square")
    for X, nm in ((Bm, "B"), (Q, "Q"), (Z, "Z")):
        c.eq(X.nc, n, "ncols(%s) == n" % nm)
        c.eq(X.nr, n, "nrows(%s) == n" % nm)
    c.RW(A)
    c.RW(Bm)
    if istrue(wq):
        c.RW(Q)
    if istrue(wz):
        c.RW(Z)
    c.zero()


def swp(c, wq, n, ms, j0, n1, n2):
    A = ms[0]
    c.sq(A, "A is square")
    Q = ms[-1]
    c.eq(Q.nr, n, "nrows(Q) == n")
    c.eq(Q.nc, n, "ncols(Q) == n")


@spec("schur_swap", "bmmiii")
def _(c, wq, A, Q, j0, n1, n2):
    n = A.nc
    c.sq(A, "A is square")
    c.eq(Q.nr, n, "nrows(Q) == n")
    c.eq(Q.nc, n, "ncols(Q) == n")
    c.le(0, j0, "0 <= j0", False)
    c.le(j0 + n1 + n2, n, "j0+n1+n2 <= n", not c.isc())
    if c.isc():
        c.eq(n1, 1, "n1 == 1")
        c.eq(n2, 1, "n2 == 1")
    else:
        c.req(rel(n1, "==", 1) | rel(n1, "==", 2), "n1 is 1 or 2")
        c.req(rel(n2, "==", 1) | rel(n2, "==", 2), "n2 is 1 or 2")
    c.RW(A)
    if istrue(wq):
        c.RW(Q)
    # only the exchange of two 2-by-2 blocks can be rejected
    c.info(1)
    if c.mode == "call" and isinstance(c.retv, Lin):
        c.st.ctx = c.st.ctx & (rel(c.retv, "==", 0) | (rel(n1, "==", 2) & rel(n2, "==", 2)))


@spec("generalized_schur_swap", "bbmmmmiii")
def _(c, wq, wz, A, Bm, Q, Z, j0, n1, n2):
    n = A.nc
    c.sq(A, "A is square")
    c.eq(Q.nr, n, "nrows(Q) == n")
    c.eq(Q.nc, n, "ncols(Q) == n")
    for X, nm in ((Bm, "B"), (Z, "Z")):
        c.eq(X.nr, n, "nrows(%s) == n" % nm, False)
        c.eq(X.nc, n, "ncols(%s) == n" % nm, False)
    c.le(0, j0, "0 <= j0", False)
    c.le(j0 + n1 + n2, n, "j0+n1+n2 <= n", not c.isc())
    if c.isc():
        c.eq(n1, 1, "n1 == 1")
        c.eq(n2, 1, "n2 == 1")
    else:
        c.req(rel(n1, "==", 1) | rel(n1, "==", 2), "n1 is 1 or 2")
        c.req(rel(n2, "==", 1) | rel(n2, "==", 2), "n2 is 1 or 2")
    c.RW(A)
    c.RW(Bm)
    if istrue(wq):
        c.RW(Q)
    if istrue(wz):
        c.RW(Z)
    c.info(1)


@spec("schur_move", "bmmii")
def _(c, wq, A, Q, a, b):
    n = A.nc
    c.sq(A, "A is square", False)
    c.eq(Q.nr, n, "nrows(Q) == n", False)
    c.eq(Q.nc, n, "ncols(Q) == n", False)
    for x in (a, b):
        c.req(rel(0, "<=", x) & rel(x, "<", n), "0 <= position < n", False)
    c.RW(A)
    if istrue(wq):
        c.RW(Q)
    c.info(1)


@spec("generalized_schur_move", "bbmmmmii")
def _(c, wq, wz, A, Bm, Q, Z, a, b):
    n = A.nc
    c.sq(A, "A is square", False)
    for X, nm in ((Bm, "B"), (Q, "Q"), (Z, "Z")):
        c.eq(X.nr, n, "nrows(%s) == n" % nm, False)
        c.eq(X.nc, n, "ncols(%s) == n" % nm, False)
    for x in (a, b):
        c.req(rel(0, "<=", x) & rel(x, "<", n), "0 <= position < n", False)
    c.RW(A)
    c.RW(Bm)
    if istrue(wq):
        c.RW(Q)
    if istrue(wz):
        c.RW(Z)
    c.info(1)


# ------------------------------------------------------------ eigenvectors
@spec("trevc_colnorms", "Nmv", N=[49, 73])
def _(c, N, Tm, cn):
    c.sq(Tm, "T is square")
    c.eq(cn.nr, Tm.nr, "size(colN) == n")
    c.R(Tm)
    c.W(cn)


def tsolve(c, Tm, vs, k, cn, last):
    n = Tm.nr
    c.sq(Tm, "T is square")
    for v in vs:
        c.eq(v.nr, n, "size(v) == n")
    c.le(0, k, "0 <= k", False)
    c.le(k + last, n - 1, "k < n")
    c.eq(cn.nr, n, "size(colN) == n", False)
    c.R(Tm, uhess)
    c.R(cn)
    for v in vs:
        c.W(v)


@spec("trevc_backsolve_single trevc_forwardsolve_single", "mviv")
def _(c, Tm, v, k, cn):
    tsolve(c, Tm, [v], k, cn, 0)


@spec("trevc_backsolve_double", "mvviv")
def _(c, Tm, v, w, k, cn):
    tsolve(c, Tm, [v, w], k, cn, 1)


@spec("trevc_forwardsolve_double", "mvviv")
def _(c, Tm, v, w, k, cn):
    tsolve(c, Tm, [v, w], k, cn, 1)


# ------------------------------------------------------------ triangular and structured products
@spec("gemmtr", "UOOsmmsm")
def _(c, u, ta, tb, a, A, Bm, be, C):
    n, k = op(A, ta)
    k2, n2 = op(Bm, tb)
    c.eq(n, n2, "op(A) and op(B) have matching order")
    c.req(rel(C.nr, "==", n2) & rel(C.nc, "==", n2), "C is n x n")
    c.eq(k, k2, "inner dimensions")
    c.some(n, k)
    c.R(A)
    c.R(Bm)
    c.some(n)
    c.RW(C, REG[u])


@spec("hemm2", "SUOsmm[so]?m", U=[UP, LO], unchecked="UO")
def _(c, S, u, tb, a, A, Bm, be, C=None):
    if C is None:
        be, C = None, be
    m, n = op(Bm, tb)
    c.sq(A, "A is square")
    c.eq(A.nr, m if S == LE else n, "order of A")
    c.eq(C.nr, m, "nrows(C)")
    c.eq(C.nc, n, "ncols(C)")
    c.some(m, n)
    c.R(A, REG[u])
    c.R(Bm)
    if be is None or isinstance(be, Rec):
        c.W(C)
    else:
        c.RW(C)


@spec("mult_hehe", "Usmm[so]?m", unchecked="U")
def _(c, u, a, A, Bm, be, C=None):
    if C is None:
        be, C = None, be
    n = A.nc
    c.sq(A, "A is square", False)
    for X, nm in ((Bm, "B"), (C, "C")):
        c.eq(X.nr, n, "nrows(%s) == n" % nm, False)
        c.eq(X.nc, n, "ncols(%s) == n" % nm, False)
    c.R(A, REG[u])
    c.R(Bm, REG[u])
    if be is None or isinstance(be, Rec):
        c.W(C)
    else:
        c.RW(C)


@spec("trmm_out", "SUODOsmmsm", at={2: [NT]}, unchecked="SUO")
def _(c, S, u, ta, d, tb, a, A, Bm, be, C):
    m, n = op(Bm, tb)
    c.sq(A, "A is square", False)
    c.eq(A.nr, m if S == LE else n, "order of A", False)
    c.eq(C.nr, m, "nrows(C)", False)
    c.eq(C.nc, n, "ncols(C)", False)
    c.R(A, tri(u, d))
    c.R(Bm)
    c.RW(C)


@spec("trsm_tri", "SUODsmm", unchecked="SUO")
def _(c, S, u, ta, d, a, A, Bm):
    c.sq(A, "A is square", False)
    c.eq(Bm.nr, A.nr, "B has the order of A", False)
    c.eq(Bm.nc, A.nr, "B has the order of A", False)
    ua = u if ta == NT else (LO if u == UP else UP)
    c.R(A, tri(ua, d))
    c.RW(Bm, REG[u])


# the other cases are a documented todo
@spec("trmm_blocked_mixed", "SUODsmmmo?", nb=[3], S=[LE], U=[UP], O=[NT])
def _(c, S, u, ta, d, a, A, Bm, w, o=None):
    c.sq(A, "A is square")
    c.eq(A.nr, Bm.nr if S == LE else Bm.nc, "order of A")
    c.R(A, tri(u, d))
    c.RW(Bm)
    work(c, w)


# ------------------------------------------------------------ least squares
@spec("tik_bidiag_elden tik_qr tkhnv tik_svd", "mmso?")
def _(c, A, b, lam):
    c.le(A.nc, A.nr, "m >= n")
    c.eq(b.nr, A.nr, "nrows(b) == m", False)
    c.RW(A)
    c.RW(b)


@spec("trge_qr2", "mv")
def _(c, A, tau):
    c.le(A.nc, A.nr, "at least n rows", False)
    c.le(A.nc, tau.nr, "size(tau) >= n", False)
    c.RW(A)
    c.W(tau)


@spec("trge_ung2r", "mv")
def _(c, W, tau):
    c.le(tau.nr, W.nr, "at least n rows", False)
    c.le(tau.nr, W.nc, "at least n columns", False)
    c.le(W.nc, W.nr, "orthonormal columns: at most as many as rows", False)
    c.RW(W)
    c.R(tau)


@spec("lasy2", "OOimmmsms")
def _(c, ta, tb, isgn, TL, TR, Bm, sc, X, xn):
    for M in (TL, TR):
        c.sq(M, "square", False)
        c.req(rel(M.nr, "==", 1) | rel(M.nr, "==", 2), "order 1 or 2", False)
    c.eq(TL.nr, TR.nr, "equal orders (the mixed case is a documented todo)", False)
    for M in (Bm, X):
        c.eq(M.nr, TL.nr, "rows", False)
        c.eq(M.nc, TR.nr, "columns", False)
    c.req(rel(isgn, "==", 1) | rel(isgn, "==", -1), "isign is 1 or -1")
    c.R(TL)
    c.R(TR)
    c.R(Bm)
    c.W(X)
