"""Contracts of the BLAS kernels."""
from spec import *


def op(A, t):
    return (A.nr, A.nc) if t in (NT, CJ) else (A.nc, A.nr)


@spec("asum nrm2 iamax iamax_nc iamax_ec hasnan hasinf", "v[fo]?")
def _(c, x, o=None):
    c.R(x)


@spec("axpy", "svv")
def _(c, a, x, y):
    c.le(x.nr, y.nr, "size(y) >= size(x)")
    c.R(x)
    c.RW(y, rows(0, x.nr))


@spec("copy", "vv")
def _(c, x, y):
    c.le(x.nr, y.nr, "size(y) >= size(x)")
    c.R(x)
    c.W(y, rows(0, x.nr))


@spec("dot dotu", "vv")
def _(c, x, y):
    c.eq(x.nr, y.nr, "size(x) == size(y)")
    c.R(x)
    c.R(y)


@spec("swap", "vv")
def _(c, x, y):
    c.eq(x.nr, y.nr, "size(x) == size(y)")
    c.RW(x)
    c.RW(y)


@spec("rot", "vvss")
def _(c, x, y, cs, s):
    c.eq(x.nr, y.nr, "size(x) == size(y)")
    c.RW(x)
    c.RW(y)


@spec("rotm", "vv[fo]")
def _(c, x, y, h):
    c.eq(x.nr, y.nr, "size(x) == size(y)")
    c.RW(x)
    c.RW(y)


@spec("scal rscl", "sv")
def _(c, a, x):
    c.RW(x)


@spec("conjugate", "v")
def _(c, x):
    c.RW(x)


@spec("ger geru", "svvm")
def _(c, a, x, y, A):
    c.eq(x.nr, A.nr, "size(x) == nrows(A)")
    c.eq(y.nr, A.nc, "size(y) == ncols(A)")
    c.some(A.nr, A.nc)
    c.R(x)
    c.R(y)
    c.RW(A)


def beta_access(c, C, be, reg=full):
    if be is None or isinstance(be, Rec):
        c.W(C, reg)
    else:
        c.RW(C, reg)


@spec("gemv", "Osmv[so]?v", O=[NT, T, CT, CJ])
def _(c, t, a, A, x, be, y=None):
    if y is None:
        be, y = None, be
    m, n = op(A, t)
    c.eq(x.nr, n, "size(x) == columns of op(A)")
    c.eq(y.nr, m, "size(y) == rows of op(A)")
    c.some(m, n)
    c.R(A)
    c.R(x)
    c.some(m)
    beta_access(c, y, be)


@spec("gemm", "OOsmm[so]?m")
def _(c, ta, tb, a, A, B, be, C=None):
    if C is None:
        be, C = None, be
    m, k = op(A, ta)
    k2, n = op(B, tb)
    c.eq(C.nr, m, "nrows(C) == rows of op(A)")
    c.eq(C.nc, n, "ncols(C) == columns of op(B)")
    c.eq(k, k2, "columns of op(A) == rows of op(B)")
    c.some(m, n, k)
    c.R(A)
    c.R(B)
    c.some(m, n)
    beta_access(c, C, be)


@spec("hemm symm", "SUsmm[so]?m", U=[UP, LO, GE])
def _(c, s, u, a, A, B, be, C=None):
    if C is None:
        be, C = None, be
    c.sq(A, "A is square")
    c.eq(A.nr, B.nr if s == LE else B.nc, "order of A matches B")
    c.eq(C.nr, B.nr, "nrows(C) == nrows(B)")
    c.eq(C.nc, B.nc, "ncols(C) == ncols(B)")
    c.some(B.nr, B.nc)
    c.R(A, tri(u))
    c.R(B)
    beta_access(c, C, be)


@spec("hemv symv", "Usmv[so]?v")
def _(c, u, a, A, x, be, y=None):
    if y is None:
        be, y = None, be
    c.sq(A, "A is square")
    c.eq(x.nr, A.nr, "size(x) == nrows(A)")
    c.eq(y.nr, A.nr, "size(y) == nrows(A)")
    c.R(A, tri(u))
    c.R(x)
    beta_access(c, y, be)


@spec("her syr", "Usvm")
def _(c, u, a, x, A):
    c.eq(x.nr, A.nr, "size(x) == nrows(A)")
    c.sq(A, "A is square")
    c.R(x)
    c.RW(A, tri(u))


@spec("her2 syr2", "Usvvm")
def _(c, u, a, x, y, A):
    c.eq(x.nr, A.nr, "size(x) == nrows(A)")
    c.eq(y.nr, A.nr, "size(y) == nrows(A)")
    c.sq(A, "A is square")
    c.R(x)
    c.R(y)
    c.RW(A, tri(u))


def rk2(c, u, t, a, A, B, be, C=None):
    if C is None:
        be, C = None, be
    n, k = op(A, t)
    c.req(rel(B.nr, "==", A.nr), "nrows(B) == nrows(A)")
    c.req(rel(B.nc, "==", A.nc), "ncols(B) == ncols(A)")
    c.sq(C, "C is square")
    c.eq(C.nr, n, "order of C == rows of op(A)")
    c.some(n, k)
    c.R(A)
    c.R(B)
    c.some(n)
    beta_access(c, C, be, tri(u))


spec("her2k", "UOsmm[so]?m", U=[UP, LO, GE], O=[NT, CT])(rk2)
spec("syr2k", "UOsmm[so]?m", U=[UP, LO, GE], O=[NT, T])(rk2)


def rk1(c, u, t, a, A, be, C=None):
    if C is None:
        be, C = None, be
    n, k = op(A, t)
    c.sq(C, "C is square")
    c.eq(C.nr, n, "order of C == rows of op(A)")
    c.some(n, k)
    c.R(A)
    c.some(n)
    beta_access(c, C, be, tri(u))


spec("herk", "UOsm[so]?m", U=[UP, LO, GE], O=[NT, CT])(rk1)
spec("syrk", "UOsm[so]?m", U=[UP, LO, GE], O=[NT, T])(rk1)


@spec("trmm trsm", "SUODsmm")
def _(c, s, u, t, d, a, A, B):
    c.sq(A, "A is square")
    c.eq(A.nr, B.nr if s == LE else B.nc, "order of A matches B")
    c.some(B.nr, B.nc)
    c.R(A, tri(u, d))
    c.RW(B)


@spec("trmv trsv", "UODmv", O=[NT, T, CT, CJ])
def _(c, u, t, d, A, x):
    c.sq(A, "A is square")
    c.eq(x.nr, A.nr, "size(x) == nrows(A)")
    c.R(A, tri(u, d))
    c.RW(x)


@spec("lartg", "sssss", wonly=(2, 3, 4))
def _(c, *a):
    pass
