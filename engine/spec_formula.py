"""Documented values of the final array elements."""
from formula import *
from spec import *
from dom import *

CONJ = (CT, CJ)


def opel(fs, A, t, i, j, lab=None, inv=False):
    """element (i,j) of op(A)"""
    if t in (T, CT):
        i, j = j, i
    return fs.el(A, i, j, conj=t in CONJ, lab=lab, inv=inv)


def symel(fs, A, u, i, j, herm):
    """element (i,j) of the symmetric/Hermitian matrix stored in triangle u:
    [(factor, set, coefficient)]"""
    up = u != LO
    ins = rel(i, "<" if up else ">", j)
    out_ = rel(i, ">" if up else "<", j)
    dg = rel(i, "==", j)
    r = [(fs.el(A, i, j), ins, 1), (fs.el(A, j, i, conj=herm), out_, 1)]
    if herm and A.root.et == "c":
        r += [(fs.el(A, i, i), dg, Fr(1, 2)), (fs.el(A, i, i, conj=True), dg, Fr(1, 2))]
    else:
        r.append((fs.el(A, i, i), dg, 1))
    return r


def triel(fs, A, u, t, d, i, j, lab=None):
    """element (i,j) of op(A), A triangular: [(factors, set)]"""
    up = (u == UP) != (t in (T, CT))
    r = [((opel(fs, A, t, i, j, lab),), rel(i, "<" if up else ">", j))]
    dg = rel(i, "==", j)
    r.append(((), dg) if d == UN else ((opel(fs, A, t, i, j, lab),), dg))
    return r


def mulr(fs, terms, sc):
    """sc: factor list, or None for the strong zero"""
    return [] if sc is None else terms


@formula("axpy", "svv")
def _(fs, a, x, y):
    i = fs.ix("i")
    fs.out(y, i, None, rel(i, "<", x.nr))
    fs.add([fs.el(y, i)])
    fs.add(fs.sc(a) + (fs.el(x, i),))


@formula("copy", "vv")
def _(fs, x, y):
    i = fs.ix("i")
    fs.out(y, i, None, rel(i, "<", x.nr))
    fs.add([fs.el(x, i)])


@formula("swap", "vv")
def _(fs, x, y):
    i = fs.ix("i")
    fs.out(y, i, None)
    fs.add([fs.el(x, i, lab="old")])
    fs.out(x, i, None)
    fs.add([fs.el(y, i, lab="old")])


@formula("rot", "vvss")
def _(fs, x, y, c, s):
    i = fs.ix("i")
    X, Y = fs.el(x, i, lab="old"), fs.el(y, i, lab="old")
    fs.out(x, i, None)
    fs.add(fs.sc(c) + (X,))
    fs.add(fs.sc(s) + (Y,))
    fs.out(y, i, None)
    fs.add(fs.sc(c) + (Y,))
    fs.add(fs.sc(s, conj=True) + (X,), co=-1)


@formula("scal", "sv")
def _(fs, a, x):
    i = fs.ix("i")
    fs.out(x, i, None)
    fs.add(fs.sc(a) + (fs.el(x, i, lab="old"),))


@formula("conjugate", "v")
def _(fs, x):
    i = fs.ix("i")
    fs.out(x, i, None)
    fs.add([fs.el(x, i, conj=True, lab="old")])


@formula("dot dotu", "vv")
def _(fs, x, y):
    i = fs.ix("i")
    fs.ret([fs.el(x, i, conj=fs.name == "dot"), fs.el(y, i)], fs.inside(x, i))


@formula("asum", "v")
def _(fs, x):
    i = fs.ix("i")
    fs.ret([fs.el(x, i, fn="abs1" if x.root.et == "c" else "abs")], fs.inside(x, i))


@formula("ger geru", "svvm")
def _(fs, a, x, y, A):
    i, j = fs.ix("i", "j")
    fs.out(A, i, j)
    fs.add([fs.el(A, i, j, lab="old")])
    fs.add(fs.sc(a) + (fs.el(x, i), fs.el(y, j, conj=fs.name == "ger")))


def beta(fs, be, x):
    b = fs.sc(be)
    if b is not None:
        for co, z in x:
            fs.add(b + (z,), co=co)


@formula("gemv", "Osmv[so]?v")
def _(fs, t, a, A, x, be, y=None):
    if y is None:
        be, y = None, be
    i, k = fs.ix("i", "k")
    fs.out(y, i, None)
    beta(fs, be, [(1, fs.el(y, i, lab="old"))])
    fs.add(fs.sc(a) + (opel(fs, A, t, i, k), fs.el(x, k)), fs.inside(x, k))


@formula("gemm", "OOsmm[so]?m")
def _(fs, ta, tb, a, A, B, be, C=None):
    if C is None:
        be, C = None, be
    i, j, k = fs.ix("i", "j", "k")
    fs.out(C, i, j)
    beta(fs, be, [(1, fs.el(C, i, j, lab="old"))])
    n = A.nc if ta in (NT, CJ) else A.nr
    fs.add(fs.sc(a) + (opel(fs, A, ta, i, k), opel(fs, B, tb, k, j)), rel(k, ">=", 0) & rel(k, "<", n))


@formula("hemm symm", "SUsmm[so]?m")
def _(fs, s, u, a, A, B, be, C=None):
    if C is None:
        be, C = None, be
    i, j, k = fs.ix("i", "j", "k")
    fs.out(C, i, j)
    beta(fs, be, [(1, fs.el(C, i, j, lab="old"))])
    rg = rel(k, ">=", 0) & rel(k, "<", A.nr)
    herm = fs.name == "hemm"
    for e, d, co in symel(fs, A, u, i, k, herm) if s == LE else symel(fs, A, u, k, j, herm):
        fs.add(fs.sc(a) + (e, fs.el(B, k, j) if s == LE else fs.el(B, i, k)), rg & d, co=co)


@formula("hemv symv", "Usmv[so]?v")
def _(fs, u, a, A, x, be, y=None):
    if y is None:
        be, y = None, be
    i, k = fs.ix("i", "k")
    fs.out(y, i, None)
    beta(fs, be, [(1, fs.el(y, i, lab="old"))])
    for e, d, co in symel(fs, A, u, i, k, fs.name == "hemv"):
        fs.add(fs.sc(a) + (e, fs.el(x, k)), fs.inside(x, k) & d, co=co)


def tri_out(fs, C, u, herm, body, be=None, one=False):
    """C := body + beta C in triangle u; body(i,j) -> [(factors, set, co)]"""
    i, j = fs.ix("i", "j")
    fs.out(C, i, j, tri(UP if u == GE else u)(i, j))
    b = () if one else fs.sc(be)
    if b is not None:
        c = fs.el(C, i, j, lab="old")
        if herm and C.root.et == "c":
            dg = rel(i, "==", j)
            fs.add(b + (c,), rel(i, "!=", j))
            fs.add(b + (c,), dg, co=Fr(1, 2))
            fs.add(b + (fs.el(C, i, j, conj=True, lab="old"),), dg, co=Fr(1, 2))
        else:
            fs.add(b + (c,))
    for f, d, co in body(i, j):
        fs.add(f, d, co=co)
    if u == GE:
        # the other triangle follows
        fs.out(C, i, j, slower(i, j))
        fs.add([fs.el(C, j, i, conj=herm, lab="new")])


@formula("her syr", "Usvm")
def _(fs, u, a, x, A):
    h = fs.name == "her"
    tri_out(fs, A, u, h, lambda i, j: [(fs.sc(a) + (fs.el(x, i), fs.el(x, j, conj=h)), TRUE, 1)], one=True)


@formula("her2 syr2", "Usvvm")
def _(fs, u, a, x, y, A):
    h = fs.name == "her2"
    tri_out(fs, A, u, h, lambda i, j: [(fs.sc(a) + (fs.el(x, i), fs.el(y, j, conj=h)), TRUE, 1), (fs.sc(a, conj=h) + (fs.el(y, i), fs.el(x, j, conj=h)), TRUE, 1)], one=True)


@formula("herk syrk", "UOsm[so]?m")
def _(fs, u, t, a, A, be, C=None):
    if C is None:
        be, C = None, be
    h = fs.name == "herk"
    k = fs.ix("k")
    n = A.nc if t == NT else A.nr
    rg = rel(k, ">=", 0) & rel(k, "<", n)

    def body(i, j):
        f = opel(fs, A, t, i, k)
        g = opel(fs, A, t, j, k)
        return [(fs.sc(a) + (f, fconj_(g) if h else g), rg, 1)]
    tri_out(fs, C, u, h, body, be)


@formula("her2k syr2k", "UOsmm[so]?m")
def _(fs, u, t, a, A, B, be, C=None):
    if C is None:
        be, C = None, be
    h = fs.name == "her2k"
    k = fs.ix("k")
    n = A.nc if t == NT else A.nr
    rg = rel(k, ">=", 0) & rel(k, "<", n)

    def body(i, j):
        cj = fconj_ if h else (lambda z: z)
        return [(fs.sc(a) + (opel(fs, A, t, i, k), cj(opel(fs, B, t, j, k))), rg, 1),
                (fs.sc(a, conj=h) + (opel(fs, B, t, i, k), cj(opel(fs, A, t, j, k))), rg, 1)]
    tri_out(fs, C, u, h, body, be)


@formula("trmm", "SUODsmm")
def _(fs, s, u, t, d, a, A, B):
    i, j, k = fs.ix("i", "j", "k")
    fs.out(B, i, j)
    rg = rel(k, ">=", 0) & rel(k, "<", A.nr)
    for f, dm in triel(fs, A, u, t, d, i, k) if s == LE else triel(fs, A, u, t, d, k, j):
        fs.add(fs.sc(a) + f + ((fs.el(B, k, j, lab="old") if s == LE else fs.el(B, i, k, lab="old")),), rg & dm)


@formula("trmv", "UODmv")
def _(fs, u, t, d, A, x):
    i, k = fs.ix("i", "k")
    fs.out(x, i, None)
    for f, dm in triel(fs, A, u, t, d, i, k):
        fs.add(f + (fs.el(x, k, lab="old"),), fs.inside(x, k) & dm)


@formula("trsm", "SUODsmm", prefer="new")
def _(fs, s, u, t, d, a, A, B):
    i, j, k = fs.ix("i", "j", "k")
    fs.out(B, i, j)
    dg = (opel(fs, A, t, i, i, inv=True) if s == LE else opel(fs, A, t, j, j, inv=True),) if d != UN else ()
    fs.add(fs.sc(a) + (fs.el(B, i, j, lab="old"),) + dg)
    rg = rel(k, ">=", 0) & rel(k, "<", A.nr)
    up = (u == UP) != (t in (T, CT))
    if s == LE:
        fs.add((opel(fs, A, t, i, k), fs.el(B, k, j, lab="new")) + dg, rg & rel(k, ">" if up else "<", i), co=-1)
    else:
        fs.add((opel(fs, A, t, k, j), fs.el(B, i, k, lab="new")) + dg, rg & rel(k, "<" if up else ">", j), co=-1)


@formula("trsv", "UODmv", prefer="new")
def _(fs, u, t, d, A, x):
    i, k = fs.ix("i", "k")
    fs.out(x, i, None)
    dg = (opel(fs, A, t, i, i, inv=True),) if d != UN else ()
    fs.add((fs.el(x, i, lab="old"),) + dg)
    up = (u == UP) != (t in (T, CT))
    fs.add((opel(fs, A, t, i, k), fs.el(x, k, lab="new")) + dg, fs.inside(x, k) & rel(k, ">" if up else "<", i), co=-1)


# ------------------------------------------------------------- LAPACK level
@formula("lacpy", "Umm")
def _(fs, u, A, B):
    i, j = fs.ix("i", "j")
    fs.out(B, i, j, tri(u)(i, j) & fs.inside(A, i, j))
    fs.add([fs.el(A, i, j)])


@formula("laset", "Ussm")
def _(fs, u, a, b, A):
    i, j = fs.ix("i", "j")
    fs.out(A, i, j, tri(u)(i, j))
    fs.add(fs.sc(a), rel(i, "!=", j))
    fs.add(fs.sc(b), rel(i, "==", j))


@formula("transpose conjtranspose", "mmo?")
def _(fs, A, B, o=None):
    i, j = fs.ix("i", "j")
    fs.out(B, i, j)
    fs.add([fs.el(A, j, i, conj=fs.name == "conjtranspose")])


# products and solves that are used as steps of the routines below
BLAS = ("gemm gemv ger geru trmm trsm trmv trsv herk syrk her2k syr2k hemm symm hemv symv axpy copy scal rot swap dot dotu her syr her2 syr2 lacpy laset transpose conjtranspose conjugate larf larf_work larfb larfb_work "
        "mult_llh mult_uhu lauum_recursive gemmtr trmm_out trsm_tri").split()


def rng(k, n, lo=0):
    return rel(k, ">=", lo) & rel(k, "<", n)


@formula("lauum_recursive", "Um", calls=BLAS)
def _(fs, u, A):
    i, j, k = fs.ix("i", "j", "k")
    fs.out(A, i, j, tri(u)(i, j))
    f = lambda r, c, cj=False: fs.el(A, r, c, conj=cj, lab="old")
    if u == LO:
        fs.add([f(k, i, True), f(k, j)], rng(k, A.nr) & rel(k, ">=", i))
    else:
        fs.add([f(i, k), f(j, k, True)], rng(k, A.nr) & rel(k, ">=", j))


@formula("mult_llh mult_uhu", "mo?", calls=BLAS)
def _(fs, A, o=None):
    i, j, k = fs.ix("i", "j", "k")
    f = lambda r, c, cj=False: fs.el(A, r, c, conj=cj, lab="old")
    if fs.name == "mult_llh":
        fs.out(A, i, j, lower(i, j))
        fs.add([f(i, k), f(j, k, True)], rng(k, A.nr) & rel(k, "<=", j))
    else:
        fs.out(A, i, j, upper(i, j))
        fs.add([f(k, i, True), f(k, j)], rng(k, A.nr) & rel(k, "<=", i))


@formula("lu_mult ul_mult", "mo?", calls=BLAS)
def _(fs, A, o=None):
    i, j, k = fs.ix("i", "j", "k")
    f = lambda r, c, cj=False: fs.el(A, r, c, conj=cj, lab="old")
    fs.out(A, i, j)
    if fs.name == "lu_mult":
        fs.add([f(i, k), f(k, j)], rng(k, A.nr) & rel(k, "<", i) & rel(k, "<=", j))
        fs.add([f(i, j)], rel(i, "<=", j))
    else:
        fs.add([f(i, k), f(k, j)], rng(k, A.nr) & rel(k, ">", j) & rel(k, ">=", i))
        fs.add([f(i, j)], rel(i, "<=", j))


@formula("gemmtr", "UOOsmmsm", calls=BLAS)
def _(fs, u, ta, tb, a, A, Bm, be, C):
    i, j, k = fs.ix("i", "j", "k")
    fs.out(C, i, j, tri(u)(i, j))
    beta(fs, be, [(1, fs.el(C, i, j, lab="old"))])
    n = A.nc if ta in (NT, CJ) else A.nr
    fs.add(fs.sc(a) + (opel(fs, A, ta, i, k), opel(fs, Bm, tb, k, j)), rng(k, n))


@formula("hemm2", "SUOsmm[so]?m", calls=BLAS)
def _(fs, S, u, tb, a, A, Bm, be, C=None):
    if C is None:
        be, C = None, be
    i, j, k = fs.ix("i", "j", "k")
    fs.out(C, i, j)
    beta(fs, be, [(1, fs.el(C, i, j, lab="old"))])
    for e, d, co in symel(fs, A, u, i, k, True) if S == LE else symel(fs, A, u, k, j, True):
        fs.add(fs.sc(a) + (e, opel(fs, Bm, tb, k, j) if S == LE else opel(fs, Bm, tb, i, k)), rng(k, A.nr) & d, co=co)


@formula("mult_hehe", "Usmm[so]?m", calls=BLAS)
def _(fs, u, a, A, Bm, be, C=None):
    if C is None:
        be, C = None, be
    i, j, k = fs.ix("i", "j", "k")
    fs.out(C, i, j)
    beta(fs, be, [(1, fs.el(C, i, j, lab="old"))])
    for e, d, co in symel(fs, A, u, i, k, True):
        for e2, d2, co2 in symel(fs, Bm, u, k, j, True):
            fs.add(fs.sc(a) + (e, e2), rng(k, A.nr) & d & d2, co=co * co2)


@formula("trmm_out", "SUODOsmmsm", calls=BLAS)
def _(fs, S, u, ta, d, tb, a, A, Bm, be, C):
    i, j, k = fs.ix("i", "j", "k")
    fs.out(C, i, j)
    beta(fs, be, [(1, fs.el(C, i, j, lab="old"))])
    for f, dm in triel(fs, A, u, ta, d, i, k) if S == LE else triel(fs, A, u, ta, d, k, j):
        fs.add(fs.sc(a) + f + (opel(fs, Bm, tb, k, j) if S == LE else opel(fs, Bm, tb, i, k),), rng(k, A.nr) & dm)


@formula("trsm_tri", "SUODsmm", prefer="new", calls=BLAS)
def _(fs, S, ub, t, d, a, A, B):
    # op(A) and B have the same shape
    i, j, k = fs.ix("i", "j", "k")
    fs.out(B, i, j, tri(ub)(i, j))
    dg = (opel(fs, A, t, i, i, inv=True) if S == LE else opel(fs, A, t, j, j, inv=True),) if d != UN else ()
    fs.add(fs.sc(a) + (fs.el(B, i, j, lab="old"),) + dg)
    up = ub == UP
    if S == LE:
        fs.add((opel(fs, A, t, i, k), fs.el(B, k, j, lab="new")) + dg, rng(k, A.nr) & rel(k, ">" if up else "<", i) & tri(ub)(k, j), co=-1)
    else:
        fs.add((opel(fs, A, t, k, j), fs.el(B, i, k, lab="new")) + dg, rng(k, A.nr) & rel(k, "<" if up else ">", j) & tri(ub)(i, k), co=-1)


@formula("trmm_blocked_mixed", "SUODsmmmo?", calls=BLAS)
def _(fs, s, u, t, d, a, A, B, w=None, o=None):
    i, j, k = fs.ix("i", "j", "k")
    fs.out(B, i, j)
    for f, dm in triel(fs, A, u, t, d, i, k) if s == LE else triel(fs, A, u, t, d, k, j):
        fs.add(fs.sc(a) + f + ((fs.el(B, k, j, lab="old") if s == LE else fs.el(B, i, k, lab="old")),), rng(k, A.nr) & dm)


# ------------------------------------------------------------- reflectors
def larf_formula(fs, S, vi, tau, C, rows_):
    """C := H C or C H with H = I - tau v v^H; vi(i, conj) -> [(factors, set)] of v_i"""
    i, j, k = fs.ix("i", "j", "k")
    fs.out(C, i, j)
    t = fs.sc(tau)
    fs.add([fs.el(C, i, j, lab="old")])
    a, b = (i, j) if S == LE else (j, i)
    for f, d in vi(a, S == RI):
        for g, e in vi(k, S == LE):
            fs.add(t + f + g + (fs.el(C, k, j, lab="old") if S == LE else fs.el(C, i, k, lab="old"),), d & e & rng(k, C.nr if S == LE else C.nc), co=-1)


@formula("larf larf_work", "SFVvsmm?", calls=BLAS)
def _(fs, S, F, V, v, tau, C, w=None):
    n = C.nr if S == LE else C.nc
    one = L(0) if F == FW else n - 1

    def vi(i, cj):
        return [((fs.el(v, i, conj=cj != (V == RW)),), rel(i, "!=", one)), ((), rel(i, "==", one))]
    larf_formula(fs, S, vi, tau, C, None)


@formula("larf larf_work", "SVvsvmm?", calls=BLAS)
def _(fs, S, V, x, tau, C0, C1, w=None):
    # [C0; C1] or [C0 C1]
    i, j, k = fs.ix("i", "j", "k")
    t = fs.sc(tau)
    cj = V == RW
    X = lambda i, c: fs.el(x, i, conj=c != cj)
    c1 = lambda a, b: fs.el(C1, a, b, lab="old")
    fs.out(C0, i, None)
    fs.add([fs.el(C0, i, lab="old")])
    fs.add(t + (fs.el(C0, i, lab="old"),), co=-1)
    fs.add(t + ((X(k, True), c1(k, i)) if S == LE else (X(k, False), c1(i, k))), rng(k, x.nr), co=-1)
    i, j, k = fs.ix("i", "j", "k")
    fs.out(C1, i, j)
    fs.add([c1(i, j)])
    if S == LE:
        fs.add(t + (X(i, False), fs.el(C0, j, lab="old")), co=-1)
        fs.add(t + (X(i, False), X(k, True), c1(k, j)), rng(k, x.nr), co=-1)
    else:
        fs.add(t + (X(j, True), fs.el(C0, i, lab="old")), co=-1)
        fs.add(t + (X(j, True), X(k, False), c1(i, k)), rng(k, x.nr), co=-1)


@formula("larfb larfb_work", "SOFVmmmm?", calls=BLAS)
def _(fs, S, O, F, V, Vm, Tm, C, w=None):
    i, j, a, b, r = fs.ix("i", "j", "a", "b", "r")
    n = C.nr if S == LE else C.nc
    k = Tm.nr

    def vel(i, a, cj):
        """element (i,a) of the n x k matrix of reflectors"""
        z = a if F == FW else a + (n - k)      # row of the unit element
        e = fs.el(Vm, i, a, conj=cj) if V == CW else fs.el(Vm, a, i, conj=not cj)
        return [((e,), rel(i, ">" if F == FW else "<", z)), ((), rel(i, "==", z))]

    def tel():
        p, q = (a, b) if O == NT else (b, a)
        return opel(fs, Tm, O, a, b), (upper if F == FW else lower)(p, q)
    fs.out(C, i, j)
    fs.add([fs.el(C, i, j, lab="old")])
    tf, td = tel()
    dom = td & rng(a, k) & rng(b, k) & rng(r, n)
    if S == LE:
        for f, d in vel(i, a, False):
            for g, e in vel(r, b, True):
                fs.add(f + (tf,) + g + (fs.el(C, r, j, lab="old"),), dom & d & e, co=-1)
    else:
        for f, d in vel(r, a, False):
            for g, e in vel(j, b, True):
                fs.add(f + (tf,) + g + (fs.el(C, i, r, lab="old"),), dom & d & e, co=-1)
