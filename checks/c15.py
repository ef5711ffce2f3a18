"""C15 the legacy pointer interface maps to the right operands.

Every legacy routine is reduced, path by path (options enumerated, sizes,
leading dimensions and increments symbolic), to a summary of what it does to the
caller's arrays: element address polynomials of the views handed to the generic
routine, scalars, options, fill loops, conjugation loops.  The summary is
compared with the one reference BLAS/LAPACK prescribes for the arguments."""
import itertools, re
from common import *
from interp import Prog
import symview as SV
from symview import Poly, Ptr, Elem, Cell, Obj, Sc, Undec, ZERO, ONE, witness

LEVEL = "other"
S = Poly.s
I, J, L = S("i"), S("j"), S("l")

OPTS = {"layout": "CR", "trans": "NTC", "transA": "NTC", "transB": "NTC", "side": "LR", "uplo": "UL", "diag": "NU",
        "normType": "1IFM", "direction": "FB", "storev": "CR", "matrixtype": "GLUHBQZ"}
SIZES = {"m", "n", "k", "nrhs", "kl", "ku"}
# routines whose uplo argument also admits General
GEN = {"syrk", "herk", "syr2k", "her2k", "lacpy", "laset"}
TAGS = {"Forward": "F", "Backward": "B", "ColumnwiseStorage": "C", "RowwiseStorage": "R", "GeneralAccess": "G",
        "UpperTriangle": "U", "LowerTriangle": "L", "UpperHessenberg": "H", "NonUnitDiagonal": "N", "UnitDiagonal": "U",
        "NoTranspose": "N", "Transpose": "T", "ConjTranspose": "C", "LeftSide": "L", "RightSide": "R",
        "MaxNorm": "M", "OneNorm": "1", "InfNorm": "I", "FrobNorm": "F"}


# ------------------------------------------------------------------ operands
class Mat:
    def __init__(s, base, off, rs, cs, rows, cols):
        s.base, s.off, s.rs, s.cs, s.rows, s.cols = base, off, rs, cs, rows, cols

    def __call__(s, i, j, cj=False):
        return Sc(1, [("e", s.base, s.off + i * s.rs + j * s.cs, cj)])

    def T(s):
        return Mat(s.base, s.off, s.cs, s.rs, s.cols, s.rows)


class Vec:
    def __init__(s, base, off, inc, n):
        s.base, s.off, s.inc, s.n = base, off, inc, n

    def __call__(s, i, cj=False):
        return Sc(1, [("e", s.base, s.off + i * s.inc, cj)])


def conj(t):
    """conjugate of a product; 'r' marks the real part"""
    return Sc(t.c, [x[:-1] + ("r" if x[-1] == "r" else not x[-1],) if x[0] in "se" else ("o", "conj", (Sc(1, [x]),)) for x in t.f])


def rpart(t):
    return Sc(t.c, [x[:-1] + ("r",) for x in t.f])


class Eff:
    """out(i,j) := sum of terms over its domain.  kind 'set' or 'solve' (then the
    terms are the left-hand side T*X and rhs the right-hand side)"""

    def __init__(s, kind, out, dims, cons, terms, rhs=None):
        s.kind, s.out, s.dims, s.cons, s.terms, s.rhs = kind, out, dims, cons, terms, rhs

    def conj(s):
        s.terms = [(c, l, conj(t)) for c, l, t in s.terms]
        if s.rhs is not None:
            s.rhs = conj(s.rhs)


def opel(A, t, i, j):
    """element (i,j) of op(A)"""
    return A(i, j) if t == "N" else A(j, i, t == "C")


def tri_terms(A, uplo, t, d, left):
    """terms of op(T) for a triangular A: list of (relation of i to l, element)
    with op(T)(i,l) (left) or op(T)(l,j)"""
    a, b = (I, L) if left else (L, J)
    up = (uplo == "U") == (t == "N")      # op(T) upper: row < col
    rel = ("i", "<", "l") if left else ("l", "<", "j")
    if not up:
        rel = (rel[2], "<", rel[0])
    x = "i" if left else "j"
    off = opel(A, t, a, b)
    dg = Sc(1) if d == "U" else opel(A, t, S(x), S(x))
    return [(rel, off), ((x, "=", "l"), dg)]


def sym_terms(A, uplo, herm, left):
    a, b = ("i", "l") if left else ("l", "j")
    r = []
    pa, pb = S(a), S(b)
    for lt in (True, False):
        rel = (a, "<", b) if lt else (b, "<", a)
        stored = (uplo == "U") == lt
        e = A(pa, pb) if stored else A(pb, pa, herm)
        r.append((rel, e))
    x = "i" if left else "j"
    dg = A(S(x), S(x))
    r.append(((x, "=", "l"), rpart(dg) if herm else dg))
    return r


def effects(name, o, v, cplx):
    """what routine `name` does: o options (dict), v operands/scalars (dict)"""
    al, be = v.get("alpha"), v.get("beta")
    one = Sc(1)
    n = name
    if n == "gemm":
        A, B, C = v["A"], v["B"], v["C"]
        k = A.cols if o["transA"] == "N" else A.rows
        t = [(None, k, al * opel(A, o["transA"], I, L) * opel(B, o["transB"], L, J))]
        if be is not None:
            t.append((None, None, be * C(I, J)))
        return [Eff("set", C(I, J), {"i": C.rows, "j": C.cols}, None, t)]
    if n in ("symm", "hemm"):
        A, B, C = v["A"], v["B"], v["C"]
        lf = o["side"] == "L"
        t = []
        for rel, e in sym_terms(A, o["uplo"], n == "hemm", lf):
            if rel[1] == "=":
                t.append((None, None, al * e * B(I, J)))
            else:
                t.append((rel, C.rows if lf else C.cols, al * e * (B(L, J) if lf else B(I, L))))
        if be is not None:
            t.append((None, None, be * C(I, J)))
        return [Eff("set", C(I, J), {"i": C.rows, "j": C.cols}, None, t)]
    if n in ("trmm", "trsm"):
        A, B = v["A"], v["B"]
        lf = o["side"] == "L"
        t = []
        for rel, e in tri_terms(A, o["uplo"], o["trans"], o["diag"], lf):
            if rel[1] == "=":
                t.append((None, None, e * B(I, J)))
            else:
                t.append((rel, B.rows if lf else B.cols, e * (B(L, J) if lf else B(I, L))))
        if n == "trmm":
            t = [(c, l, al * z) for c, l, z in t]
            return [Eff("set", B(I, J), {"i": B.rows, "j": B.cols}, None, t)]
        return [Eff("solve", B(I, J), {"i": B.rows, "j": B.cols}, None, t, al * B(I, J))]
    if n in ("trmv", "trsv"):
        A, x = v["A"], v["x"]
        t = []
        for rel, e in tri_terms(A, o["uplo"], o["trans"], o["diag"], True):
            t.append((None, None, e * x(I)) if rel[1] == "=" else (rel, x.n, e * x(L)))
        return [Eff("set" if n == "trmv" else "solve", x(I), {"i": x.n}, None, t, x(I) if n == "trsv" else None)]
    if n == "gemv":
        A, x, y = v["A"], v["x"], v["y"]
        t = [(None, A.cols if o["trans"] == "N" else A.rows, al * opel(A, o["trans"], I, L) * x(L))]
        if be is not None:
            t.append((None, None, be * y(I)))
        return [Eff("set", y(I), {"i": y.n}, None, t)]
    if n in ("symv", "hemv"):
        A, x, y = v["A"], v["x"], v["y"]
        t = []
        for rel, e in sym_terms(A, o["uplo"], n == "hemv", True):
            t.append((None, None, al * e * x(I)) if rel[1] == "=" else (rel, A.rows, al * e * x(L)))
        if be is not None:
            t.append((None, None, be * y(I)))
        return [Eff("set", y(I), {"i": y.n}, None, t)]
    if n in ("ger", "geru"):
        A, x, y = v["A"], v["x"], v["y"]
        return [Eff("set", A(I, J), {"i": A.rows, "j": A.cols}, None,
                    [(None, None, al * x(I) * y(J, n == "ger")), (None, None, A(I, J))])]
    if n in ("syr", "her", "syr2", "her2", "syrk", "herk", "syr2k", "her2k"):
        h = n.startswith("he")
        C = v["C"] if n.endswith("k") else v["A"]
        if n.endswith("k"):
            A, t = v["A"], o["trans"]
            k = A.cols if t == "N" else A.rows

            def row(X, i, cj):
                # row i of op(X), conjugated if cj
                if t == "N":
                    return X(i, L, cj)
                return X(L, i, (not cj) if h else False)
            B = v.get("B")
            k0 = k
        else:
            A, B, k0 = v["x"], v.get("y"), None

            def row(X, i, cj):
                return X(i, cj)
        if B is None:
            tm = [(None, k0, al * row(A, I, False) * row(A, J, h))]
        else:
            tm = [(None, k0, al * row(A, I, False) * row(B, J, h)),
                  (None, k0, (conj(al) if h else al) * row(B, I, False) * row(A, J, h))]
        own = be if n.endswith("k") else one
        d = {"i": C.rows, "j": C.cols}
        r = []
        for c in {"U": [("i", "<", "j")], "L": [("j", "<", "i")], "G": [("i", "<", "j"), ("j", "<", "i")]}[o["uplo"]]:
            r.append(Eff("set", C(I, J), d, c, tm + ([(None, None, own * C(I, J))] if own is not None else [])))
        dt = [(c, l, subst(z, {"j": I})) for c, l, z in tm]
        if own is not None:
            dt.append((None, None, own * (rpart(C(I, I)) if h else C(I, I))))
        r.append(Eff("set", C(I, I), {"i": C.rows}, None, dt))
        return r
    raise KeyError(name)


def subst(t, m):
    return Sc(t.c, [x[:2] + (x[2].subst(m),) + x[3:] if x[0] == "e" else x for x in t.f])


BLAS23 = {"gemm": "transA transB alpha A B beta? C", "symm": "side uplo alpha A B beta? C", "hemm": "side uplo alpha A B beta? C",
          "trmm": "side uplo trans diag alpha A B", "trsm": "side uplo trans diag alpha A B",
          "trmv": "uplo trans diag A x", "trsv": "uplo trans diag A x", "gemv": "trans alpha A x beta? y",
          "symv": "uplo alpha A x beta? y", "hemv": "uplo alpha A x beta? y", "ger": "alpha x y A", "geru": "alpha x y A",
          "syr": "uplo alpha x A", "her": "uplo alpha x A", "syr2": "uplo alpha x y A", "her2": "uplo alpha x y A",
          "syrk": "uplo trans alpha A beta? C", "herk": "uplo trans alpha A beta? C",
          "syr2k": "uplo trans alpha A B beta? C", "her2k": "uplo trans alpha A B beta? C"}


# ------------------------------------------------------------------ oracle
def oracle(rt, o, sg):
    """operands reference BLAS prescribes for the legacy arguments.  Returns
    (operands, requirements) for a level 2/3 routine; sg: sign of increments"""
    m, n, k = S("m"), S("n"), S("k")
    rm = o.get("layout") == "R"
    req = []

    def mat(a, r, c):
        ld = S("ld" + a.lower())
        req.append((ld - (c if rm else r), "ld%s" % a.lower()))
        return Mat(a, ZERO, ld if rm else ONE, ONE if rm else ld, r, c)

    def vec(a, nn):
        inc = S("inc" + a)
        if sg["inc" + a] > 0:
            return Vec(a, ZERO, inc, nn)
        return Vec(a, (ONE - nn) * inc, inc, nn)
    al, be = Sc(1, [("s", "alpha", False)]), Sc(1, [("s", "beta", False)])
    v = {"alpha": al}
    if rt == "gemm":
        v.update(A=mat("A", m, k) if o["transA"] == "N" else mat("A", k, m), B=mat("B", k, n) if o["transB"] == "N" else mat("B", n, k), C=mat("C", m, n), beta=be)
    elif rt in ("symm", "hemm"):
        q = m if o["side"] == "L" else n
        v.update(A=mat("A", q, q), B=mat("B", m, n), C=mat("C", m, n), beta=be)
    elif rt in ("trmm", "trsm"):
        q = m if o["side"] == "L" else n
        v.update(A=mat("A", q, q), B=mat("B", m, n))
    elif rt in ("trmv", "trsv"):
        v.update(A=mat("A", n, n), x=vec("x", n))
    elif rt == "gemv":
        nt = o["trans"] == "N"
        v.update(A=mat("A", m, n), x=vec("x", n if nt else m), y=vec("y", m if nt else n), beta=be)
    elif rt in ("symv", "hemv"):
        v.update(A=mat("A", n, n), x=vec("x", n), y=vec("y", n), beta=be)
    elif rt in ("ger", "geru"):
        v.update(A=mat("A", m, n), x=vec("x", m), y=vec("y", n))
    elif rt in ("syr", "her"):
        v.update(A=mat("A", n, n), x=vec("x", n))
    elif rt in ("syr2", "her2"):
        v.update(A=mat("A", n, n), x=vec("x", n), y=vec("y", n))
    else:
        t = o["trans"]
        v.update(A=mat("A", n, k) if t == "N" else mat("A", k, n), C=mat("C", n, n), beta=be)
        if rt.endswith("2k"):
            v["B"] = mat("B", n, k) if t == "N" else mat("B", k, n)
    return v, req


# forwarding routines: operands of the one generic call.  M(a,r,c) column-major
# matrix, V(a,n) vector with its increment, W(a,n) contiguous vector, r(a) the
# scalar behind a reference or pointer, s(a) scalar, o(a) option, 'X' fixed option
FWD = {
    "asum": "V(x,n)", "nrm2": "V(x,n)", "iamax": "V(x,n)", "scal": "s(alpha) V(x,n)", "axpy": "s(alpha) V(x,n) V(y,n)",
    "copy": "V(x,n) V(y,n)", "swap": "V(x,n) V(y,n)", "dot": "V(x,n) V(y,n)", "dotu": "V(x,n) V(y,n)",
    "rot": "V(x,n) V(y,n) s(c) s(s)", "rotg": "r(a) r(b) r(c) r(s)", "rotm": "V(x,n) V(y,n) p(param,1)",
    "rotmg": "r(d1) r(d2) r(a) s(b) p(param,1)",
    "geqr2": "M(A,m,n) W(tau,min(m,n))", "lacpy": "o(uplo) M(A,m,n) M(B,m,n)", "lacpy__2": "o(matrixtype) M(A,m,n) M(B,m,n)",
    "lange": "o(normType) M(A,m,n)", "lanhe": "o(normType) o(uplo) M(A,n,n)", "lansy": "o(normType) o(uplo) M(A,n,n)",
    "lantr": "o(normType) o(uplo) o(diag) M(A,m,n)",
    "larf": "o(side) 'F' 'C' V(v,side(m,n)) s(tau) M(C,m,n)",
    "larfb": "o(side) o(trans) o(direction) o(storev) MS(V,side(m,n),k) M(T,k,k) M(C,m,n)",
    "larfg": "'C' r(alpha) V(x,n-1) r(tau)", "larfg__2": "'C' r(alpha) V(x,n-1) r(tau)",
    "larft": "o(direction) o(storev) MS(V,n,k) W(tau,k) M(T,k,k)",
    "larnv": "r(iseed) W(x,n)", "laset": "o(uplo) s(alpha) s(beta) M(A,m,n)", "laset__2": "o(matrixtype) s(alpha) s(beta) M(A,m,n)",
    "lassq": "V(x,n) r(scl) r(sumsq)", "potrf": "o(uplo) M(A,n,n)", "potrs": "o(uplo) M(A,n,n) M(B,n,nrhs)",
    "ung2r": "M(A,m,n) W(tau,k)", "unm2r": "o(side) o(trans) M(A,side(m,n),k) W(tau,k) M(C,m,n)",
    "unmqr": "o(side) o(trans) M(A,side(m,n),k) W(tau,k) M(C,m,n)", "lascl": "lascl",
}
NAMES = {"potrf": {"potrf", "potrf_blocked", "potrf2"}}
# sizes that make the call trivial: no generic call is needed when one is zero
TRIVIAL = {"asum": "n", "nrm2": "n", "iamax": "n", "scal": "n", "axpy": "n", "copy": "n", "swap": "n", "dot": "n", "dotu": "n",
           "rot": "n", "rotm": "n", "geqr2": "mn", "lacpy": "mn", "lacpy__2": "mn", "lange": "mn", "lanhe": "n", "lansy": "n", "lantr": "mn",
           "larf": "mn", "larfb": "mnk", "larfg": "n", "larfg__2": "n", "larft": "nk", "larnv": "n", "laset": "mn", "laset__2": "mn", "lassq": "n",
           "potrf": "n", "potrs": ("n", "nrhs"), "ung2r": "n", "unm2r": "mnk", "unmqr": "mnk", "lascl": "mn"}
# documented requirements on the sizes
DIMREQ = {"ung2r": lambda e, o: e["n"] <= e["m"] and e["k"] <= e["n"],
          "unm2r": lambda e, o: e["k"] <= (e["m"] if o["side"] == "L" else e["n"]),
          "unmqr": lambda e, o: e["k"] <= (e["m"] if o["side"] == "L" else e["n"]),
          "larfb": lambda e, o: e["k"] <= (e["m"] if o["side"] == "L" else e["n"]),
          "larft": lambda e, o: 1 <= e["k"] <= e["n"],
          "lascl": lambda e, o: o["matrixtype"] not in "BQZ" or (e["kl"] <= max(e["m"] - 1, 0) and e["ku"] <= max(e["n"] - 1, 0)
                                                                    and (o["matrixtype"] == "Z" or e["kl"] == e["ku"]))}
POSINC = {"asum", "nrm2", "iamax", "scal"}
NOINCREQ = {"lassq", "larfg", "larfg__2"}


class V15:
    def __init__(s, ck, P, cplx):
        s.ck, s.P, s.cplx = ck, P, cplx
        s.paths = s.proved = s.bounded = s.und = s.calls = 0
        s.notes = set()
        s.rts = {}
        for f in P.fns:
            if f and f.get("body") and f["n"].startswith("L_") and f.get("main"):
                c = first_call(f["body"])
                if c is not None:
                    s.rts[f["n"][2:]] = (f, P.fns[c["f"]])
        s.E = SV.SymEval(P, lambda f: s.inl(f))

    def inl(s, f):
        r = rel(s.P.file(f))
        return "legacy_api/" in r or "/plugins/" in r or "Legacy" in r.split("/")[-1] or "/base/" in r

    # -- views ------------------------------------------------------------
    def operand(s, v):
        """actual value -> Mat/Vec/char/Sc/..."""
        if isinstance(v, Cell):
            v = v.v
        if isinstance(v, Poly):
            c = v.const()
            return chr(c) if c is not None and 32 <= c < 127 else v
        if isinstance(v, Obj):
            b = s.P.base(v.rec)
            a = b.get("args", [])
            nm = b.get("name", b["s"])
            if nm == "tlapack::LegacyMatrix":
                p, ld = v["ptr"], v["ldim"]
                rm = chr(int(a[2]["v"])) == "R"
                return Mat(p.base, p.off, ld if rm else ONE, ONE if rm else ld, v["m"], v["n"])
            if nm == "tlapack::LegacyVector":
                inc = ONE if "StrongOne" in s.P.types[a[2]["t"]]["s"] else v["inc"]
                p = v["ptr"]
                if chr(int(a[3]["v"])) == "B":
                    return Vec(p.base, p.off + (v["n"] - ONE) * inc, -inc, v["n"])
                return Vec(p.base, p.off, inc, v["n"])
            if nm == "tlapack::LegacyBandedMatrix":
                p = v["ptr"]
                return ("band", p.base, p.off, v["m"], v["n"], v["kl"], v["ku"])
            t = nm.split("::")[-1]
            if t in TAGS:
                return TAGS[t]
            if t == "BandAccess":
                return ("bandaccess",) + tuple(c.v for c in v.f.values())
        if isinstance(v, (Sc, Ptr, Elem)):
            return v
        raise Undec("operand %r" % (v,))

    # -- effects of a path -------------------------------------------------
    def actual(s, p):
        """(effects of the path, toggled bases) or Undec"""
        effs, tog = [], {}
        for ev in p.ev:
            if ev[0] == "write":
                _, out, val, loops, line = ev
                if not isinstance(val, Sc):
                    val = s.E_tosc(val, p)
                val = Sc(val.c, [x[:2] + (p.facts.norm(x[2]),) + x[3:] if x[0] == "e" else x for x in val.f])
                own = Sc(1, [("e", out.base, p.facts.norm(out.off), False)])
                if val == own:
                    continue
                if s.cplx and val == conj(own):
                    if len(loops) != 1:
                        raise Undec("conjugation loop")
                    t = (out.off.subst({loops[0][0]: I}), loops[0][1], loops[0][2])
                    if out.base in tog:
                        if not s.sameset(p, tog[out.base], t):
                            raise Undec("conjugation loops over different parts")
                        del tog[out.base]
                    else:
                        tog[out.base] = t
                    for e in effs:
                        if e.out.f[0][1] == out.base:
                            s.covers(p, t, e)
                            e.conj()
                            if e.kind == "solve":
                                # X conjugated: the unknowns of the equation are conj(X)
                                e.terms = [(c, l, flipX(z, out.base)) for c, l, z in e.terms]
                    continue
                effs.append(s.loopeff(p, out, val, loops))
                if any(x[1] in tog for x in val.f if x[0] == "e") or out.base in tog:
                    raise_if = [x for x in val.f if x[0] == "e" and x[1] in tog]
                    for e in effs[-1:]:
                        e.terms = [(c, l, flip(z, tog)) for c, l, z in e.terms]
            else:
                _, f, vals, loops, line = ev
                if f["n"] not in BLAS23:
                    raise Undec("call of " + f["n"])
                if loops:
                    raise Undec("call in a loop")
                names = BLAS23[f["n"]].split()
                vs = [s.operand(z) for z in vals]
                if len(vs) == len(names) - 1:
                    names = [z for z in names if z != "beta?"]
                if len(vs) != len(names):
                    raise Undec("arguments of " + f["n"])
                o, v = {}, {}
                for nm, z in zip(names, vs):
                    nm = nm.rstrip("?")
                    if nm in OPTS:
                        if not isinstance(z, str):
                            raise Undec("option")
                        o[nm] = z
                    elif nm in ("alpha", "beta"):
                        v[nm] = s.E_tosc(z, p)
                    else:
                        if not isinstance(z, (Mat, Vec)):
                            raise Undec("operand")
                        v[nm] = z
                if o.get("uplo") == "G" and f["n"] not in GEN:
                    o["uplo"] = "U"
                s.calls += 1
                for e in effects(f["n"], o, v, s.cplx):
                    e.terms = [(c, l, flip(z, tog)) for c, l, z in e.terms]
                    if e.rhs is not None:
                        e.rhs = flip(e.rhs, tog)
                    for b in tog:
                        for x in v.values():
                            if isinstance(x, Vec) and x.base == b and not s.sameset(p, tog[b], ((x.off + I * x.inc), ZERO, x.n)):
                                raise Undec("conjugated part and operand differ")
                            if isinstance(x, Mat) and x.base == b:
                                raise Undec("conjugated matrix")
                    effs.append(e)
        return effs, tog

    def E_tosc(s, v, p):
        if isinstance(v, Sc):
            return v
        if isinstance(v, Poly) and v.const() is not None:
            return Sc(v.const())
        if isinstance(v, str):
            return Sc(ord(v))
        if isinstance(v, Elem):
            return Sc(1, [("e", v.base, p.facts.norm(v.off), False)])
        raise Undec("scalar")

    def sameset(s, p, a, b):
        """{a.off(i): lo<=i<hi} equal, possibly run backwards"""
        N = p.facts.norm
        oa = a[0].subst({"i": I + a[1]})
        ob = b[0].subst({"i": I + b[1]})
        na, nb = N(a[2] - a[1]), N(b[2] - b[1])
        if na != nb:
            return False
        return N(oa) == N(ob) or N(oa.subst({"i": nb - ONE - I})) == N(ob)

    def covers(s, p, t, e):
        off = e.out.f[0][2]
        if "j" in e.dims or not s.sameset(p, t, (off, ZERO, e.dims["i"])):
            raise Undec("conjugation of another part")

    def loopeff(s, p, out, val, loops):
        """effect of a fill loop"""
        val = unreal(val)
        if any(x[0] == "o" for x in val.f):
            raise Undec("value %r" % (val,))
        if len(loops) > 2:
            raise Undec("loop nest")
        N = p.facts.norm
        dims, cons, m = {}, None, {}
        ls = list(loops)
        syms = {l[0] for l in ls}
        if len(ls) == 2:
            a, b = ls
            if (a[1].syms() | a[2].syms()) & syms:
                a, b = b, a
            if (a[1].syms() | a[2].syms()) & syms or a[1] != ZERO:
                raise Undec("loop nest")
            lo, hi = N(b[1]), N(b[2])
            x = S(a[0])
            ext = a[2]
            if not (lo.syms() | hi.syms()) & {a[0]}:
                if lo != ZERO:
                    raise Undec("loop nest")
                m = {a[0]: J, b[0]: I}
                dims = {"j": ext, "i": hi}
                effs = [(dims, None, m)]
            else:
                m = {a[0]: J, b[0]: I}
                dims = {"j": ext, "i": ext}
                dg = None
                if lo == ZERO and hi == x:
                    cons = ("i", "<", "j")
                elif lo == ZERO and hi == x + ONE:
                    cons, dg = ("i", "<", "j"), True
                elif N(hi - ext) == ZERO and lo == x:
                    cons, dg = ("j", "<", "i"), True
                elif N(hi - ext) == ZERO and lo == x + ONE:
                    cons = ("j", "<", "i")
                else:
                    raise Undec("loop nest")
                effs = [(dims, cons, m)]
                if dg:
                    effs.append(({"i": ext}, None, {a[0]: I, b[0]: I}))
        elif len(ls) == 1:
            if ls[0][1] != ZERO:
                raise Undec("loop")
            effs = [({"i": ls[0][2]}, None, {ls[0][0]: I})]
        else:
            effs = [({}, None, {})]
        r = []
        for dims, cons, m in effs:
            t = [(None, None, subst(val, m))] if val.c != 0 else []
            r.append(Eff("set", Sc(1, [("e", out.base, out.off.subst(m), False)]), dims, cons, t))
        if len(r) == 2:
            return Multi(r)
        return r[0]

    # -- canonical form ------------------------------------------------------
    def canon(s, p, effs, warn=None):
        """set of canonical keys"""
        N = p.facts.norm
        sc0 = {}
        for k, val in p.facts.sc.items():
            if k[0] == "==" and isinstance(k[1], Sc) and isinstance(k[2], Sc) and not k[2].f and len(k[1].f) == 1 and k[1].f[0][0] == "s" and k[1].c == 1 and val:
                sc0[k[1].f[0][1]] = k[2].c
        out = []
        for e in flat(effs):
            d = {x: N(q) for x, q in e.dims.items()}
            if any(q.const() == 0 or p.facts.known(-q, "<") is False and p.facts.known(q, "<") is not None and p.facts.known(q, "=") for q in d.values()):
                continue

            def cons(t):
                c, f = t.c, []
                for x in t.f:
                    if x[0] == "s" and x[1] in sc0:
                        c *= sc0[x[1]]
                    elif x[0] == "s" and not s.cplx:
                        f.append(x[:-1] + (False,))
                    elif x[0] == "e":
                        f.append(("e", x[1], N(x[2]), x[3] if s.cplx else False))
                    elif x[0] == "o":
                        raise Undec("value")
                    else:
                        f.append(x)
                return Sc(c, f)
            outn = cons(e.out)
            ts = []
            for c, l, t in e.terms:
                t0, t = t, cons(t)
                if warn is not None and t.c == 0 and t0.c != 0 and any(x[0] == "s" and x[1] == "beta" for x in t0.f):
                    warn.append(e)
                ln = N(l) if l is not None else None
                if t.c == 0 or (ln is not None and (ln.const() == 0 or p.facts.known(ln, "="))):
                    continue
                ts.append((c, ln, t))
            rhs = cons(e.rhs) if e.rhs is not None else None
            kind = e.kind
            if kind == "solve" and rhs.c == 0:
                kind, ts, rhs = "set", [], None
            if kind == "solve":
                # conjugate the equation so that the unknowns are unconjugated
                ob = outn.f[0][1]
                if any(x[0] == "e" and x[1] == ob and x[3] is True for c, l, t in ts for x in t.f):
                    ts = [(c, l, conj(t)) for c, l, t in ts]
                    rhs = conj(rhs)
            if kind == "set" and len(ts) == 1 and ts[0][0] is None and ts[0][1] is None and ts[0][2] == outn:
                continue
            out.append(Eff(kind, outn, d, e.cons, ts, rhs))
        return out

    def key(s, e):
        best = None
        for sw in (False, True):
            m = {"i": J, "j": I} if sw else {}
            r = {"i": "j", "j": "i", "l": "l"} if sw else {"i": "i", "j": "j", "l": "l"}
            if sw and len(e.dims) < 2:
                continue
            c = lambda q: None if q is None else (r[q[0]], q[1], r[q[2]])
            k = repr((e.kind, subst(e.out, m), sorted((r[x], q.key()) for x, q in e.dims.items()), c(e.cons),
                      sorted((repr(c(a)), repr(l), repr(subst(t, m))) for a, l, t in e.terms),
                      repr(subst(e.rhs, m)) if e.rhs is not None else None))
            best = k if best is None or k < best else best
        return best

    def expand(s, effs, env):
        """element -> what it becomes, for concrete sizes"""
        r = {}
        for e in effs:
            d, new = e.dims, {}
            ni = d["i"].at(env) if "i" in d else 1
            nj = d["j"].at(env) if "j" in d else 1
            for i in range(ni):
                for j in range(nj):
                    en = dict(env, i=i, j=j)
                    if not rel_ok(e.cons, en):
                        continue
                    b, off = e.out.f[0][1], e.out.f[0][2].at(en)
                    ts = {}
                    for c, l, t in e.terms:
                        for q in range(l.at(env)) if l is not None else [0]:
                            en["l"] = q
                            if l is not None and not rel_ok(c, en):
                                continue
                            k = num(t, en)
                            for k2, c2 in s.after(k[1], r).items():
                                ts[k2] = ts.get(k2, 0) + k[0] * c2
                    ts = {k: c for k, c in ts.items() if c}
                    rh = num(e.rhs, en) if e.rhs is not None else None
                    if rh is not None and any(x[0] == "e" and x[1:3] in r for x in rh[1]):
                        raise Undec("solve after write")
                    new[(b, off)] = (e.kind, ts, rh)
            r.update(new)
        return {k: (a, tuple(sorted(ts.items(), key=repr)), rh) for k, (a, ts, rh) in r.items()
                if not (rh is None and ts == {(("e", k[0], k[1], False),): 1})}

    def after(s, k, r):
        """product k of old values, with the values earlier effects wrote"""
        for n, x in enumerate(k):
            if x[0] == "e" and x[1:3] in r:
                kind, ts, rh = r[x[1:3]]
                if kind != "set":
                    raise Undec("read after solve")
                out = {}
                for k2, c2 in ts.items():
                    if x[3] == "r":
                        els = [y for y in k2 if y[0] == "e" and y[3] != "r"]
                        if len(els) > 1 or any(y[0] == "s" and y[1] != "beta" for y in k2):
                            raise Undec("real part")
                        k2 = tuple(y[:3] + ("r",) if y[0] == "e" else y for y in k2)
                    elif x[3] is True:
                        k2 = tuple(y[:-1] + ("r" if y[-1] == "r" else not y[-1],) for y in k2)
                    k3 = tuple(sorted(k[:n] + k2 + k[n + 1:], key=repr))
                    out[k3] = out.get(k3, 0) + c2
                return out
        return {k: 1}


    # -- one routine -----------------------------------------------------------
    def args(s, rt, drv, f, o, sg):
        vals = []
        for dp, fp in zip(drv["params"], f["params"]):
            n = dp["n"]
            t = s.P.types[fp["t"]]
            isref = t["k"] in ("ref", "rref")
            b = s.P.base(fp["t"])
            if n in o:
                vals.append(Cell(Poly.c(ord(o[n]) if isinstance(o[n], str) else o[n])))
            elif n in SIZES or n.startswith("ld") and n.lower() in LDS or n.startswith("inc") and n != "inc":
                vals.append(Cell(S(n.lower() if n.startswith("ld") else n)))
            elif b["k"] == "ptr" or "*" in s.P.types[fp["t"]]["s"] or "[" in s.P.types[fp["t"]]["s"]:
                vals.append(Cell(Ptr("T" if n == "Tt" else n)))
            elif isref and "const" not in s.P.types[fp["t"]]["s"]:
                vals.append(Elem(n, ZERO))
            else:
                vals.append(Cell(Sc(1, [("s", n, False)])))
        return vals

    def where(s, f, line=None):
        return "%s:%d (legacy::%s)" % (rel(s.P.file(f)), line or f["line"], f["n"])

    def alarm(s, f, rule, msg, line=None, opt=""):
        s.ck.violation(rule, s.where(f, line), msg, key="%s:%s%s" % (f["n"], rule, opt))

    def combos(s, rt, drv):
        on = [p["n"] for p in drv["params"] if p["n"] in OPTS or p["n"] == "idist"]
        base = rt.split("__")[0]
        ch = []
        for x in on:
            v = "12345" if x == "idist" else OPTS[x]
            if x == "uplo" and base in GEN:
                v = v + "G"
            if rt in ("lacpy__2", "laset__2") and x == "matrixtype":
                v = "GLU"
            ch.append([int(q) for q in v] if x == "idist" else v)
        for c in itertools.product(*ch):
            o = dict(zip(on, c))
            if base in ("syrk", "syr2k") and s.cplx and o["trans"] == "C" or base in ("herk", "her2k") and s.cplx and o["trans"] == "T":
                continue
            if base in ("larfb",) and s.cplx and o["trans"] == "T":
                continue
            if base in ("unm2r", "unmqr") and o["trans"] == ("T" if s.cplx else "C"):
                continue
            yield o

    def ranges(s, drv, names, small):
        r = {}
        ns = [p["n"] for p in drv["params"]]
        for n in ns:
            if n in SIZES:
                r[n] = small
        for x in names:
            if x.startswith("int("):
                r[x] = range(-4, 4)
        for n in ns:
            if n.startswith("inc"):
                r[n] = [1, -1, 2, -2, 3, 0]
        for n in ns:
            if n.startswith("ld") and n.lower() in LDS:
                r[n.lower()] = [1, 2, 3, 4, 0] if len(ns) < 12 else [2, 3, 4, 1]
        return r

    def routine(s, rt):
        drv, f = s.rts[rt]
        incs = [p["n"] for p in drv["params"] if p["n"].startswith("inc")]
        nn = {p["n"].lower() for p in drv["params"] if p["n"] in SIZES or p["n"].startswith("ld")}
        for o in s.combos(rt, drv):
            sgs = [(1,)] if rt in POSINC else [(1,), (-1,)]
            allsg = list(itertools.product(*[[-1, 1] if rt not in POSINC else [1] for _ in incs]))
            for sg in allsg:
                sg = dict(zip(incs, sg))
                fa = [((-S(x)), "<") if g > 0 else (S(x), "<") for x, g in sg.items()]
                s.one(rt, drv, f, o, sg, nn, fa)
            # zero (and, where documented, negative) increments are refused
            if rt not in NOINCREQ:
                for x in incs:
                    for bad in ([0, -1] if rt in POSINC else [0]):
                        fa = [(S(x), "=")] if bad == 0 else [(S(x), "<")]
                        fa += [(-S(y), "<") for y in incs if y != x]
                        s.refuse(rt, drv, f, o, nn, fa, x, bad)

    def run(s, f, drv, rt, o, sg, nn, fa):
        ps = s.E.paths(f, lambda: s.args(rt, drv, f, o, sg), nn, None, fa)
        for p in ps:
            s.paths += 1
            if p.out[0] == "undec":
                s.und += 1
                s.notes.add("%s: %s" % (f["n"], p.out[1]))
        return [p for p in ps if p.out[0] != "undec"]

    def refuse(s, rt, drv, f, o, nn, fa, x, bad):
        for p in s.run(f, drv, rt, o, {}, nn, fa):
            if p.out[0] == "ret" and p.ev:
                w = witness(p.facts, s.ranges(drv, p.facts.syms(), [2, 1, 3]), lambda e: all(e[n] > 0 for n in nn if n in e), limit=60000)
                if w:
                    s.alarm(f, "argument-not-validated", "%s %s is accepted (%s)" % (x, "= 0" if bad == 0 else "< 0", show(o, w)), opt=":" + x)
                    return

    def one(s, rt, drv, f, o, sg, nn, fa):
        base = rt.split("__")[0]
        ps = s.run(f, drv, rt, o, sg, nn, fa)
        fwd = rt in FWD
        if not fwd:
            v, req = oracle(base, o, sg)
        else:
            req = s.fwdreq(rt, o)
        dim = DIMREQ.get(rt, lambda e, o_: True)

        def conforming(e):
            return (dim(e, o) and all(r.at(e) >= 0 and e.get(n, 1) >= 1 for r, n in req)
                    and (rt != "rotm" or all(-2 <= x <= 1 for q, x in e.items() if q.startswith("int("))))
        for p in ps:
            rg = s.ranges(drv, p.facts.syms(), [2, 3, 1, 0])
            if p.out[0] == "throw":
                if "domain_error" not in p.out[1] and "error" not in p.out[1]:
                    continue
                w = witness(p.facts, rg, conforming, limit=60000)
                if w and not s.scbad(p, rt):
                    s.alarm(f, "conforming-call-refused", "a call conforming to the documentation throws (%s)" % show(o, w), p.out[2])
                continue
            if p.ev:
                w = witness(p.facts, rg, lambda e: dim(e, o) and all(e[q] > 0 for q in nn if q in e and not q.startswith("ld")) and any(r.at(e) < 0 for r, n in req), limit=60000)
                if w:
                    bad = [n for r, n in req if r.at(w) < 0]
                    s.alarm(f, "argument-not-validated", "%s is too small and accepted (%s)" % (bad[0], show(o, w)), opt=":" + bad[0])
            try:
                if fwd:
                    s.forward(rt, base, drv, f, o, sg, p, conforming, rg)
                else:
                    s.compare(base, drv, f, o, p, v, conforming, rg)
            except Undec as e:
                if witness(p.facts, rg, conforming, limit=60000):
                    s.und += 1
                    s.notes.add("%s: %s" % (f["n"], e))

    def scbad(s, p, rt):
        """a throw that depends on scalar data (rotmg's d1) or option data"""
        return any(True for k in p.facts.sc if k[0] in ("<", "<=", ">", ">="))

    def compare(s, base, drv, f, o, p, v, conforming, rg):
        effs, tog = s.actual(p)
        exp = effects(base, o, v, s.cplx)
        if not effs:
            # quick return: reference BLAS leaves the (real) diagonal alone
            for e in flat(exp):
                e.terms = [(c, l, Sc(z.c, [x[:-1] + (False,) if x[-1] == "r" else x for x in z.f])) for c, l, z in e.terms]
        rd = []
        a, b = s.canon(p, effs, rd), s.canon(p, exp)
        if rd:
            w = witness(p.facts, rg, lambda e: conforming(e) and e.get("n", 1) > 0 and e.get("m", 1) > 0, limit=60000)
            if w:
                s.alarm(f, "zero-beta", "beta = 0 but %s, which need not be set then, is read (%s)" % (rd[0].out.f[0][1], show(o, w, p)))
        opt = show(o, {})
        if tog and s.cplx:
            w = witness(p.facts, rg, lambda e: conforming(e) and e.get("n", 1) > 0 and e.get("m", 1) > 0, limit=60000)
            if w:
                s.alarm(f, "operand-left-conjugated", "array %s is still conjugated on return (%s)" % (sorted(tog)[0], show(o, w)))
            return
        outs = [e.out.f[0][1] for e in a]
        if sorted(s.key(e) for e in a) == sorted(s.key(e) for e in b):
            s.proved += 1
            return
        diff = []

        def bad(e):
            if not conforming(e) or base == "gemv" and (e["m"] < 1 or e["n"] < 1):
                return False
            xa, xb = s.expand(a, e), s.expand(b, e)
            if xa != xb:
                for k in sorted(set(xa) | set(xb)):
                    if xa.get(k) != xb.get(k):
                        diff[:] = [k, xa.get(k), xb.get(k)]
                        return True
            return False
        w = witness(p.facts, rg, bad, limit=20000)
        if w:
            k, x, y = diff
            s.alarm(f, "operands", "for %s the element at %s[%d] %s, reference BLAS: %s" % (show(o, w, p), k[0], k[1], pr(x), pr(y)), opt=":" + opt if False else "")
        else:
            s.bounded += 1

    # -- forwarding routines -----------------------------------------------------
    def fwdreq(s, rt, o):
        req = []
        for kind, a in parse(FWD[rt]) if rt != "lascl" else []:
            if kind in ("M", "MS"):
                r, c = s.dim(a[1], o), s.dim(a[2], o)
                if kind == "MS" and o["storev"] == "R":
                    r, c = c, r
                req.append((S("ld" + a[0].lower()) - r, "ld" + a[0].lower()))
        if rt == "lascl":
            t = o["matrixtype"]
            ld = S("lda")
            req.append(({"B": ld - S("kl") - ONE, "Q": ld - S("ku") - ONE, "Z": ld - Poly.c(2) * S("kl") - S("ku") - ONE}.get(t, ld - S("m")), "lda"))
        return req

    def dim(s, x, o):
        if x == "n-1":
            return S("n") - ONE
        if x.startswith("side("):
            a, b = x[5:-1].split(",")
            return S(a) if o["side"] == "L" else S(b)
        return S(x)

    def forward(s, rt, base, drv, f, o, sg, p, conforming, rg):
        calls = [e for e in p.ev if e[0] == "call"]
        other = [e for e in p.ev if e[0] == "write"]
        triv = TRIVIAL.get(rt, "")
        sc0 = {k[1].f[0][1]: k[2].c for k, val in p.facts.sc.items() if val and k[0] == "==" and isinstance(k[1], Sc) and len(k[1].f) == 1 and k[1].f[0][0] == "s"}

        def live(e):
            return conforming(e) and all(e.get(x, 1) > 0 for x in triv)
        nan = any(val for k, val in p.facts.sc.items() if k[0] in ("isnan", "isinf"))
        if not calls:
            if sc0.get("alpha") == 0 and base == "axpy" or nan and base == "lassq":
                return
            if base.startswith("larfg"):
                live_ = lambda e: live(e) and e["n"] > 1
            else:
                live_ = live
            w = witness(p.facts, rg, live_, limit=60000)
            if w:
                s.alarm(f, "not-forwarded", "nothing is done for %s" % show(o, w))
            else:
                s.proved += 1
            return
        if len(calls) > 1:
            raise Undec("several calls")
        _, g, vals, loops, line = calls[0]
        if loops:
            raise Undec("call in a loop")
        w = witness(p.facts, rg, conforming, limit=60000)
        if not w:
            return
        s.calls += 1
        if g["n"] not in NAMES.get(base, {base}):
            known = {x.split("__")[0] for x in s.rts}
            if g["n"] in known:
                s.alarm(f, "wrong-routine", "calls %s for %s" % (g["n"], show(o, w)), line)
                return
            raise Undec("call of " + g["n"])
        if rt == "lascl":
            return s.lascl(f, o, p, vals, line, conforming, rg)
        exp = parse(FWD[rt])
        if len(vals) < len(exp):
            raise Undec("arguments of " + g["n"])
        if rt == "larnv":
            t = g.get("targs", [{}])[0].get("v")
            if t is not None and int(t) != o["idist"]:
                s.alarm(f, "option", "distribution %s is passed as %s" % (o["idist"], t), line)
        if rt == "rotm":
            t = [x.get("v") for x in g.get("targs", []) if "v" in x]
            fl = [x for x in p.facts.syms() if x.startswith("int(")]
            if t and fl:
                w = witness(p.facts, rg, lambda e: e["n"] > 0 and e[fl[0]] != int(t[0]), limit=60000)
                if w:
                    s.alarm(f, "option", "flag %d is handled as %s" % (w[fl[0]], t[0]), line)
        ok = True
        for (kind, a), val in zip(exp, vals):
            av = s.operand(val) if not isinstance(val, Elem) else val
            if isinstance(av, Cell):
                av = av.v
            ok &= s.arg(rt, f, o, sg, p, kind, a, av, line, conforming, rg)
        # the result is passed on
        if f["n"] == "rotmg":
            wr = [e for e in other if e[1].base == "param" and e[1].off == ZERO]
            if not wr or "ret:" not in repr(wr[-1][2]):
                s.alarm(f, "result-lost", "the flag is not stored in param[0]", line)
        elif s.P.base(f["ret"])["k"] != "void" and p.out[0] == "ret":
            if "ret:" not in repr(p.out[1]):
                s.alarm(f, "result-lost", "the result of %s is not returned" % g["n"], line)
        if ok:
            s.proved += 1

    def arg(s, rt, f, o, sg, p, kind, a, av, line, conforming, rg):
        def alarm(msg):
            s.alarm(f, "operand", msg, line, opt=":" + (a[0] if a else kind))
            return False
        N = p.facts.norm
        nm = a[0] if a else kind
        if kind in ("o", "X"):
            want = o[nm] if kind == "o" else nm
            if not isinstance(av, str):
                raise Undec("option")
            if av != want and not (nm == "matrixtype" and want == "G" and av == "G"):
                w = witness(p.facts, rg, conforming, limit=60000)
                return alarm("%s = %s is passed as %s" % (nm, want, av)) if w else True
            return True
        if kind == "s":
            want = Sc(1, [("s", nm, False)])
            if isinstance(av, str):
                av = Sc(ord(av))
            if not isinstance(av, Sc):
                raise Undec("scalar")
            if av != want:
                d = [k for k, v in p.facts.sc.items() if v and k[0] == "==" and k[1] == want]
                if d and d[0][2] == av:
                    return True
                if any(x[0] == "o" for x in av.f):
                    raise Undec("scalar")
                return alarm("%r is passed for %s" % (av, nm))
            return True
        if kind == "r":
            if isinstance(av, Sc) and len(av.f) == 1 and av.f[0][0] == "e":
                av = Elem(av.f[0][1], av.f[0][2])
            if not isinstance(av, Elem):
                raise Undec("reference")
            if av.base != nm or N(av.off) != ZERO:
                return alarm("%r is passed for %s" % (av, nm))
            return True
        if kind == "p":
            if not isinstance(av, Ptr):
                raise Undec("pointer")
            if av.base != nm or N(av.off) != Poly.c(int(a[1])):
                return alarm("%r is passed for %s+%s" % (av, nm, a[1]))
            return True
        if kind in ("V", "W"):
            if not isinstance(av, Vec):
                raise Undec("vector")
            ld = None
            if a[1].startswith("min("):
                nn = None
            else:
                nn = s.dim(a[1], o)
            inc = S("inc" + nm) if kind == "V" else ONE
            neg = kind == "V" and sg["inc" + nm] < 0

            def bad(e):
                if not conforming(e):
                    return False
                k = nn.at(e) if nn is not None else min(e["m"], e["n"])
                c = inc.at(e)
                n_ = av.n.at(e)
                if n_ < 0:
                    return not (k < 0 and n_ == 0)
                if n_ != max(k, 0):
                    return True
                for i in range(n_):
                    if av.off.at(e) + i * av.inc.at(e) != (i * c if not neg else (i - n_ + 1) * c):
                        return True
                return False
            if av.base != nm:
                return alarm("a vector in %s is passed for %s" % (av.base, nm))
            if nn is not None and rt not in ("larfg", "larfg__2") and N(av.n - nn) == ZERO and N(av.inc - inc) == ZERO and N(av.off - ((ONE - nn) * inc if neg else ZERO)) == ZERO:
                return True
            w = witness(p.facts, rg, bad, limit=60000)
            if w:
                return alarm("%s is viewed as %s elements from offset %s with stride %s (%s)" % (nm, N(av.n), N(av.off), N(av.inc), show(o, w)))
            return True
        if kind in ("M", "MS"):
            if not isinstance(av, Mat):
                raise Undec("matrix")
            r, c = s.dim(a[1], o), s.dim(a[2], o)
            if kind == "MS" and o["storev"] == "R":
                r, c = c, r
            ld = S("ld" + nm.lower())
            if av.base != nm:
                return alarm("a matrix in %s is passed for %s" % (av.base, nm))
            if all(N(x) == ZERO for x in (av.rows - r, av.cols - c, av.rs - ONE, av.cs - ld, av.off)):
                return True

            def bad(e):
                if not conforming(e):
                    return False
                R, C = r.at(e), c.at(e)
                if (av.rows.at(e), av.cols.at(e)) != (R, C):
                    return True
                return any(av.off.at(e) + i * av.rs.at(e) + j * av.cs.at(e) != i + j * e["ld" + nm.lower()] for i in range(R) for j in range(C))
            w = witness(p.facts, rg, bad, limit=60000)
            if w:
                return alarm("%s is viewed as %s x %s, row stride %s, column stride %s (%s)" % (nm, N(av.rows), N(av.cols), N(av.rs), N(av.cs), show(o, w)))
            return True
        raise Undec(kind)

    def lascl(s, f, o, p, vals, line, conforming, rg):
        t = o["matrixtype"]
        vs = [s.operand(x) for x in vals]
        ok = True
        if t in "GLUH":
            for kind, a, v in (("X", (t,), vs[0]), ("s", ("b",), vs[1]), ("s", ("a",), vs[2]), ("M", ("A", "m", "n"), vs[3])):
                ok &= s.arg("lascl", f, o, {}, p, kind, a, v, line, conforming, rg)
            if ok:
                s.proved += 1
            return
        # band storage: element (i,j) at A[d + i - j + j*lda], d the row of the
        # main diagonal in the documented storage
        if len(vs) < 4 or not isinstance(vs[0], tuple) or not isinstance(vs[3], tuple) or vs[3][0] != "band":
            raise Undec("band")
        for kind, a, v in (("s", ("b",), vs[1]), ("s", ("a",), vs[2])):
            ok &= s.arg("lascl", f, o, {}, p, kind, a, v, line, conforming, rg)
        _, bs, off, m, n, kl, ku = vs[3]
        wkl, wku = {"B": (S("kl"), ZERO), "Q": (ZERO, S("ku")), "Z": (S("kl"), S("ku"))}[t]
        d = {"B": ZERO, "Q": S("ku"), "Z": S("kl") + S("ku")}[t]

        def operand(e):
            at = lambda q: q.at(e)
            return conforming(e) and (bs != "A" or (at(m), at(n), at(kl), at(ku)) != (e["m"], e["n"], at(wkl), at(wku)) or at(off) != 0
                                      or (at(vs[0][1]), at(vs[0][2])) != (at(wkl), at(wku)))

        def storage(tight):
            def bad(e):
                at = lambda q: q.at(e)
                if not conforming(e) or tight and e["lda"] != at(wkl) + at(wku) + 1:
                    return False
                return any(i <= j + at(kl) and j <= i + at(ku) and
                           at(off) + (at(ku) + i - j) + j * (at(ku) + at(kl) + 1) != at(d) + i - j + j * e["lda"]
                           for i in range(e["m"]) for j in range(e["n"]))
            return bad
        w = witness(p.facts, rg, operand, limit=60000)
        if w:
            s.alarm(f, "operand", "matrix type %s: the band is not the one described by m, n, kl, ku (%s)" % (t, show(o, w)), line, opt=":" + t)
            return
        w = witness(p.facts, rg, storage(t != "Z"), limit=60000)
        if w:
            s.alarm(f, "band-storage", "matrix type %s: elements of the band are taken from other places than the documented storage (%s)" % (t, show(o, w)), line, opt=":" + t)
            if t != "Z":
                return
        w = witness(p.facts, rg, storage(False), limit=60000) if t != "Z" else None
        if w:
            s.alarm(f, "band-storage", "matrix type %s: the leading dimension lda is ignored (%s)" % (t, show(o, w)), line, opt=":" + t + ":lda")
        elif ok:
            s.proved += 1


LDS = {"lda", "ldb", "ldc", "ldv", "ldt"}


class Multi:
    def __init__(s, l):
        s.l = l

    out = property(lambda s: s.l[0].out)
    kind = "set"

    @property
    def terms(s):
        return [t for e in s.l for t in e.terms]

    def conj(s):
        for e in s.l:
            e.conj()


def flat(effs):
    for e in effs:
        if isinstance(e, Multi):
            yield from e.l
        else:
            yield e


def flip(t, tog):
    return Sc(t.c, [x[:-1] + ("r" if x[-1] == "r" else not x[-1],) if x[0] == "e" and x[1] in tog else x for x in t.f])


def flipX(t, b):
    return t


def unreal(t):
    """real(element) as a factor flag"""
    f = []
    for x in t.f:
        if x[0] == "o" and x[1] == "real" and len(x[2]) == 1 and isinstance(x[2][0], Sc) and len(x[2][0].f) == 1 and x[2][0].c == 1 and x[2][0].f[0][0] in "se":
            f.append(x[2][0].f[0][:-1] + ("r",))
        else:
            f.append(x)
    return Sc(t.c, f)


def rel_ok(c, e):
    if c is None:
        return True
    a, b = e[c[0]], e[c[2]]
    return a < b if c[1] == "<" else a == b


def num(t, e):
    return (t.c, tuple(sorted([(x[0], x[1], x[2].at(e), x[3]) if x[0] == "e" else x for x in t.f], key=repr)))


def pr(v):
    if v is None:
        return "is left alone"
    kind, ts, rh = v

    def f(k):
        return "*".join((("conj(%s)" if x[-1] is True else "real(%s)" if x[-1] == "r" else "%s") % (x[1] if x[0] == "s" else "%s[%d]" % (x[1], x[2]))) for x in k) or "1"
    t = " + ".join(("" if c == 1 else "%s*" % c) + f(k) for k, c in ts) or "0"
    if kind == "solve":
        return "solves %s = %s" % (t, f(rh[1]))
    return "becomes " + t


def show(o, w, p=None):
    d = ["%s=%s" % (k, v) for k, v in o.items()] + ["%s=%d" % (k, v) for k, v in w.items()]
    if p is not None:
        d += ["%s%s%s" % (k[1], "==" if v else "!=", k[2]) for k, v in p.facts.sc.items() if k[0] == "=="]
    return ", ".join(d)


def parse(t):
    r = []
    for x in re.findall(r"'.'|\w+\((?:[^()]|\([^()]*\))*\)", t):
        if x[0] == "'":
            r.append(("X", (x[1],)))
            continue
        k, a = x.split("(", 1)
        a = a[:-1]
        parts, d, cur = [], 0, ""
        for ch in a:
            if ch == "," and d == 0:
                parts.append(cur)
                cur = ""
                continue
            d += (ch == "(") - (ch == ")")
            cur += ch
        parts.append(cur)
        r.append((k, tuple(parts)))
    return r


def first_call(x):
    if isinstance(x, dict):
        if x.get("k") == "call" and "f" in x:
            return x
        for v in x.values():
            r = first_call(v)
            if r is not None:
                return r
    elif isinstance(x, list):
        for v in x:
            r = first_call(v)
            if r is not None:
                return r
    return None


def run(ck):
    tot = dict(routines=0, paths=0, proved=0, bounded=0, undecided=0, calls=0)
    notes = set()
    for sc in ("double", "std::complex<double>"):
        P = Prog(exports([dict(driver="legacy.cpp", scalar=sc, layout="ColMajor")])[0])
        v = V15(ck, P, sc != "double")
        if len(v.rts) < 40:
            raise Broken("legacy routines not found: %d" % len(v.rts))
        for rt in sorted(v.rts):
            v.routine(rt)
        tot["routines"] += len(v.rts)
        for a, b in (("paths", "paths"), ("proved", "proved"), ("bounded", "bounded"), ("undecided", "und"), ("calls", "calls")):
            tot[a] += getattr(v, b)
        notes |= v.notes
    ck.cov.update(tot)
    ck.cov["undecided_list"] = sorted(notes)[:60]
    ck.assume += ["the generic routines do what their documentation says (decided by the other properties)",
                  "strides and extents are mathematical integers (no wrap-around)"]
