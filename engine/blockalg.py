"""Block algebra: the calls a block or recursive routine makes, on the blocks
its split points cut the matrices into, composed as non-commutative polynomials.
Atoms are blocks; callees act by their documented formulas; the result has to
satisfy the routine's matrix equation.  One recursive step (or one pass of the
blocked loop, with everything before it assumed right) at a time: induction."""
from fractions import Fraction as Fr
from dom import *
import spec as SP
from spec import NT, T, CT, UP, LO, LE, RI, NU, UN
import runner as RN


class Undecided(Exception):
    pass


# ---------------------------------------------------------------- polynomials
# an atom is (name, transposed, conjugated, inverted); a word is a tuple of
# atoms; a polynomial is a dict word -> coefficient
class Alg:
    def __init__(s, cx):
        s.cx = cx
        s.herm = set()

    def norm(s, a):
        n, t, c, i = a
        if not s.cx:
            c = 0
        if n in s.herm and t:
            t, c = 0, c ^ s.cx
        return (n, t, c, i)

    def atom(s, n, t=0, c=0, i=0):
        return {(s.norm((n, t, c, i)),): Fr(1)}

    def red(s, w):
        out = []
        for a in w:
            if out and out[-1][:3] == a[:3] and out[-1][3] != a[3]:
                out.pop()
            else:
                out.append(a)
        return tuple(out)

    def add(s, p, q, k=1):
        r = dict(p)
        for w, c in q.items():
            r[w] = r.get(w, 0) + c * k
            if not r[w]:
                del r[w]
        return r

    def mul(s, p, q):
        r = {}
        for a, x in p.items():
            for b, y in q.items():
                w = s.red(a + b)
                r[w] = r.get(w, 0) + x * y
        return {w: c for w, c in r.items() if c}

    def sc(s, p, k):
        return {w: c * k for w, c in p.items()} if k else {}

    def op(s, p, o):
        """NoTrans, Trans, ConjTrans, Conj"""
        t = o in (T, CT)
        c = 1 if o in (CT, SP.CJ) and s.cx else 0
        r = {}
        for w, x in p.items():
            v = tuple(s.norm((n, t0 ^ t, c0 ^ c, i)) for n, t0, c0, i in (reversed(w) if t else w))
            r[v] = r.get(v, 0) + x
        return r

    def inv(s, p):
        if len(p) != 1:
            raise Undecided("inverse of a sum")
        (w, c), = p.items()
        return {tuple((n, t, cj, 1 - i) for n, t, cj, i in reversed(w)): 1 / c}

    def sub(s, p, defs):
        """replaces the atoms defined as sums"""
        if not defs:
            return p
        for _ in range(20):
            if not any(a[0] in defs for w in p for a in w):
                return p
            r = {}
            for w, c in p.items():
                v = {(): c}
                for a in w:
                    if a[0] in defs:
                        if a[3]:
                            raise Undecided("inverse of a block that is factored")
                        q = s.op(defs[a[0]], CT if a[1] and a[2] or a[1] and not s.cx else T if a[1] else SP.CJ if a[2] else NT)
                    else:
                        q = {(a,): Fr(1)}
                    v = s.mul(v, q)
                r = s.add(r, v)
            p = r
        raise Undecided("definitions")


def show(p):
    def at(a):
        return a[0] + {(0, 0): "", (1, 0): "^T", (0, 1): "^C", (1, 1): "^H"}[a[1:3]] + ("^-1" if a[3] else "")
    return " + ".join(("" if c == 1 else "-" if c == -1 else "%s " % c) + ("".join(map(at, w)) or "I") for w, c in sorted(p.items(), key=str)) or "0"


# ---------------------------------------------------------------- state
class State:
    """blocks of one routine's matrices under one ordering of the cut points"""

    def __init__(s, J, dom):
        s.J = J
        s.A = J.alg
        s.dom = dom
        s.cut = {}      # root id -> (row cuts, column cuts)
        s.cell = {}     # (root id, p, q) -> content
        s.defs = {}
        s.n = 0
        s.last = {}
        s.reads = set()

    # content: off-diagonal or general cell: ("full", poly); a diagonal cell of
    # a square matrix: {"U": .., "D": .., "L": ..} with ("herm", poly),
    # ("tri", poly), ("unit", poly) or ("full", poly)
    def rng(s, root, a, b, which):
        k = s.cut[root.id][which]
        try:
            return k.index(s.find(k, a)), k.index(s.find(k, b))
        except ValueError:
            raise Undecided("view off the block grid")

    def find(s, k, x):
        for y in k:
            if y == x or (s.dom & rel(x, "<", y)).empty() and (s.dom & rel(x, ">", y)).empty():
                return y
        raise ValueError

    def blocks(s, v):
        """cells of a view: list of rows of (p, q), and whether it is transposed"""
        r0, ri, rj, c0, ci, cj = v.m
        if v.rank != 2:
            raise Undecided("vector operand")
        if (ri, rj, ci, cj) == (1, 0, 0, 1):
            p0, p1 = s.rng(v.root, r0, r0 + v.nr, 0)
            q0, q1 = s.rng(v.root, c0, c0 + v.nc, 1)
            return [[(p, q) for q in range(q0, q1)] for p in range(p0, p1)], 0
        if (ri, rj, ci, cj) == (0, 1, 1, 0):
            p0, p1 = s.rng(v.root, r0, r0 + v.nc, 0)
            q0, q1 = s.rng(v.root, c0, c0 + v.nr, 1)
            return [[(p, q) for p in range(p0, p1)] for q in range(q0, q1)], 1
        raise Undecided("strided view")

    def get(s, root, p, q):
        s.reads.add((root.id, p, q))
        return s.cell[root.id, p, q]

    def full(s, root, p, q):
        c = s.get(root, p, q)
        if isinstance(c, dict):
            v = c["U"]
            if v[0] == "full" and c["L"] == v and c["D"] == v:
                return v[1]
            raise Undecided("a stored triangle read as a full block")
        return c[1]

    def read(s, v, o=NT):
        b, t = s.blocks(v)
        m = [[s.A.op(s.full(v.root, p, q), T if t else NT) for p, q in r] for r in b]
        if o in (T, CT):
            if not m and (v.m[2], v.m[4]) == (0, 0):
                c0, c1 = s.rng(v.root, v.m[3], v.m[3] + v.nc, 1)
                return [[] for _ in range(c0, c1)]
            m = [list(r) for r in zip(*m)] if m else []
        if o != NT:
            m = [[s.A.op(x, o) for x in r] for r in m]
        return m

    def half(s, v, uplo):
        b, t = s.blocks(v)
        n = len(b)
        if t or any(len(r) != n for r in b):
            raise Undecided("triangle of a transposed view")
        h = "U" if uplo == UP else "L"
        return b, h

    def isdiag(s, root, p, q):
        c = s.cell[root.id, p, q]
        return isinstance(c, dict)

    def tri(s, v, uplo, diag):
        """block triangular matrix, zero in the other half"""
        b, h = s.half(v, uplo)
        n = len(b)
        m = [[{} for _ in range(n)] for _ in range(n)]
        for i in range(n):
            for j in range(n):
                if i == j:
                    c = s.get(v.root, *b[i][i])
                    if not isinstance(c, dict):
                        raise Undecided("triangle of a rectangular block")
                    x = c[h]
                    if diag == UN:
                        if x[0] != "unit":
                            if x[0] == "tri":
                                x = ("unit", s.A.atom("unit(%s)" % show(x[1])))
                            else:
                                raise Undecided("unit triangle of %s" % x[0])
                        m[i][i] = x[1]
                    else:
                        if x[0] == "unit" and c["D"][0] == "orig":
                            x = ("tri", s.A.atom("(%s with the stored diagonal)" % show(x[1])))
                        elif x[0] != "tri" or c["D"] != x:
                            raise Undecided("triangle of %s" % x[0])
                        m[i][i] = x[1]
                elif (i < j) == (uplo == UP):
                    m[i][j] = s.full(v.root, *b[i][j])
        return m

    def settri(s, v, uplo, diag, m):
        b, h = s.half(v, uplo)
        n = len(b)
        for i in range(n):
            for j in range(n):
                if i == j:
                    if diag == UN:
                        s.put(v.root, b[i][i], ("unit", m[i][i]), h)
                    else:
                        s.put(v.root, b[i][i], ("tri", m[i][i]), h + "D")
                elif (i < j) == (uplo == UP):
                    s.put(v.root, b[i][j], ("full", m[i][j]))
                elif m[i][j]:
                    raise Undecided("result is not triangular")

    def put(s, root, pq, val, parts=None):
        k = (root.id,) + tuple(pq)
        if parts:
            c = s.cell[k]
            if not isinstance(c, dict):
                raise Undecided("triangle of a rectangular block")
            s.cell[k] = {**c, **{x: val for x in parts}}
        else:
            c = s.cell[k]
            s.cell[k] = {"U": val, "D": val, "L": val} if isinstance(c, dict) else val
        s.last[k] = s.ev

    def write(s, v, m):
        b, t = s.blocks(v)
        for r, mr in zip(b, m):
            for pq, x in zip(r, mr):
                s.put(v.root, pq, ("full", s.A.op(x, T) if t else x))

    def herm(s, v, uplo):
        """Hermitian matrix given by a triangle"""
        b, h = s.half(v, uplo)
        n = len(b)
        m = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                if i == j:
                    c = s.get(v.root, *b[i][i])
                    if not isinstance(c, dict) or c[h][0] != "herm" or c["D"] != c[h]:
                        raise Undecided("Hermitian block of something else")
                    m[i][i] = c[h][1]
                elif (i < j) == (uplo == UP):
                    x = s.full(v.root, *b[i][j])
                    m[i][j], m[j][i] = x, s.A.op(x, CT)
        return m

    def setherm(s, v, uplo, m):
        b, h = s.half(v, uplo)
        n = len(b)
        for i in range(n):
            for j in range(n):
                if i == j:
                    s.put(v.root, b[i][i], ("herm", m[i][i]), h + "D")
                elif (i < j) == (uplo == UP):
                    s.put(v.root, b[i][j], ("full", m[i][j]))

    def fresh(s, n):
        s.n += 1
        return "%s%d" % (n, s.n)

    # ------------------------------------------------------------ algebra
    def mm(s, a, b):
        n = len(b)
        if any(len(r) != n for r in a):
            raise Undecided("block shapes")
        if not n:
            return [[] for _ in a]      # an empty sum, of any width
        w = len(b[0]) if b else 0
        out = []
        for r in a:
            o = []
            for j in range(w):
                x = {}
                for k in range(n):
                    if r[k] and b[k][j]:
                        x = s.A.add(x, s.A.mul(r[k], b[k][j]))
                o.append(x)
            out.append(o)
        return out

    def madd(s, a, b, k=1):
        if len(a) == len(b) and not any(a):
            return s.msc(b, k)
        if len(a) != len(b) or any(len(x) != len(y) for x, y in zip(a, b)):
            raise Undecided("block shapes")
        return [[s.A.add(x, y, k) for x, y in zip(p, q)] for p, q in zip(a, b)]

    def msc(s, a, k):
        return [[s.A.sc(x, k) for x in r] for r in a]

    def mop(s, a, o):
        m = [list(r) for r in zip(*a)] if o in (T, CT) and a else a
        return [[s.A.op(x, o) for x in r] for r in m]

    def minv(s, t, uplo):
        """inverse of a block triangular matrix"""
        n = len(t)
        d = [s.A.inv(t[i][i]) for i in range(n)]
        x = [[{} for _ in range(n)] for _ in range(n)]
        up = uplo == UP
        for j in range(n):
            x[j][j] = d[j]
            for i in (range(j - 1, -1, -1) if up else range(j + 1, n)):
                a = {}
                for k in (range(i + 1, j + 1) if up else range(j, i)):
                    a = s.A.add(a, s.A.mul(t[i][k], x[k][j]))
                x[i][j] = s.A.sc(s.A.mul(d[i], a), -1)
        return x

    def chol(s, v, uplo):
        H = s.herm(v, uplo)
        if len(H) != 1:
            raise Undecided("factorization of several blocks")
        h = s.A.sub(H[0][0], s.defs)
        u = s.fresh("R")
        U = s.A.atom(u)
        prod = s.A.mul(s.A.op(U, CT), U) if uplo == UP else s.A.mul(U, s.A.op(U, CT))
        # the block it came from is this product and the rest
        for w, c in h.items():
            if len(w) == 1 and c == 1 and w[0][0] in s.A.herm and not any(w[0][0] == a[0] for w2 in h for a in w2 if w2 != w):
                rest = s.A.add(h, {w: Fr(1)}, -1)
                d = s.A.add(prod, rest, -1)
                if w[0][2]:
                    d = s.A.op(d, SP.CJ)
                s.defs[w[0][0]] = d
                break
        else:
            raise Undecided("factorization of a block that is not an update of the input")
        s.settri(v, uplo, NU, [[U]])


def num(x):
    if isinstance(x, Lin) and x.const:
        return Fr(x.c)
    if isinstance(x, F):
        if x.k == "n":
            return Fr(x.a[0])
        if x.k == "cx" and isinstance(x.a[1], F) and num(x.a[1]) == 0:
            return num(x.a[0])
    raise Undecided("scalar factor %s" % str(x)[:40])


# callee semantics: name -> (letters, function)
def c_gemm(s, ta, tb, al, A, B, be, C):
    r = s.msc(s.mm(s.read(A, ta), s.read(B, tb)), num(al))
    be = num(be)
    if be:
        r = s.madd(r, s.msc(s.read(C), be))
    s.write(C, r)


def c_herk(s, u, t, al, A, be, C):
    a = s.read(A, t)
    r = s.msc(s.mm(a, s.mop(a, CT)), num(al))
    be = num(be)
    if be:
        r = s.madd(r, s.msc(s.herm(C, u), be))
    s.setherm(C, u, r)


def c_syrk(s, u, t, al, A, be, C):
    if s.A.cx:
        raise Undecided("symmetric update")
    c_herk(s, u, t, al, A, be, C)


def c_trsm(s, sd, u, t, d, al, A, B, inv=True):
    m = s.tri(A, u, d)
    if inv:
        m = s.minv(m, u)
    m = s.mop(m, t)
    b = s.read(B)
    s.write(B, s.msc(s.mm(m, b) if sd == LE else s.mm(b, m), num(al)))


def c_trmm(s, sd, u, t, d, al, A, B):
    c_trsm(s, sd, u, t, d, al, A, B, False)


def c_trtri(s, u, d, A, o=None):
    s.settri(A, u, d, s.minv(s.tri(A, u, d), u))


def c_potrf(s, u, A, o=None):
    s.chol(A, u)


def c_lauum(s, u, A):
    m = s.tri(A, u, NU)
    s.setherm(A, u, s.mm(m, s.mop(m, CT)) if u == UP else s.mm(s.mop(m, CT), m))


def c_ulmult(s, A):
    s.write(A, s.mm(s.tri(A, UP, NU), s.tri(A, LO, UN)))


def c_multllh(s, A, o=None):
    m = s.tri(A, LO, NU)
    s.setherm(A, LO, s.mm(m, s.mop(m, CT)))


def c_multuhu(s, A, o=None):
    m = s.tri(A, UP, NU)
    s.setherm(A, UP, s.mm(s.mop(m, CT), m))


def c_potri(s, u, A):
    s.chol(A, u)
    c_trtri(s, u, NU, A)
    c_lauum(s, u, A)


def c_potrs(s, u, A, B):
    m = s.minv(s.tri(A, u, NU), u)
    h = s.mm(m, s.mop(m, CT)) if u == UP else s.mm(s.mop(m, CT), m)
    s.write(B, s.mm(h, s.read(B)))


def c_getri(s, A, *o):
    s.write(A, s.mm(s.minv(s.tri(A, UP, NU), UP), s.minv(s.tri(A, LO, UN), LO)))


def c_zero(s, *a):
    raise Undecided("call")


CALLS = {"gemm": c_gemm, "herk": c_herk, "syrk": c_syrk, "trsm": c_trsm, "trmm": c_trmm, "trtri_recursive": c_trtri, "lauum_recursive": c_lauum,
         "ul_mult": c_ulmult, "mult_llh": c_multllh, "mult_uhu": c_multuhu, "potrs": c_potrs, "potri": c_potri, "getri_uili": c_getri}
for n_ in ("potrf", "potrf2", "potf2", "potrf_blocked", "potrf_rl"):
    CALLS[n_] = c_potrf


# ---------------------------------------------------------------- routines
class Rule:
    """initial contents and the equation to hold at the end"""


class Trtri(Rule):
    def __init__(r, J, u, d, A, o=None):
        r.J, r.u, r.d, r.A = J, u, d, A

    def init(r, s, root, p, q):
        k = "T%d%d" % (p, q)
        if p == q:
            a = s.A.atom(k)
            h = "U" if r.u == UP else "L"
            return h if r.d == UN else h + "D", ("unit" if r.d == UN else "tri", a)
        return None, ("full", s.A.atom(k))

    def begin(r, s):
        r.T = s.tri(r.A, r.u, r.d)

    def end(r, s):
        X = s.tri(r.A, r.u, r.d)
        E = s.mm(r.T, X)
        for i in range(len(E)):
            for j in range(len(E)):
                yield "block (%d,%d) of T X" % (i, j), (i, j), E[i][j], {(): Fr(1)} if i == j else {}


class Chol(Rule):
    def __init__(r, J, u, A, o=None):
        r.J, r.u, r.A = J, u, A

    def init(r, s, root, p, q):
        k = "S%d%d" % (p, q)
        if p == q:
            if s.J.loop and p < s.J.pivot:
                return ("U" if r.u == UP else "L") + "D", ("tri", s.A.atom("F%d%d" % (p, p)))
            s.A.herm.add(k)
            return ("U" if r.u == UP else "L") + "D", ("herm", s.A.atom(k))
        if s.J.loop and min(p, q) < s.J.pivot:
            k = "F%d%d" % (p, q)
        return None, ("full", s.A.atom(k))

    def at(r, s, p, q):
        """block p,q (p <= q) of the factor's upper form"""
        b, h = s.half(r.A, r.u)
        i, j = (p, q) if r.u == UP else (q, p)
        c = s.get(r.A.root, *b[i][j])
        if p == q:
            if c[h] != c["D"]:
                raise Undecided("parts")
            x = c[h]
        else:
            x = ("full", s.full(r.A.root, *b[i][j]))
        return x[0], x[1] if r.u == UP else s.A.op(x[1], CT)

    def begin(r, s):
        n = len(s.half(r.A, r.u)[0])
        r.n = n
        r.old = {(p, q): r.at(s, p, q) for p in range(n) for q in range(p, n)}

    def end(r, s):
        n = r.n
        H = lambda x: s.A.op(x, CT)
        new = {(p, q): r.at(s, p, q) for p in range(n) for q in range(p, n)}

        def row(b, sub, lo=0):
            for q in range(b, n):
                k, x = new[b, q]
                if q == b and k != "tri":
                    raise Undecided("diagonal block is not factored")
                e = s.A.mul(H(new[b, b][1]), x)
                if sub:
                    for p in range(lo, b):
                        e = s.A.add(e, s.A.mul(H(new[p, b][1]), new[p, q][1]))
                yield "block (%d,%d) of the product of the factors" % (b, q), (b, q), e, r.old[b, q][1]

        def same(p, q):
            yield "block (%d,%d)" % (p, q), (p, q), new[p, q][1], r.old[p, q][1]
        if not s.J.loop:
            for b in range(n):
                yield from row(b, True)
            return
        b = s.J.pivot
        for p in range(b):
            for q in range(p, n):
                yield from same(p, q)
        if s.J.mode is None and b + 1 < n and any(new[p, q] != r.old[p, q] for p in range(b + 1, n) for q in range(p, n)):
            s.J.modes.add("right-looking")
        right = s.J.mode == "right-looking"
        yield from row(b, not right)
        for p in range(b + 1, n):
            for q in range(p, n):
                if right:
                    e = s.A.add(new[p, q][1], s.A.mul(H(new[b, p][1]), new[b, q][1]))
                    yield "block (%d,%d) of the trailing matrix" % (p, q), (p, q), e, r.old[p, q][1]
                else:
                    yield from same(p, q)


class Potri(Chol):
    def end(r, s):
        X = s.herm(r.A, r.u)
        if len(X) != 1:
            raise Undecided("several blocks")
        yield "A inverse(A)", (0, 0), s.A.mul(s.A.sub(r.old[0, 0][1] if r.u == UP else s.A.op(r.old[0, 0][1], CT), s.defs), X[0][0]), {(): Fr(1)}


class Potrs(Rule):
    def __init__(r, J, u, A, B):
        r.J, r.u, r.A, r.B = J, u, A, B

    def init(r, s, root, p, q):
        if root is r.A.root:
            if p == q:
                return ("U" if r.u == UP else "L") + "D", ("tri", s.A.atom("F%d%d" % (p, q)))
            return None, ("full", s.A.atom("F%d%d" % (p, q)))
        return None, ("full", s.A.atom("B%d%d" % (p, q)))

    def begin(r, s):
        r.F = s.tri(r.A, r.u, NU)
        r.b = s.read(r.B)

    def end(r, s):
        F = r.F
        H = s.mop(F, CT)
        E = s.mm(s.mm(H, F) if r.u == UP else s.mm(F, H), s.read(r.B))
        for i in range(len(E)):
            for j in range(len(E[0])):
                yield "block (%d,%d) of A X" % (i, j), (i, j), E[i][j], r.b[i][j]


class Getri(Rule):
    def __init__(r, J, A, *o):
        r.J, r.A = J, A

    def init(r, s, root, p, q):
        if p == q:
            return {"U": ("tri", s.A.atom("U%d%d" % (p, p))), "D": ("tri", s.A.atom("U%d%d" % (p, p))), "L": ("unit", s.A.atom("L%d%d" % (p, p)))}, None
        return None, ("full", s.A.atom("%s%d%d" % ("UL"[p > q], p, q)))

    def begin(r, s):
        r.U = s.tri(r.A, UP, NU)
        r.L = s.tri(r.A, LO, UN)

    def end(r, s):
        E = s.mm(s.mm(r.L, r.U), s.read(r.A))
        for i in range(len(E)):
            for j in range(len(E)):
                yield "block (%d,%d) of A X" % (i, j), (i, j), E[i][j], {(): Fr(1)} if i == j else {}


RULES = {"trtri_recursive": Trtri, "potrf": Chol, "potrf2": Chol, "potrf_blocked": Chol, "potrf_rl": Chol, "potri": Potri, "potrs": Potrs, "getri_uili": Getri}


# ---------------------------------------------------------------- analysis
class Job:
    pass


def check(P, f, sp, opts, seconds, pid="C24"):
    res = {"state": "ok", "terms": 0, "found": [], "arrays": 0, "equal": 0, "undecided": 0, "why": [], "modes": set()}
    R = RN.prepare(P, f, sp, opts)
    I = R.I

    def hook(ff, lvs, st, e):
        if not ff.get("root") or SP.find(P, ff) is None:
            return NotImplemented
        if ff["n"] not in CALLS:
            return SP.callhook(I, ff, lvs, st, e)
        args = []
        for p, l, c in zip(ff["params"], lvs, ff["_letters"]):
            v = I.read(st, l)
            if c in "OUSDFVNH":
                ov = SP.optval(v)
                if ov is None:
                    ty = P.base(p["t"])
                    if ty["k"] == "rec":
                        ov = SP.OPV.get(ty["name"].split("::")[-1])
                if ov is None:
                    return NotImplemented
                v = ov
            args.append(v)
        ev = I.mkev("C", st, x=(ff["n"], tuple(args), ff["_letters"], ff), ctx=st.ctx)
        ev.val = "block"
        rt = P.T(ff["ret"])
        return L(0) if rt["k"] in ("int", "enum", "i") or P.base(ff["ret"])["k"] not in ("void",) else I.hv(rt, st)
    I.callhook = hook
    RN.execute(R, seconds)
    if R.status != "ok":
        res["state"] = R.status
        return res
    J = Job()
    J.alg = None
    J.R, J.f, J.P, J.res, J.pid = R, f, P, res, pid
    J.modes = res["modes"]
    cev = [e for e in I.ev if e.k == "C"]
    other = [e for e in I.ev if e.k == "C" and e.val != "block" or e.k == "W" and e.root.et not in ("i", "b")]
    cev = [e for e in cev if e.val == "block"]
    loops = {e.loops for e in cev if e.loops}
    if len(loops) > 1:
        res["state"] = "unknown: several loops"
        return res
    big = [a for a in R.args if isinstance(a, View)]
    n1 = big[0].nr
    base = R.ctx0 & rel(n1, ">=", 2) & rel(n1, "<=", 1000000000)
    for rt in R.c.roots.values():
        base = base & rel(rt.nr, ">=", 1) & rel(rt.nc, ">=", 1)
    # pieces on which the same calls are made
    todo = []
    lin = [e for e in cev if not e.loops]
    lev = [e for e in cev if e.loops]
    ctxof = {}
    for e in cev:
        ctxof[e.no] = e.ctx & base
    alls = base
    for e in lin:
        nxt = ctxof[e.no]
    dims = [n for n, sy in I.syms.items() if sy.kind == "dim"]

    def split(doms, evs):
        out = []
        for D, act in doms:
            out.append((D, act))
        for e in evs:
            nw = []
            for D, act in out:
                a = D & ctxof[e.no]
                if not a.empty():
                    nw.append((a, act + [e]))
                b = D - proj(D, a)
                if not b.empty():
                    nw.append((b, act))
            out = nw
        return out

    def proj(D, a):
        x = set(a.params()) - set(D.params())
        return a.project(list(x)) if x else a
    if lev:
        u = None
        for e in lev:
            u = ctxof[e.no] if u is None else u | ctxof[e.no]
        pl = split([(u, [])], lev)
        un = u.project([x for x in u.params() if x not in dims])
        rest = base - un
        pn = split([(rest, [])], lin) if not rest.empty() else []
        # straight calls where the loop runs: not handled
        if any(not (ctxof[e.no].project([x for x in ctxof[e.no].params() if x not in dims]) & un).empty() for e in lin):
            res["state"] = "unknown: calls around the loop"
            return res
        todo = [(D, a, True) for D, a in pl] + [(D, a, False) for D, a in pn]
    else:
        todo = [(D, a, False) for D, a in split([(base, [])], lin)]
    J.mode = None
    if lev:
        # does a pass update what comes after its block (right-looking) or not
        keep = {k: (list(v) if isinstance(v, list) else v) for k, v in res.items() if k != "modes"}
        for D, act, lp in todo:
            if lp:
                piece(J, D, act, lp, 0)
        res.update(keep)
        J.mode = "right-looking" if J.modes else "left-looking"
        J.modes.add(J.mode)
    for D, act, lp in todo:
        for w in other:
            if not (w.ctx & D).empty():
                res["undecided"] += 1
                res["why"].append("element writes or other calls at %s:%d" % w.loc)
                break
        else:
            piece(J, D, act, lp, 0)
    if lev:
        cover(J, lev, base, big[0])
    return res


def cover(J, lev, base, A):
    """the factored diagonal blocks of the loop follow each other from the first
    row to the last"""
    fac = [e for e in lev if CALLS[e.x[0]] is c_potrf]
    if not fac:
        return
    I = J.R.I
    x, n = "x_", A.nr
    xs = Lin.sym(x)
    t = fac[0].loops[0]
    tot = None
    un = None
    for e in fac:
        v = e.x[1][1]
        a = v.m[0]
        # increasing with the loop counter
        if dict(a.t).get(t, 0) <= 0:
            J.res["undecided"] += 1
            J.res["why"].append("order of the diagonal blocks")
            return
        d = e.ctx & base
        g = d & rel(xs, ">=", a) & rel(xs, "<", a + v.nr)
        dims = [k for k, sy in I.syms.items() if sy.kind == "dim"] + [x]
        g = g.project([k for k in g.params() if k not in dims])
        tot = g if tot is None else tot | g
        d = d.project([k for k in d.params() if k not in dims])
        un = d if un is None else un | d
    want = un & rel(xs, ">=", 0) & rel(xs, "<", n)
    J.res["arrays"] += 1
    if (want - tot).empty():
        J.res["equal"] += 1
    else:
        bad(J, want - tot, fac[0], "the diagonal blocks that are factored do not cover the matrix")


def bad(J, D, ev, text):
    I = J.R.I
    dims = [n for n, sy in I.syms.items() if sy.kind == "dim"]
    w = D.sample(dims)
    if w is None:
        J.res["undecided"] += 1
        return
    wt = ", ".join("%s=%s" % (k, v) for k, v in sorted(w.items()) if k in dims)
    loc = "%s:%d" % ev.loc if ev is not None else "%s" % J.f["n"]
    nm = "%s[%s]" % (J.f["n"], RN.optname(J.f, J.R.opts))
    J.res["found"].append(RN.Finding(J.pid, "block-identity", "%s (%s)" % (loc, J.f["n"]), "%s: %s, e.g. when %s" % (nm, text, wt), nm + text[:40]))


def piece(J, D, act, lp, depth):
    res = J.res
    I = J.R.I
    if D.empty():
        return
    if depth > 14:
        res["undecided"] += 1
        return
    J.loop = lp
    # cut points, in order
    cuts = {}
    for r in J.R.c.roots.values():
        if r.rank == 2:
            cuts[r.id] = [[L(0), r.nr], [L(0), r.nc]]
    if lp:
        D = D & rel(Lin.sym(act[0].loops[0]), ">=", 0)
    for e in act:
        for v in e.x[1]:
            if isinstance(v, View) and v.root.id in cuts and v.rank == 2:
                tr = v.m[1] == 0
                cuts[v.root.id][0] += [v.m[0], v.m[0] + (v.nc if tr else v.nr)]
                cuts[v.root.id][1] += [v.m[3], v.m[3] + (v.nr if tr else v.nc)]
    for rid, (a, b) in cuts.items():
        sq = next(r for r in J.R.c.roots.values() if r.id == rid)
        if (D & (rel(sq.nr, "<", sq.nc) | rel(sq.nr, ">", sq.nc))).empty():
            cuts[rid] = [a + b, a + b]
    for rid in cuts:
        for k in (0, 1):
            out = []
            for x in cuts[rid][k]:
                if any(x == y for y in out):
                    continue
                pos = 0
                dup = False
                for i, y in enumerate(out):
                    lt, gt = D & rel(x, "<", y), D & rel(x, ">", y)
                    eq = D & rel(x, "==", y)
                    ne = [not z.empty() for z in (lt, eq, gt)]
                    if sum(ne) != 1:
                        for z, o in zip((lt, eq, gt), ne):
                            if o:
                                piece(J, z, act, lp, depth + 1)
                        return
                    if ne[1]:
                        dup = True
                        break
                    if ne[2]:
                        pos = i + 1
                if not dup:
                    out.insert(pos, x)
            cuts[rid][k] = out
    rule = RULES[J.f["n"]]
    J.alg = Alg(1 if I.complex_ else 0)
    s = State(J, D)
    s.cut = cuts
    last = act[-1] if act else None
    try:
        args = list(J.R.args)
        rl = rule(J, *args[:rule.__init__.__code__.co_argcount - 2] if not rule.__init__.__code__.co_flags & 4 else args)
        if lp:
            fac = [e for e in act if CALLS[e.x[0]] is c_potrf]
            if len(fac) != 1:
                raise Undecided("no factored diagonal block")
            v = fac[0].x[1][1]
            J.pivot = s.rng(v.root, v.m[0], v.m[0] + v.nr, 0)[0]
        for r in J.R.c.roots.values():
            if r.id not in cuts:
                continue
            sq = cuts[r.id][0] is cuts[r.id][1] or list(map(str, cuts[r.id][0])) == list(map(str, cuts[r.id][1]))
            for p in range(len(cuts[r.id][0]) - 1):
                for q in range(len(cuts[r.id][1]) - 1):
                    part, val = rl.init(s, r, p, q)
                    if isinstance(part, dict):
                        s.cell[r.id, p, q] = part
                    elif part and sq:
                        o = ("orig", None)
                        s.cell[r.id, p, q] = {x: val if x in part else o for x in "UDL"}
                    elif sq and p == q and r is J.R.args[[isinstance(a, View) for a in J.R.args].index(True)].root and part:
                        s.cell[r.id, p, q] = {x: val for x in "UDL"}
                    else:
                        s.cell[r.id, p, q] = val
        s.ev = None
        rl.begin(s)
        for e in act:
            s.ev = e
            CALLS[e.x[0]](s, *[a for a, c in zip(e.x[1], e.x[2]) if c not in "o?"])
        eqs = []
        for what, pq, a, b in rl.end(s):
            a, b = s.A.sub(a, s.defs), s.A.sub(b, s.defs)
            eqs.append((what, pq, a, b))
        for what, pq, a, b in eqs:
            res["arrays"] += 1
            res["terms"] += len(a) + len(b)
            if s.A.add(a, b, -1):
                ev = None
                for k in s.last:
                    if k[1:] == tuple(pq) or k[1:] == tuple(reversed(pq)):
                        ev = s.last[k]
                bad(J, D, ev or last, "%s is %s, not %s" % (what, show(a)[:160], show(b)[:160]))
            else:
                res["equal"] += 1
    except Undecided as x:
        res["undecided"] += 1
        res["why"].append(str(x))
