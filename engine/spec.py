"""Contracts of the library routines: what a routine requires of its
arguments, which elements of each operand it may read and write.

The same text serves two purposes.  When a routine is analysed on its own, its
contract states the calls to be considered and the accesses that are allowed
("assume").  Where a routine is called by another one, the contract stands for
the callee: its requirements become obligations of the caller and its accesses
become accesses of the caller ("call")."""
import re
from evalx import *
from isl import TRUE, FALSE, Set

SPECS = {}

OPV = {"NoTranspose": 78, "Transpose": 84, "ConjTranspose": 67, "Conjugate": 3, "LeftSide": 76, "RightSide": 82, "BothSides": 66,
       "UpperTriangle": 85, "LowerTriangle": 76, "GeneralAccess": 71, "UpperHessenberg": 72, "LowerHessenberg": 4, "StrictUpper": 83,
       "StrictLower": 6, "NonUnitDiagonal": 78, "UnitDiagonal": 85, "MaxNorm": 77, "OneNorm": 49, "TwoNorm": 50, "InfNorm": 73,
       "FrobNorm": 70, "Forward": 70, "Backward": 66, "ColumnwiseStorage": 67, "RowwiseStorage": 82}
NT, T, CT, CJ = 78, 84, 67, 3
UP, LO, GE, UH, LH, SU, SL = 85, 76, 71, 72, 4, 83, 6
LE, RI, BO = 76, 82, 66
NU, UN = 78, 85
FW, BW = 70, 66
CW, RW = 67, 82
ENUMS = {"O": [NT, T, CT], "U": [UP, LO], "S": [LE, RI], "D": [NU, UN], "F": [FW, BW], "V": [CW, RW], "N": [77, 49, 73, 70]}
# every value an option argument can have, to try undocumented ones
ALLV = {"O": [NT, T, CT, CJ], "U": [UP, LO, GE, UH, LH, SU, SL], "S": [LE, RI, BO], "D": [NU, UN], "F": [FW, BW], "V": [CW, RW], "N": [77, 49, 50, 73, 70]}
LET = {"Op": "O", "Uplo": "U", "Side": "S", "Diag": "D", "Direction": "F", "StoreV": "V", "Norm": "N", "HowMny": "H"}
NAMES = {"O": {78: "NoTrans", 84: "Trans", 67: "ConjTrans", 3: "Conj"}, "U": {85: "Upper", 76: "Lower", 71: "General", 72: "UpperHessenberg", 4: "LowerHessenberg", 83: "StrictUpper", 6: "StrictLower"},
         "S": {76: "Left", 82: "Right", 66: "Both"}, "D": {78: "NonUnit", 85: "Unit"}, "F": {70: "Forward", 66: "Backward"}, "V": {67: "Columnwise", 82: "Rowwise"},
         "N": {77: "Max", 49: "One", 50: "Two", 73: "Inf", 70: "Fro"}}


class NoContract(Exception):
    pass


class Spec:
    def __init__(s, name, sig, fn, opts):
        s.name = name
        s.sig = sig
        s.rx = re.compile(sig + r"o?\Z")
        s.fn = fn
        s.opts = opts            # option position -> documented values
        s.entry = not opts.get("noentry")


def spec(names, sig, **opts):
    def d(fn):
        for n in names.split():
            SPECS.setdefault(n, []).append(Spec(n, sig, fn, opts))
        return fn
    return d


def letters(P, f):
    """one letter per parameter"""
    out = []
    for p in f["params"]:
        ty = P.base(p["t"])
        nm = ty.get("name", "") or ""
        if ty["k"] == "enum":
            out.append(LET.get(nm.split("::")[-1], "e"))
        elif nm.endswith("LegacyMatrix"):
            out.append("m")
        elif nm.endswith("LegacyVector") or nm == "std::vector" or nm == "std::span":
            out.append("v")
        elif ty["k"] == "float" or nm == "std::complex":
            out.append("s")
        elif ty["k"] == "int":
            out.append("i")
        elif ty["k"] == "bool":
            out.append("b")
        elif ty["k"] == "ptr":
            out.append("f")
        elif ty["k"] == "rec" and nm.split("::")[-1] in OPV:
            k = nm.split("::")[-1]
            out.append({"NoTranspose": "O", "Transpose": "O", "ConjTranspose": "O", "Conjugate": "O", "LeftSide": "S", "RightSide": "S", "BothSides": "S", "NonUnitDiagonal": "D", "UnitDiagonal": "D", "MaxNorm": "N", "OneNorm": "N", "TwoNorm": "N", "InfNorm": "N", "FrobNorm": "N", "Forward": "F", "Backward": "F", "ColumnwiseStorage": "V", "RowwiseStorage": "V"}.get(k, "U"))
        else:
            out.append("o")
    return "".join(out)


def find(P, f):
    ss = SPECS.get(f["n"])
    if not ss:
        return None
    c = f.get("_letters")
    if c is None:
        c = f["_letters"] = letters(P, f)
    for s in ss:
        if s.rx.match(c):
            return s
    return None


# ---------------------------------------------------------------- regions
def full(i, j=None):
    return TRUE


def upper(i, j):
    return rel(i, "<=", j)


def supper(i, j):
    return rel(i, "<", j)


def lower(i, j):
    return rel(i, ">=", j)


def slower(i, j):
    return rel(i, ">", j)


def uhess(i, j):
    return rel(i, "<=", j + 1)


def lhess(i, j):
    return rel(j, "<=", i + 1)


def diagonal(i, j):
    return rel(i, "==", j)


REG = {UP: upper, LO: lower, GE: full, UH: uhess, LH: lhess, SU: supper, SL: slower}


def tri(uplo, diag=NU):
    if uplo == GE:
        return full
    if diag == UN:
        return supper if uplo == UP else slower
    return REG[uplo]


def rows(a, b, reg=full):
    """rows a..b-1"""
    a, b = L(a), L(b)
    return lambda i, j=None: rel(i, ">=", a) & rel(i, "<", b) & (reg(i, j) if j is not None else TRUE)


def box(r0, r1, c0, c1):
    r0, r1, c0, c1 = L(r0), L(r1), L(c0), L(c1)
    return lambda i, j=None: rel(i, ">=", r0) & rel(i, "<", r1) & rel(j, ">=", c0) & rel(j, "<", c1)


def union(*rs):
    def g(i, j=None):
        r = FALSE
        for q in rs:
            r = r | (q(i, j) if j is not None else q(i))
        return r
    return g


def inter(*rs):
    def g(i, j=None):
        r = TRUE
        for q in rs:
            r = r & (q(i, j) if j is not None else q(i))
        return r
    return g


class Con:
    """contract evaluation context"""

    def __init__(s, I, st, mode, f, sp, neg=None):
        s.I = I
        s.st = st
        s.mode = mode
        s.f = f
        s.sp = sp
        s.neg = neg
        s.nreq = 0
        s.g = TRUE
        s.reqs = []
        s.rd = {}          # root id -> region functions
        s.wr = {}
        s.retv = None
        s.dead = False
        s.outs = {}
        s.exact = True
        s.regional = set()
        s.seqn = 0
        s.complex_ = None
        s.accs = []        # accesses of a call

    # ---- requirements
    def req(s, cond, why, chk=True):
        k = s.nreq
        s.nreq += 1
        s.reqs.append((why, cond, chk))
        if s.mode == "call":
            e = s.I.mkev("Q", s.st, x=(why, cond, s.f["n"], chk))
            s.st.ctx = s.st.ctx & cond
        elif s.neg == k:
            s.st.ctx = s.st.ctx & ~cond
        else:
            s.st.ctx = s.st.ctx & cond

    def eq(s, a, b, why, chk=True):
        s.req(rel(a, "==", b), why, chk)

    def le(s, a, b, why, chk=True):
        s.req(rel(a, "<=", b), why, chk)

    def sq(s, A, why="square", chk=True):
        s.req(rel(A.nr, "==", A.nc), why, chk)

    def min(s, a, b):
        return s.I.imin(s.st, a, b)

    def max(s, a, b):
        return s.I.imin(s.st, a, b, "max")

    # ---- accesses
    def when(s, *conds):
        s.g = TRUE
        for q in conds:
            s.g = s.g & q
        return s

    def some(s, *dims):
        """accesses below happen only if all these dimensions are positive"""
        return s.when(*[rel(d, ">=", 1) for d in dims])

    def acc(s, k, v, reg, val=None):
        if not isinstance(v, View):
            return
        I = s.I
        if s.mode != "call":
            d = s.rd if k == "R" else s.wr
            d.setdefault(v.root.id, []).append((v, reg))
            if reg is not full:
                s.regional.add(v.root.id)
            return
        i = Lin.sym(I.fresh("ci", "iter", frozenset(I.loops)))
        if v.rank == 2:
            j = Lin.sym(I.fresh("cj", "iter", frozenset(I.loops)))
            dom = rel(i, ">=", 0) & rel(i, "<", v.nr) & rel(j, ">=", 0) & rel(j, "<", v.nc) & reg(i, j)
        else:
            j = None
            dom = rel(i, ">=", 0) & rel(i, "<", v.nr) & reg(i)
        dom = dom & s.g
        if dom is FALSE:
            return
        cx = s.st.ctx & dom
        ev = I.mkev(k, s.st, root=v.root, ix=v.at(i, j), view=(v, i, j), ctx=cx, val=val, op=("contract", s.f["n"]) if k == "W" else None, x="contract " + s.f["n"])
        s.accs.append((k, v, ev))
        if k == "W":
            v.root.ver += 1

    def R(s, v, reg=full):
        s.acc("R", v, reg)

    def W(s, v, reg=full):
        s.acc("W", v, reg)

    def RW(s, v, reg=full):
        s.acc("R", v, reg)
        s.acc("W", v, reg)

    def work(s, w):
        """scratch array: everything may be written and read back"""
        if s.mode != "call":
            if isinstance(w, View):
                s.wr.setdefault(w.root.id, []).append((w, full))
                w.root.role = "work"
        else:
            s.acc("W", w, full)

    def out(s, v, reg=full):
        s.W(v, reg)

    def ret(s, v):
        s.retv = v

    def info(s, hi=None, lo=0):
        s.infohi = hi
        if s.mode == "call":
            n = Lin.sym(s.I.fresh("info", "data", frozenset(s.I.loops)))
            s.st.ctx = s.st.ctx & rel(n, ">=", lo)
            if hi is not None:
                s.st.ctx = s.st.ctx & rel(n, "<=", hi)
            s.retv = n
            s.I.infos.append((n, s.f, s.I.curfile, s.I.curline, s.st.ctx))

    def zero(s):
        s.retv = L(0)

    def isc(s):
        """complex instance"""
        return s.I.complex_


def optval(v):
    if isinstance(v, Lin) and v.const:
        return v.c
    if isinstance(v, Rec):
        return OPV.get(str(v.ty).split("::")[-1])
    return None


def documented(P, f, sp, k, c):
    """documented values of option parameter k"""
    vals = sp.opts.get("at", {}).get(k)
    if vals is None:
        vals = sp.opts.get(c, ENUMS[c])
        if vals == "OT":
            cx = any("complex" in P.base(p["t"]).get("s", "") or "complex" in P.base(p["t"]).get("name", "") for p in f["params"])
            vals = [NT, CT] if cx else [NT, T, CT]
    return vals


def callhook(I, f, lvs, st, e):
    """contract of a called routine"""
    if not f.get("root"):
        return NotImplemented
    if f["n"] in I.nocontract or f.get("root") is None:
        return NotImplemented
    sp = find(I.P, f)
    if sp is None:
        return NotImplemented
    if sp.opts.get("inline") and len(I.stack) <= 3 and not any(q["id"] == f["id"] for q in I.stack):
        return NotImplemented
    let = f["_letters"]
    args = []
    P = I.P
    for p, l, c in zip(f["params"], lvs, let):
        ty = P.base(p["t"])
        if l[0] == "el" or len(args) in sp.opts.get("wonly", ()):
            v = None            # scalar argument bound to an element: read below
        else:
            v = I.read(st, l)
            use(v)
        if c in "OUSDFVNH":
            ov = optval(v)
            if ov is None:
                if ty["k"] == "rec":
                    ov = OPV.get(ty["name"].split("::")[-1])
                if ov is None and isinstance(v, Lin):
                    can = [o for o in ALLV.get(c, ()) if not (st.ctx & rel(v, "==", o)).empty()]
                    if len(can) == 1:
                        ov = can[0]
                if ov is None:
                    return NotImplemented
            v = ov
            if c in "OUSDFVN":
                doc = documented(P, f, sp, len(args), c)
                if v not in doc:
                    if I.mkev("Q", st, x=("documented value of option %s, not %s" % (p["n"], NAMES[c].get(v, v)), FALSE, f["n"], True)) or True:
                        st.ctx = FALSE
                        return I.hv(P.T(f["ret"]), st)
        args.append(v)
    wonly = sp.opts.get("wonly", ())
    for k, (c, v) in enumerate(zip(let, args)):
        if c in "mv" and not isinstance(v, View):
            return NotImplemented
        if c == "i" and not isinstance(v, Lin) and k not in wonly:
            return NotImplemented
        if c == "b" and not isinstance(v, B):
            return NotImplemented
    # scalars passed by reference to array elements are read
    els = []
    for k, (p, l, c) in enumerate(zip(f["params"], lvs, let)):
        if l[0] == "el" and not (c == "s" and k in wonly):
            n0 = len(I.ev)
            args[k] = I.read(st, l)
            use(args[k])
            t = P.T(p["t"])
            if t["k"] == "ref" and len(I.ev) > n0 and I.ev[-1].k == "R":
                els.append(I.ev[-1])
    c = Con(I, st, "call", f, sp)
    a = list(args)
    n = sp.fn.__code__.co_argcount - 1
    a = (a + [None] * n)[:n]
    ev = I.mkev("C", st, x=(f["n"], tuple(args), let, f), ctx=st.ctx)
    n_ = len(I.infos)
    try:
        sp.fn(c, *a)
    except NoContract:
        return NotImplemented
    for k in range(n_, len(I.infos)):
        I.infos[k] += (ev,)
    ev.val = (c.accs, els)
    # scalar outputs
    for k, (p, l, cc) in enumerate(zip(f["params"], lvs, let)):
        t = P.T(p["t"])
        if t["k"] == "ref" and not P.T(t["e"]).get("const") and cc in "sib":
            I.write(st, l, c.outs.get(k, I.hv(P.T(t["e"]), st)))
    if I.dead(st):
        st.ctx = FALSE
        return I.hv(P.T(f["ret"]), st)
    if c.retv is not None:
        return c.retv
    return I.hv(P.T(f["ret"]), st)
