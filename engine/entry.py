"""Analysis of one routine instance from arbitrary conforming arguments."""
import itertools
from evalx import *
from isl import TRUE, FALSE

OP = {"NoTrans": 78, "Trans": 84, "ConjTrans": 67, "Conj": 71}
UPLO = {"Upper": 85, "Lower": 76, "General": 71, "UpperHessenberg": 72, "LowerHessenberg": 103, "Strict": 83}


class Call:
    """arguments of an analysed instance"""

    def __init__(s):
        s.args = []
        s.by = {}
        s.roots = {}


def ekind(P, ty):
    t = ty
    nm = t.get("name", "")
    if t["k"] == "enum":
        return "enum"
    if nm.endswith("LegacyMatrix"):
        return "mat"
    if nm.endswith("LegacyVector"):
        return "vec"
    if nm == "std::vector":
        return "vec"
    if t["k"] == "float" or nm == "std::complex":
        return "flt"
    if t["k"] == "int":
        return "int"
    if t["k"] == "bool":
        return "bool"
    if t["k"] == "ptr":
        return "fnp"
    return "rec"


def mkargs(I, f, opts=None, st=None):
    """opts: values for enum/bool/int parameters by name; returns Call and State"""
    P = I.P
    opts = opts or {}
    st = st or State({}, {}, TRUE)
    c = Call()
    for p in f["params"]:
        t0 = P.T(p["t"])
        ty = P.base(p["t"])
        ref = t0["k"] in ("ref", "rref")
        cst = not ref or bool(ty.get("const"))
        n = p["n"] or "arg%d" % len(c.args)
        k = ekind(P, ty)
        role = "in" if cst else "inout"
        if k == "mat":
            m_, n_ = I.dim(n + "_m"), I.dim(n + "_n")
            st.ctx = st.ctx & rel(m_, ">=", 0) & rel(n_, ">=", 0)
            r = Root(n, m_, n_, role, I.etype(ty), 2)
            v = View(r, 2, m_, n_, (L(0), 1, 0, L(0), 0, 1), r.et)
            c.roots[n] = r
            I.roots.append(r)
        elif k == "vec":
            n_ = I.dim(n + "_n")
            st.ctx = st.ctx & rel(n_, ">=", 0)
            r = Root(n, n_, L(1), role, I.etype(ty), 1)
            v = View(r, 1, n_, L(1), (L(0), 1, 0, L(0), 0, 0), r.et)
            c.roots[n] = r
            I.roots.append(r)
        elif n in opts:
            o = opts[n]
            v = o
            if isinstance(o, bool):
                v = B(TRUE, FALSE) if o else B(FALSE, TRUE)
            elif isinstance(o, int):
                v = L(o)
        elif k == "enum":
            v = I.dim(n)
        elif k == "flt":
            v = F("v", n, "real") if ty["k"] == "float" else F("v", n)
        elif k == "int":
            v = I.dim(n)
            if not ty["sg"]:
                st.ctx = st.ctx & rel(v, ">=", 0)
        elif k == "bool":
            b = I.dim(n)
            st.ctx = st.ctx & rel(b, ">=", 0) & rel(b, "<=", 1)
            v = B(rel(b, "==", 1), rel(b, "==", 0))
        elif k == "fnp":
            v = F("fnv", n)
        else:
            if "fields" in ty:
                v = I.defrec(ty, st)
                for fd in ty["fields"]:
                    ft = P.base(fd["t"])
                    if ft["k"] == "int" and isinstance(v.f.get(fd["n"]), Unk):
                        q = I.dim("%s_%s" % (n, fd["n"]))
                        if not ft["sg"]:
                            st.ctx = st.ctx & rel(q, ">=", 0)
                        v = v.set(fd["n"], q)
            else:
                v = Unk("arg")
        l = I.newloc(st, v)
        c.args.append((n, k, v, l, cst, ty))
        c.by[n] = v
    return c, st


def run(I, f, c, st):
    """analyse the body; returns [(state, return value)] of normal ends"""
    I.curfile = I.P.file(f)
    I.curline = f["line"]
    st.fr = {p["d"]: a[3] for p, a in zip(f["params"], c.args)}
    I.retref = False
    I.stack.append(f)
    try:
        fl = I.ex(f["body"], st)
    finally:
        I.stack.pop()
    outs = [(q, v) for q, v in fl.r if not I.dead(q)]
    if fl.n is not None and not I.dead(fl.n):
        outs.append((fl.n, None))
    return outs
