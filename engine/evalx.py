"""Expressions, calls and library intrinsics of the abstract interpreter."""
from fractions import Fraction
from interp import *
from interp import isn
from dom import *
from isl import TRUE, FALSE, parse, IslError

CMP = {"<": "<", "<=": "<=", ">": ">", ">=": ">=", "==": "==", "!=": "!="}
NEG = {"<": ">=", ">=": "<", ">": "<=", "<=": ">"}
SWP = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
CONSTFN = {"safe_min", "safe_max", "ulp", "uroundoff", "epsilon", "blue_min", "blue_max", "blue_scalingMin",
           "blue_scalingMax", "round_error", "digits", "quiet_NaN", "signaling_NaN", "infinity"}
IDENT = {"forward", "move", "get", "as_const", "ref", "cref", "static_pointer_cast"}
MAXF = 400


class Eval(Interp):
    callhook = None         # (self, st, f, args, expr) -> NotImplemented or value
    onslice = None

    # ------------------------------------------------------------ helpers
    def hv(s, ty, st):
        """arbitrary value of a type"""
        while ty["k"] in ("ref", "rref"):
            ty = s.P.T(ty["e"])
        k = ty["k"]
        if k in ("int", "enum"):
            q = s.havocint(st)
            if k == "int" and not ty["sg"]:
                st.ctx = st.ctx & rel(q, ">=", 0)
            return q
        if k == "bool":
            return s.freshpred(st)
        if k == "float" or (k == "rec" and ty["name"] == "std::complex"):
            return s.fopq()
        if k == "rec" and ty["name"].split("::")[-1] == "WorkInfo" and "fields" in ty:
            return Rec(ty["name"], {x["n"]: s.hv(s.P.T(x["t"]), st) for x in ty["fields"]})
        return Unk("hv " + ty.get("s", ""))

    def fopq(s):
        return F("opq", s.fresh("f", "f", frozenset(s.loops)))

    def asint(s, v, st, ty=None):
        if isinstance(v, Lin):
            return v
        if isinstance(v, B):
            return s.b2i(st, v)
        if isinstance(v, F):
            return s.f2i(st, v)
        q = s.havocint(st)
        if ty and ty.get("k") == "int" and not ty["sg"]:
            st.ctx = st.ctx & rel(q, ">=", 0)
        return q

    def asf(s, v, st=None):
        if isinstance(v, F):
            return v
        if isinstance(v, Lin):
            return s.i2f(v)
        if isinstance(v, B):
            if v.T is TRUE:
                return ONE
            if v.T is FALSE:
                return ZERO
        if isinstance(v, Unk) and v.why == "uninit":
            return F("uninit", s.fresh("f", "f", frozenset(s.loops)))
        if isinstance(v, Rec) and v.ty == "tlapack::StrongZero":
            return ZERO
        return s.fopq()

    def asb(s, v, st):
        if isinstance(v, B):
            return v
        if isinstance(v, Lin):
            if v.const:
                return B(TRUE if v.c else FALSE, FALSE if v.c else TRUE)
            return B(rel(v, "!=", 0))
        if isinstance(v, F):
            return s.bnot(s.fcmp("==", v, ZERO, st))
        return s.freshpred(st)

    def bnot(s, b):
        return B(b.F, b.T)

    def isflt(s, ty):
        return ty["k"] == "float" or (ty["k"] == "rec" and ty["name"] == "std::complex")

    def put(s, st, j):
        """make st the state j"""
        if j is None:
            st.ctx = FALSE
        elif j is not st:
            st.ctx = j.ctx
            st.st = j.st

    # ------------------------------------------------------------ lvalues
    def lv(s, e, st):
        k = e["k"]
        if k == "ref":
            l = st.fr.get(e["d"])
            if l is not None:
                return l
            return ("val", s.glob(e, st))
        if k == "mem":
            if e.get("arrow") and e["b"]["k"] == "this" or e["b"]["k"] == "this":
                return ("fld", st.this, e["f"])
            return ("fld", s.lv(e["b"], st), e["f"])
        if k == "idx":
            b = s.ev_(e["b"], st)
            i = s.asint(s.ev_(e["i"], st), st)
            if isinstance(b, View):
                return ("el", b, i, None)
            return ("arr", s.lv(e["b"], st), i)
        if k == "this":
            return st.this
        if k == "un" and e["op"] == "*":
            return s.lv(e["e"], st)
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            s.ev_(e, st)
            return s.lv(e["e"], st)
        if k == "bin" and e["op"] in ("=", "+=", "-=", "*=", "/="):
            s.ev_(e, st)
            return s.lv(e["a"], st)
        if k == "call":
            r = s.call(e, st, True)
            if isinstance(r, tuple) and r and r[0] == "LV":
                return r[1]
            return ("val", r)
        if k == "cond":
            c = s.asb(s.ev_(e["c"], st), st)
            if c.T is TRUE or s.entails(st, c.T):
                return s.lv(e["a"], st)
            if c.T is FALSE or s.entails(st, c.F):
                return s.lv(e["b"], st)
            return ("val", s.ev_(e, st))
        if k == "cast" and e.get("ck") in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "Dependent"):
            return s.lv(e["e"], st)
        return ("val", s.ev_(e, st))

    def glob(s, e, st):
        if not e.get("g") and not e.get("sl"):
            return Unk("ref " + e["n"])
        g = (s.P.d.get("globals") or {}).get(str(e["d"]))
        if g and g.get("init") and e.get("gc"):
            return s.ev_(g["init"], st)
        return s.hv(s.P.base(e["t"]), st)

    # ------------------------------------------------------------ expressions
    def ev_(s, e, st):
        if e is None:
            return None
        k = e["k"]
        if "l" in e:
            s.curline = e["l"]
        s.tick()
        m = getattr(s, "x_" + k, None)
        if m is None:
            return Unk("expr " + k)
        return m(e, st)

    def x_c(s, e, st):
        t = s.P.T(e["t"])
        v = int(e["v"])
        if t["k"] == "bool":
            return B(TRUE, FALSE) if v else B(FALSE, TRUE)
        return L(v)

    def x_f(s, e, st):
        return F("n", Fraction(e["v"]))

    def x_s(s, e, st):
        return Unk("string")

    def x_fn(s, e, st):
        return Rec("fn", {"f": e["f"]})

    def x_zero(s, e, st):
        t = s.P.T(e["t"])
        if t["k"] in ("int", "enum"):
            return L(0)
        if t["k"] == "bool":
            return B(FALSE, TRUE)
        if s.isflt(t):
            return ZERO
        return s.default(t, st)

    def x_this(s, e, st):
        return s.read(st, st.this) if st.this else Unk("this")

    def x_ref(s, e, st):
        l = st.fr.get(e["d"])
        if l is None:
            return s.glob(e, st)
        v = s.read(st, l)
        if isinstance(v, Unk) and v.why in ("uninit", "field"):
            ty = s.P.base(e["t"])
            if ty["k"] in ("int", "enum", "bool"):
                s.mkev("uninit", st, x=e["n"])
                return s.hv(ty, st)
        return v

    def x_mem(s, e, st):
        v = s.read(st, s.lv(e, st))
        if isinstance(v, Unk):
            ty = s.P.base(e["t"])
            if ty["k"] in ("int", "bool", "enum") or s.isflt(ty):
                return s.hv(ty, st)
        return v

    def x_idx(s, e, st):
        return s.read(st, s.lv(e, st))

    def x_method(s, e, st):
        return Unk("method")

    def x_unk(s, e, st):
        return s.hv(s.P.T(e["t"]), st) if "t" in e else Unk("unk")

    def x_un(s, e, st):
        op = e["op"]
        ty = s.P.T(e["t"])
        if op in ("++", "--"):
            l = s.lv(e["e"], st)
            v = s.asint(s.read(st, l), st, s.P.base(e["t"]))
            w = s.wrap(st, v + (1 if op == "++" else -1), s.P.base(e["t"]))
            s.write(st, l, w)
            return v if e.get("post") else w
        if op == "&":
            return Rec("ptr", {"to": Unk("ptr")})
        if op == "*":
            v = s.ev_(e["e"], st)
            return v if isinstance(v, (F, Lin)) else s.hv(ty, st)
        v = s.ev_(e["e"], st)
        if op == "!":
            return s.bnot(s.asb(v, st))
        if op == "+":
            return v
        if op == "-":
            if isinstance(v, F):
                return fneg(v)
            if s.isflt(ty):
                return fneg(s.asf(v, st))
            return s.wrap(st, -s.asint(v, st), ty)
        return s.hv(ty, st)

    def fbin(s, op, a, b):
        use(a, b)
        if a.k == "uninit" or b.k == "uninit":
            return s.fopq()
        r = {"+": fadd, "-": fsub, "*": fmul, "/": fdiv}[op](a, b)
        if r.sz > MAXF:
            return s.fopq()
        return r

    def fcmp(s, op, a, b, st):
        use(a, b)
        if isn(a) and isn(b):
            x, y = a.a[0], b.a[0]
            r = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
            return B(TRUE, FALSE) if r else B(FALSE, TRUE)
        if a.k == "i" and b.k == "i":
            return B(rel(a.a[0], op, b.a[0]))
        if a.k == "i" and isn(b) and b.a[0].denominator == 1:
            return B(rel(a.a[0], op, L(int(b.a[0]))))
        if op == "!=":
            return s.bnot(s.fcmp("==", a, b, st))
        if op == ">=":
            return s.bnot(s.fcmp("<", a, b, st))
        if op == ">":
            return s.fcmp("<", b, a, st)
        if op == "<=":
            return s.bnot(s.fcmp("<", b, a, st))
        if op == "==" and repr(b) < repr(a):
            a, b = b, a
        if a == b and a.k in ("v", "n"):
            return B(TRUE, FALSE) if op == "==" else B(FALSE, TRUE)
        return s.fpred(("cmp", op, a, b), st)

    def fpred(s, key, st):
        """data dependent condition"""
        if any(isinstance(q, F) and s.hasphi(q) for q in key):
            return s.freshpred(st)
        return s.pred(st, key, s.depsof(*[q for q in key if isinstance(q, F)]))

    def hasphi(s, f):
        return f.k in ("phi", "uninit") or any(isinstance(a, F) and s.hasphi(a) for a in f.a)

    def logic(s, e, st):
        op = e["op"]
        a = s.asb(s.ev_(e["a"], st), st)
        if op == "&&":
            go, stay = a.T, a.F
        else:
            go, stay = a.F, a.T
        if go is FALSE:
            return a
        if stay is FALSE or stay.empty():
            return s.asb(s.ev_(e["b"], st), st)
        f = st.fork(st.ctx & go)
        if s.dead(f):
            return a
        c0 = f.ctx
        st0 = dict(f.st)
        b = s.asb(s.ev_(e["b"], f), f)
        if f.st != st0 and any(k in st0 and f.st[k] is not st0[k] for k in f.st):
            o = st.fork(st.ctx & stay)
            j = s.join2(f, o)
            s.put(st, j)
        elif f.ctx is not c0:
            if s.dead(f):
                st.ctx = st.ctx & stay
            else:
                # defining constraints of symbols that the right operand introduced
                new = [n for n in s.plist(f.ctx) if n not in s.plist(c0)]
                if all(n in s.defs and s.defs[n] is not None for n in new):
                    for n in new:
                        st.ctx = st.ctx & s.defs[n]
                else:
                    st.ctx = f.ctx | (st.ctx & stay)
        if op == "&&":
            return B(a.T & b.T, a.F | b.F)
        return B(a.T | b.T, a.F & b.F)

    def x_bin(s, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            return s.logic(e, st)
        if op == ",":
            s.ev_(e["a"], st)
            return s.ev_(e["b"], st)
        ty = s.P.base(e["t"])
        if op == "=":
            l = s.lv(e["a"], st)
            v = s.conv(s.ev_(e["b"], st), ty, st)
            if l[0] == "el" and isinstance(v, Unk):
                v = s.hv(ty, st)
            s.write(st, l, v)
            return v
        if op in ("+=", "-=", "*=", "/=", "%=", "|=", "&="):
            l = s.lv(e["a"], st)
            b = s.ev_(e["b"], st)
            if l[0] == "el" and s.isflt(ty):
                a = s.rd_el(st, l[1], l[2], l[3])
                bf = s.asf(b, st)
                s.wr_el(st, l[1], l[2], l[3], s.fbin(op[0], s.asf(a, st), bf), (op, bf))
                return Unk("compound")
            a = s.read(st, l)
            v = s.arith(op[:-1], a, b, ty, st)
            s.write(st, l, v)
            return v
        a = s.ev_(e["a"], st)
        b = s.ev_(e["b"], st)
        if op in CMP:
            return s.compare(op, a, b, st, e)
        return s.arith(op, a, b, ty, st)

    def compare(s, op, a, b, st, e=None):
        if isinstance(a, F) or isinstance(b, F):
            return s.fcmp(op, s.asf(a, st), s.asf(b, st), st)
        if isinstance(a, (Lin, B)) and isinstance(b, (Lin, B)):
            if isinstance(a, B) and isinstance(b, B):
                eq = B((a.T & b.T) | (a.F & b.F), (a.T & b.F) | (a.F & b.T))
                return eq if op == "==" else s.bnot(eq)
            a = s.asint(a, st)
            b = s.asint(b, st)
            x = a - b
            if x.const or a.const or b.const or True:
                return B(rel(a, op, b))
        if isinstance(a, Unk) and isinstance(b, (Lin,)) or isinstance(b, Unk) and isinstance(a, Lin):
            return B(rel(s.asint(a, st), op, s.asint(b, st)))
        return s.freshpred(st)

    def arith(s, op, a, b, ty, st):
        if s.isflt(ty):
            return s.fbin(op, s.asf(a, st), s.asf(b, st)) if op in "+-*/" else s.fopq()
        if ty["k"] == "bool":
            a = s.asb(a, st)
            b = s.asb(b, st)
            if op == "|":
                return B(a.T | b.T, a.F & b.F)
            if op == "&":
                return B(a.T & b.T, a.F | b.F)
            return s.freshpred(st)
        if ty["k"] == "ptr":
            return Unk("ptr")
        a = s.asint(a, st, ty)
        b = s.asint(b, st, ty)
        if op == "+":
            r = a + b
        elif op == "-":
            r = a - b
        elif op == "*":
            r = s.imul(st, a, b)
        elif op == "/":
            if b.const and b.c != 0:
                return s.idiv(st, a, b.c)
            return s.sdiv(st, a, b)
        elif op == "%":
            if b.const and b.c > 0:
                q = s.idiv(st, a, b.c)
                return a - q.scale(b.c)
            return s.smod(st, a, b)
        elif op == "|" and a.const and b.const:
            return L(a.c | b.c)
        elif op == "&" and a.const and b.const:
            return L(a.c & b.c)
        elif op == "&" and b.const and b.c == 1:
            q = s.idiv(st, a, 2)
            return a - q.scale(2)
        elif op in ("<<", ">>") and b.const:
            return a.scale(1 << b.c) if op == "<<" else s.idiv(st, a, 1 << b.c)
        else:
            return s.hv(ty, st)
        return s.wrap(st, r, ty)

    def sdiv(s, st, a, b):
        q = s.opaque(st, ("div", a, b))
        st.ctx = st.ctx & (rel(b, "<", 1) | rel(a, "<", 0) | (rel(q, ">=", 0) & rel(q, "<=", a)))
        return q

    def smod(s, st, a, b):
        q = s.opaque(st, ("mod", a, b))
        st.ctx = st.ctx & (rel(b, "<", 1) | rel(a, "<", 0) | (rel(q, ">=", 0) & rel(q, "<", b) & rel(q, "<=", a)))
        return q

    def x_cond(s, e, st):
        c = s.asb(s.ev_(e["c"], st), st)
        t, f = s.split(st, c)
        if f is None:
            return s.ev_(e["a"], st)
        if t is None:
            return s.ev_(e["b"], st)
        ty = s.P.base(e["t"])
        if s.autosplit and ty["k"] in ("rec", "enum") and ty.get("name") != "std::complex":
            s.splitby(st, [c.T, c.F])
        va = s.conv(s.ev_(e["a"], t), ty, t)
        vb = s.conv(s.ev_(e["b"], f), ty, f)
        return s.merge(st, [(t, va), (f, vb)])

    def merge(s, st, alts):
        """join states carrying a value"""
        out = None
        for q, v in alts:
            if q is None or s.dead(q):
                continue
            q.st[-1] = v
            out = q if out is None else s.join2(out, q)
        if out is None:
            st.ctx = FALSE
            return Unk("noreturn")
        v = out.st.pop(-1, Unk("merge"))
        s.put(st, out)
        return v

    def x_cast(s, e, st):
        ck = e["ck"]
        ty = s.P.T(e["t"])
        if ck == "ToVoid":
            s.ev_(e["e"], st)
            return None
        v = s.ev_(e["e"], st)
        if ck == "IntegralCast":
            if isinstance(v, B):
                v = s.b2i(st, v)
            if not isinstance(v, Lin):
                return s.hv(ty, st)
            if ty["k"] == "int":
                src = s.P.base(e["st"])
                if src["k"] == "int" and src["bits"] == ty["bits"] and src["sg"] == ty["sg"]:
                    return v
                return s.wrap(st, v, ty)
            return v
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            return s.asb(v, st)
        if ck == "PointerToBoolean":
            return s.freshpred(st) if not isinstance(v, Rec) else B(TRUE, FALSE)
        if ck == "IntegralToFloating":
            return s.asf(v, st)
        if ck == "FloatingToIntegral":
            return s.f2i(st, v) if isinstance(v, F) else s.hv(ty, st)
        if ck in ("FloatingCast", "FloatingRealToComplex", "FloatingComplexCast"):
            return v
        if s.isflt(ty) and isinstance(v, Lin):
            return s.i2f(v)
        if ty["k"] == "int" and isinstance(v, F):
            return s.f2i(st, v)
        return v

    def x_copy(s, e, st):
        return s.ev_(e["e"], st)

    def x_throw(s, e, st):
        t = s.P.T(e["t"]).get("name", "") if "t" in e else ""
        s.nthrow += 1
        s.mkev("throw", st, x=t)
        st.ctx = FALSE
        return None

    def x_new(s, e, st):
        n = s.asint(s.ev_(e["n"], st), st) if e.get("n") else L(1)
        return s.newvec(st, n, None)

    def x_delete(s, e, st):
        return None

    def x_list(s, e, st):
        ty = s.P.T(e["t"])
        if ty["k"] == "arr":
            vals = [s.ev_(a, st) for a in e["a"]]
            n = min(ty["n"], 64)
            et = s.P.T(ty["e"])
            d = {i: (vals[i] if i < len(vals) else (ZERO if s.isflt(et) else L(0) if et["k"] == "int" else Unk("uninit"))) for i in range(n)}
            return Rec("arr", d)
        if ty["k"] == "rec":
            vals = [s.ev_(a, st) for a in e["a"]]
            if "fields" in ty:
                r = s.defrec(ty, st)
                for fd, v in zip(ty["fields"], vals):
                    r = r.set(fd["n"], s.conv(v, s.P.T(fd["t"]), st))
                return r
            return s.construct(ty, vals, st, e)
        if len(e["a"]) == 1:
            return s.conv(s.ev_(e["a"][0], st), ty, st)
        if not e["a"]:
            return s.x_zero(e, st)
        return Unk("list")

    def x_lambda(s, e, st):
        cap = {}
        for c in e.get("caps", []):
            if "d" not in c:
                continue
            if c.get("init"):
                cap[c["d"]] = s.newloc(st, s.ev_(c["init"], st))
                continue
            l = st.fr.get(c["d"])
            if l is None:
                continue
            cap[c["d"]] = l if c.get("byref") else s.newloc(st, s.read(st, l))
        l = Lam(e.get("op"), cap, e["id"])
        return l

    # ------------------------------------------------------------ constructors
    def x_ctor(s, e, st):
        ty = s.P.T(e["t"])
        f = s.P.fns[e["f"]]
        if ty["k"] != "rec":
            return Unk("ctor")
        nm = ty["name"]
        if nm in ("std::complex",):
            a = [s.asf(s.ev_(x, st), st) for x in e["a"]]
            if not a:
                return ZERO
            if len(a) == 1:
                return a[0]
            if isn(a[1], 0):
                return a[0]
            return F("cplx", a[0], a[1])
        if "domain_error" in nm or "runtime_error" in nm or nm.startswith("std::basic_string") or "string" in nm:
            return Unk("str")
        if nm.endswith("LegacyMatrix") or nm.endswith("LegacyVector") or nm.endswith("LegacyBandedMatrix"):
            vals = [s.ev_(x, st) for x in e["a"]]
            return s.legacy(ty, vals, st)
        if "fields" in ty and f.get("body") is not None or (f.get("inits") and "fields" in ty):
            r = s.defrec(ty, st)
            lo = s.newloc(st, r)
            s.invoke(f, [s.argval(p, x, st) for p, x in zip(f["params"], e["a"])], st, lo)
            return s.read(st, lo)
        vals = [s.ev_(x, st) for x in e["a"]]
        if "fields" in ty and not vals:
            return s.defrec(ty, st)
        return s.construct(ty, vals, st, e)

    def construct(s, ty, vals, st, e=None):
        nm = ty["name"]
        if nm == "std::pair":
            t0 = [s.P.T(a["t"]) for a in ty["args"][:2]]
            if len(vals) == 2:
                return Rec("pair", {"first": s.conv(vals[0], t0[0], st), "second": s.conv(vals[1], t0[1], st)})
            if len(vals) == 1 and isinstance(vals[0], Rec):
                return vals[0]
            if not vals:
                return Rec("pair", {"first": s.x_zero({"t": ty["args"][0]["t"]}, st), "second": s.x_zero({"t": ty["args"][1]["t"]}, st)})
        if nm == "std::tuple":
            return Rec("tuple", {i: v for i, v in enumerate(vals)})
        if nm == "std::vector":
            n = s.asint(vals[0], st) if vals and isinstance(vals[0], (Lin,)) else L(0)
            return s.newvec(st, n, ty)
        if nm == "std::array":
            return Rec("arr", {})
        if nm == "std::function":
            return vals[0] if vals else Unk("function")
        if len(vals) == 1 and "fields" not in ty:
            return vals[0]
        return Unk("construct " + nm)

    def legacy(s, ty, vals, st):
        """construct a library array from sizes and memory"""
        vec = ty["name"].endswith("Vector")
        mem = next((v for v in vals if isinstance(v, View)), None)
        ints = [v for v in vals if isinstance(v, Lin)]
        et = s.etype(ty)
        if vec:
            n = ints[0] if ints else s.havocint(st)
            m, k = n, L(1)
        else:
            m = ints[0] if ints else s.havocint(st)
            k = ints[1] if len(ints) > 1 else s.havocint(st)
        s.nsym += 1
        r = Root("mem%d" % s.nsym, m, k, "alloc" if mem is None or mem.root.role == "alloc" else mem.root.role, et, 1 if vec else 2)
        if mem is not None:
            r.parent = (mem.root, L(0), m)
        s.roots.append(r)
        return View(r, 1 if vec else 2, m, k, (L(0), 1, 0, L(0), 0, 0 if vec else 1), et)

    def etype(s, ty):
        if not ty.get("args"):
            return "f"
        t0 = s.P.T(ty["args"][0]["t"])
        return {"float": "f", "int": "i", "bool": "b"}.get(t0["k"], "c" if t0.get("name") == "std::complex" else "o")

    # ------------------------------------------------------------ calls
    def argval(s, p, x, st):
        """binding of a parameter: an lvalue"""
        line = s.curline
        l = s.argval_(p, x, st)
        s.curline = line          # default arguments are written elsewhere
        return l

    def argval_(s, p, x, st):
        t = s.P.T(p["t"])
        if t["k"] in ("ref", "rref"):
            l = s.lv(x, st)
            if l[0] == "val":
                return s.newloc(st, s.conv(l[1], s.P.base(p["t"]), st))
            return l
        return s.newloc(st, s.conv(s.ev_(x, st), t, st))

    def invoke(s, f, lvs, st, this=None, cap=None):
        """run the body of f; returns its value"""
        if f["n"].endswith("_worksize") and any(q["id"] == f["id"] for q in s.stack):
            return s.hv(s.P.T(f["ret"]), st)
        if f.get("body") is None and not f.get("ctor") and f["n"] == "operator()" and s.P.T(f["ret"])["k"] in ("int", "bool", "float"):
            return s.hv(s.P.T(f["ret"]), st)
        if len(s.stack) > s.maxdepth or sum(1 for q in s.stack if q["id"] == f["id"]) >= 2:
            raise Stop("recursion " + f["n"])
        if f.get("body") is None and not f.get("ctor"):
            raise Stop("no body " + f["n"])
        fr = dict(cap) if cap else {}
        for p, l in zip(f["params"], lvs):
            fr[p["d"]] = l
        keep = (st.fr, st.this, s.curfile, s.curline, s.retref, s.saved)
        extra = [st.this] if st.this else []
        s.saved = s.saved + (list(st.fr.values()) + extra,)
        s.curfile = s.P.file(f)
        s.retref = s.P.T(f["ret"])["k"] == "ref" if f.get("ret") is not None else False
        s.stack.append(f)
        n0 = s.nloc
        try:
            st.fr = fr
            if this is not None:
                st.this = this
            for i in f.get("inits") or []:
                if "f" in i and i["f"] is not None and "base" not in i and "deleg" not in i:
                    v = s.ev_(i["e"], st)
                    s.write(st, ("fld", this, i["f"]), v)
                elif i.get("e") is not None:
                    x = i["e"]
                    if x["k"] == "ctor" and "f" in x:
                        g = s.P.fns[x["f"]]
                        if (g.get("body") is not None or g.get("inits")) and g["n"] != f["n"] or i.get("deleg"):
                            s.invoke(g, [s.argval(p, y, st) for p, y in zip(g["params"], x["a"])], st, this)
            fl = s.ex(f["body"], st) if f.get("body") is not None else Flow(st)
        finally:
            s.stack.pop()
            (fr0, this0, s.curfile, s.curline, s.retref, s.saved) = keep
        st.fr = fr0
        st.this = this0
        alts = list(fl.r)
        if fl.n is not None:
            alts.append((fl.n, None))
        out = None
        for q, v in alts:
            if s.dead(q):
                continue
            q.st[-2 - len(s.stack)] = v
            q.fr = fr0
            q.this = this0
            out = q if out is None else s.join2(out, q)
        if out is None:
            st.ctx = FALSE
            return Unk("noreturn")
        v = out.st.pop(-2 - len(s.stack), None)
        st.ctx = out.ctx
        st.st = out.st
        return v

    def call(s, e, st, want_lv=False):
        r = s.call_(e, st, want_lv)
        if want_lv:
            return r
        if isinstance(r, tuple) and r and r[0] == "LV":
            return s.read(st, r[1])
        return r

    x_call = call

    def call_(s, e, st, want_lv):
        op = e.get("op")
        A = e["a"]
        f = s.P.fns[e["f"]] if "f" in e else None
        nm = f["n"] if f else None
        # ---- operators
        if op == "()" or op == "[]":
            o = s.ev_(A[0], st)
            if isinstance(o, View):
                ix = [s.asint(s.ev_(a, st), st) for a in A[1:]]
                return ("LV", ("el", o, ix[0], ix[1] if len(ix) > 1 else None))
            if isinstance(o, Rec) and o.ty == "arr" and op == "[]":
                return ("LV", ("arr", s.lv(A[0], st), s.asint(s.ev_(A[1], st), st)))
            if isinstance(o, Lam) and f is not None:
                lvs = [s.argval(p, a, st) for p, a in zip(f["params"], A[1:])]
                r = s.hooked(f, lvs, A[1:], st, e)
                if r is not NotImplemented:
                    return r
                return s.invoke(f, lvs, st, None, o.cap)
            if f is not None and f.get("rec") and "CreateFunctor" in f.get("name", "") or f is not None and "Create" in str(f.get("name", "")):
                return s.create(e, f, A[1:], st)
            if f is not None and f.get("body") is not None and s.inrepo(f):
                if nm == "operator()" and s.P.T(e["t"])["k"] == "rec" and s.P.T(e["t"])["name"].startswith("tlapack::Legacy"):
                    return s.create(e, f, A[1:], st)
                lvs = [s.argval(p, a, st) for p, a in zip(f["params"], A[1:])]
                return s.invoke(f, lvs, st, s.lvobj(A[0], st))
            vals = [s.ev_(a, st) for a in A[1:]]
            if isinstance(o, F) and o.k == "fnv":
                return F("call", o.a[0], *[s.asf(v, st) for v in vals])
            return s.hv(s.P.T(e["t"]), st)
        if op:
            return s.opcall(op, e, A, f, st)
        if f is None:
            o = s.ev_(e["callee"], st)
            if isinstance(o, Rec) and o.ty == "fn":
                g = s.P.fns[o.f["f"]]
                return s.docall(g, A, st, e)
            vals = [s.ev_(a, st) for a in A]
            if isinstance(o, F) and o.k == "fnv":
                return F("call", o.a[0], *[s.asf(v, st) for v in vals])
            return s.hv(s.P.T(e["t"]), st)
        return s.docall(f, A, st, e)

    def lvobj(s, a, st):
        l = s.lv(a, st)
        if l[0] == "val":
            return s.newloc(st, l[1])
        return l

    def inrepo(s, f):
        return bool(f.get("root"))

    def docall(s, f, A, st, e):
        nm = f["n"]
        if e.get("m"):
            return s.method(f, nm, A, st, e)
        h = getattr(s, "i_" + nm, None)
        if h is not None:
            r = h(f, A, st, e)
            if r is not NotImplemented:
                return r
        if nm in CONSTFN:
            t = s.P.base(e["t"])
            if t["k"] == "int":
                return s.opaque(st, ("const", L(hash(nm) % 1000003)))
            if nm == "quiet_NaN" or nm == "signaling_NaN":
                return F("nan")
            if nm == "infinity":
                return F("inf")
            return F("v", nm)
        if nm in IDENT and not f.get("root"):
            return s.ev_(A[0], st)
        lvs = [s.argval(p, a, st) for p, a in zip(f["params"], A)]
        r = s.hooked(f, lvs, A, st, e)
        if r is not NotImplemented:
            return r
        if f.get("body") is not None and f.get("root"):
            return s.invoke(f, lvs, st)
        if nm.startswith("operator"):
            return s.hv(s.P.T(e["t"]), st)
        s.unkcalls[nm] = s.unkcalls.get(nm, 0) + 1
        vals = [s.read(st, l) if l[0] != "el" else s.read(st, l) for l in lvs]
        for p, l in zip(f["params"], lvs):
            t = s.P.T(p["t"])
            if t["k"] == "ref" and not s.P.T(t["e"]).get("const") and l[0] != "val":
                s.write(st, l, s.hv(s.P.T(t["e"]), st))
        t = s.P.base(e["t"])
        if s.isflt(t) and all(isinstance(v, (F, Lin)) for v in vals) and vals:
            return F("call", nm, *[s.asf(v, st) for v in vals])
        return s.hv(s.P.T(e["t"]), st)

    def hooked(s, f, lvs, A, st, e):
        if s.callhook is None:
            return NotImplemented
        return s.callhook(f, lvs, st, e)

    def method(s, f, nm, A, st, e):
        o = s.ev_(A[0], st)
        if isinstance(o, View):
            if nm == "size":
                return o.nr if o.rank == 1 else s.imul(st, o.nr, o.nc)
            if nm == "empty":
                return B(rel(o.nr, "==", 0))
            if nm in ("data", "begin", "end"):
                return o
            if nm == "resize":
                n = s.asint(s.ev_(A[1], st), st)
                s.nsym += 1
                r = Root(o.root.name, n, L(1), "alloc", o.et, 1)
                s.roots.append(r)
                s.write(st, s.lv(A[0], st), View(r, 1, n, L(1), (L(0), 1, 0, L(0), 0, 0), o.et))
                return None
            if nm in ("push_back", "emplace_back", "pop_back"):
                for a in A[1:]:
                    s.ev_(a, st)
                n = s.havocint(st)
                st.ctx = st.ctx & rel(n, ">=", 0)
                s.nsym += 1
                r = Root(o.root.name, n, L(1), "alloc", o.et, 1)
                s.roots.append(r)
                s.write(st, s.lv(A[0], st), View(r, 1, n, L(1), (L(0), 1, 0, L(0), 0, 0), o.et))
                return None
        if isinstance(o, F) or (isinstance(o, Unk) and s.isflt(s.P.base(A[0].get("t", e["t"])) if "t" in A[0] else {"k": "x"})):
            if nm == "real" and len(A) == 1:
                return s.fun("re", s.asf(o, st))
            if nm == "imag" and len(A) == 1:
                return s.fun("im", s.asf(o, st))
            if nm in ("real", "imag"):
                v = s.asf(s.ev_(A[1], st), st)
                l = s.lv(A[0], st)
                old = s.asf(o, st)
                s.write(st, l, F("cplx", v, s.fun("im", old)) if nm == "real" else F("cplx", s.fun("re", old), v))
                return None
        if nm.startswith("operator ") or nm.startswith("operator"):
            # conversion
            t = s.P.base(e["t"])
            if isinstance(o, Rec) and o.ty == "tlapack::StrongZero":
                return ZERO if s.isflt(t) else L(0)
            if isinstance(o, (Lin, F)):
                return s.conv(o, t, st)
            if t["k"] == "int" and isinstance(o, Rec) and o.ty.endswith("StrongOne"):
                return L(1)
        if f.get("body") is not None and f.get("root"):
            lvs = [s.argval(p, a, st) for p, a in zip(f["params"], A[1:])]
            return s.invoke(f, lvs, st, s.lvobj(A[0], st))
        for a in A[1:]:
            s.ev_(a, st)
        return s.hv(s.P.T(e["t"]), st)

    def opcall(s, op, e, A, f, st):
        """overloaded operator on scalars or records"""
        if op == "=":
            l = s.lv(A[0], st)
            v = s.ev_(A[1], st)
            t = s.P.base(e["t"])
            if isinstance(v, (Lin, B)) and s.isflt(t):
                v = s.asf(v, st)
            if l[0] == "el" and not isinstance(v, (F, Lin, B)):
                v = s.asf(v, st)
            s.write(st, l, v)
            return ("LV", l)
        t = s.P.base(e["t"])
        if op in ("+=", "-=", "*=", "/="):
            l = s.lv(A[0], st)
            if f is not None and f.get("root") and f.get("body") is not None and not e.get("m") and len(f["params"]) == 2:
                r = s.argval(f["params"][1], A[1], st)
                s.invoke(f, [l, r], st)
                return ("LV", l)
            if l[0] == "el" and l[1].et in ("f", "c"):
                b = s.asf(s.ev_(A[1], st), st)
                a = s.asf(s.rd_el(st, l[1], l[2], l[3]), st)
                s.wr_el(st, l[1], l[2], l[3], s.fbin(op[0], a, b), (op, b))
                return ("LV", l)
            a = s.read(st, l)
            if isinstance(a, Rec) and f is not None and f.get("body") is not None:
                lvs = [s.argval(p, x, st) for p, x in zip(f["params"], A[1:])]
                s.invoke(f, lvs, st, l)
                return ("LV", l)
            b = s.ev_(A[1], st)
            if s.isflt(t):
                s.write(st, l, s.fbin(op[0], s.asf(a, st), s.asf(b, st)))
                return ("LV", l)
            s.write(st, l, s.hv(t, st))
            return ("LV", l)
        if op == "<<":
            for a in A:
                s.ev_(a, st)
            return Unk("stream")
        if len(A) == 1:
            v = s.ev_(A[0], st)
            if op == "-":
                return fneg(s.asf(v, st))
            if op == "+":
                return v
            if op == "*":
                return v
            return s.hv(t, st)
        if f is not None and f.get("root") and f.get("body") is not None:
            # StrongZero operators and the like
            n0 = len(s.ev)
            lvs = [s.argval(p, x, st) for p, x in zip(f["params"], A[1:] if e.get("m") else A)]
            if op in "*/" and any(str(s.P.base(p["t"]).get("name")).endswith("StrongZero") for p in f["params"]):
                # the other operand does not influence the result
                for l in lvs:
                    if l[0] == "el":
                        s.read(st, l)
                for q in s.ev[n0:]:
                    if q.k == "R":
                        q.x = "dead"
            return s.invoke(f, lvs, st, s.lvobj(A[0], st) if e.get("m") else None)
        a = s.ev_(A[0], st)
        b = s.ev_(A[1], st)
        if op in CMP:
            return s.compare(op, a, b, st)
        if op in "+-*/" and s.isflt(t):
            if isinstance(a, Rec) and op == "*" and a.ty.endswith("StrongZero"):
                return ZERO
            return s.fbin(op, s.asf(a, st), s.asf(b, st))
        if op == "+" and t["k"] == "rec" and "string" in t.get("name", ""):
            return Unk("str")
        return s.hv(t, st)

    # ------------------------------------------------------------ intrinsics: scalars
    def fun(s, k, x):
        if k == "conj":
            return fconj(x)
        if k == "re":
            return fre(x)
        if k == "im":
            return fim(x)
        return F(k, x)

    def cplx(s, f, A, st):
        """is the first argument complex"""
        if f["params"]:
            t = s.P.base(f["params"][0]["t"])
            return t["k"] == "rec" and t["name"] == "std::complex"
        return False

    def i_conj(s, f, A, st, e):
        v = s.asf(s.ev_(A[0], st), st)
        return fconj(v) if s.cplx(f, A, st) else v

    def i_real(s, f, A, st, e):
        v = s.ev_(A[0], st)
        if isinstance(v, Lin):
            return v
        v = s.asf(v, st)
        return fre(v) if s.cplx(f, A, st) else v

    def i_imag(s, f, A, st, e):
        v = s.asf(s.ev_(A[0], st), st)
        return fim(v) if s.cplx(f, A, st) else ZERO

    def i_abs(s, f, A, st, e):
        v = s.ev_(A[0], st)
        if isinstance(v, Lin):
            return s.imin(st, v, -v, "max")
        return F("abs", s.asf(v, st))

    def i_abs1(s, f, A, st, e):
        v = s.asf(s.ev_(A[0], st), st)
        return F("abs1", v) if s.cplx(f, A, st) else F("abs", v)

    def i_sqrt(s, f, A, st, e):
        return F("sqrt", s.asf(s.ev_(A[0], st), st))

    def i_square(s, f, A, st, e):
        v = s.ev_(A[0], st)
        if isinstance(v, Lin):
            return NotImplemented
        v = s.asf(v, st)
        return s.fbin("*", v, v)

    def i_isnan(s, f, A, st, e):
        return s.fpred(("isnan", s.asf(s.ev_(A[0], st), st)), st)

    def i_isinf(s, f, A, st, e):
        return s.fpred(("isinf", s.asf(s.ev_(A[0], st), st)), st)

    def minmax(s, f, A, st, e, op):
        if len(A) != 2 or f.get("m"):
            if len(A) == 0:
                return F("v", "num" + op) if s.isflt(s.P.base(e["t"])) else s.opaque(st, ("num" + op, L(0)))
            return s.hv(s.P.T(e["t"]), st)
        a = s.ev_(A[0], st)
        b = s.ev_(A[1], st)
        if isinstance(a, F) or isinstance(b, F):
            return F(op, s.asf(a, st), s.asf(b, st))
        t = s.P.base(e["t"])
        if t["k"] == "int":
            return s.imin(st, s.asint(a, st, t), s.asint(b, st, t), op)
        return s.hv(t, st)

    def i_min(s, f, A, st, e):
        return s.minmax(f, A, st, e, "min")

    def i_max(s, f, A, st, e):
        return s.minmax(f, A, st, e, "max")

    def i_make_pair(s, f, A, st, e):
        return Rec("pair", {"first": s.ev_(A[0], st), "second": s.ev_(A[1], st)})

    i_pair = i_make_pair

    def i_make_tuple(s, f, A, st, e):
        return Rec("tuple", {i: s.ev_(a, st) for i, a in enumerate(A)})

    def i_error_msg(s, f, A, st, e):
        return Unk("str")

    def i_swap(s, f, A, st, e):
        if len(A) != 2:
            return NotImplemented
        la = s.lv(A[0], st)
        lb = s.lv(A[1], st)
        if la[0] not in ("loc", "el", "fld", "arr") or lb[0] not in ("loc", "el", "fld", "arr"):
            return NotImplemented
        a = s.read(st, la)
        b = s.read(st, lb)
        if isinstance(a, View) and f.get("root"):
            return NotImplemented
        s.write(st, la, b)
        s.write(st, lb, a)
        return None

    # ------------------------------------------------------------ intrinsics: arrays
    def isview(s, A, st):
        return s.ev_(A[0], st)

    def i_nrows(s, f, A, st, e):
        v = s.ev_(A[0], st)
        return v.nr if isinstance(v, View) else s.hv(s.P.T(e["t"]), st)

    def i_ncols(s, f, A, st, e):
        v = s.ev_(A[0], st)
        return v.nc if isinstance(v, View) else s.hv(s.P.T(e["t"]), st)

    def i_size(s, f, A, st, e):
        v = s.ev_(A[0], st)
        if not isinstance(v, View):
            return s.hv(s.P.T(e["t"]), st)
        return v.nr if v.rank == 1 else s.imul(st, v.nr, v.nc)

    def pairof(s, v, st):
        if isinstance(v, Rec) and "first" in v.f:
            return s.asint(v.f["first"], st), s.asint(v.f["second"], st)
        return None

    def sl(s, st, v, what, oks):
        if s.onslice is not False:
            s.mkev("S", st, root=v.root, view=v, x=(what, oks))

    def rng(s, a, b, n):
        return [rel(a, ">=", 0), rel(a, "<=", b), rel(b, "<=", n)]

    def i_slice(s, f, A, st, e):
        v = s.ev_(A[0], st)
        ix = [s.ev_(a, st) for a in A[1:]]
        if not isinstance(v, View):
            return Unk("slice")
        ps = [s.pairof(x, st) for x in ix]
        xs = [None if p else s.asint(x, st) for p, x in zip(ps, ix)]
        if len(ix) == 1:
            if not ps[0]:
                return Unk("slice")
            a, b = ps[0]
            s.sl(st, v, "slice", [("rows", s.rng(a, b, v.nr))])
            return v.slice(a, b - a)
        if ps[0] and ps[1]:
            a, b = ps[0]
            c, d = ps[1]
            s.sl(st, v, "slice", [("rows", s.rng(a, b, v.nr)), ("columns", s.rng(c, d, v.nc))])
            return v.slice(a, b - a, c, d - c)
        if ps[0]:
            a, b = ps[0]
            s.sl(st, v, "slice", [("rows", s.rng(a, b, v.nr)), ("column", s.rng(xs[1], xs[1], v.nc) + [rel(xs[1], "<", v.nc)])])
            return v.col(xs[1], a, b - a)
        if ps[1]:
            a, b = ps[1]
            s.sl(st, v, "slice", [("columns", s.rng(a, b, v.nc)), ("row", s.rng(xs[0], xs[0], v.nr) + [rel(xs[0], "<", v.nr)])])
            return v.row(xs[0], a, b - a)
        return Unk("slice")

    def i_rows(s, f, A, st, e):
        v = s.ev_(A[0], st)
        p = s.pairof(s.ev_(A[1], st), st)
        if not isinstance(v, View) or not p:
            return Unk("rows")
        s.sl(st, v, "rows", [("rows", s.rng(p[0], p[1], v.nr))])
        return v.slice(p[0], p[1] - p[0], L(0), v.nc)

    def i_cols(s, f, A, st, e):
        v = s.ev_(A[0], st)
        p = s.pairof(s.ev_(A[1], st), st)
        if not isinstance(v, View) or not p:
            return Unk("cols")
        s.sl(st, v, "cols", [("columns", s.rng(p[0], p[1], v.nc))])
        return v.slice(L(0), v.nr, p[0], p[1] - p[0])

    def i_row(s, f, A, st, e):
        v = s.ev_(A[0], st)
        i = s.asint(s.ev_(A[1], st), st)
        if not isinstance(v, View):
            return Unk("row")
        s.sl(st, v, "row", [("row", s.rng(i, i, v.nr) + [rel(i, "<", v.nr)])])
        return v.row(i, L(0), v.nc)

    def i_col(s, f, A, st, e):
        v = s.ev_(A[0], st)
        j = s.asint(s.ev_(A[1], st), st)
        if not isinstance(v, View):
            return Unk("col")
        s.sl(st, v, "col", [("column", s.rng(j, j, v.nc) + [rel(j, "<", v.nc)])])
        return v.col(j, L(0), v.nr)

    def i_diag(s, f, A, st, e):
        v = s.ev_(A[0], st)
        d = s.asint(s.ev_(A[1], st), st) if len(A) > 1 else L(0)
        if not isinstance(v, View):
            return Unk("diag")
        s.sl(st, v, "diag", [("diagonal", [rel(d, ">=", 0) | rel(-d, "<", v.nr), rel(d, "<=", 0) | rel(d, "<", v.nc)])])
        pos = s.imin(st, d, L(0), "max")
        neg = s.imin(st, -d, L(0), "max")
        n = s.imin(st, v.nr - neg, v.nc - pos)
        r, c = v.at(neg, pos)
        m = v.m
        return View(v.root, 1, n, L(1), (r, m[1] + m[2], 0, c, m[4] + m[5], 0), v.et)

    def i_transpose_view(s, f, A, st, e):
        v = s.ev_(A[0], st)
        return v.transpose() if isinstance(v, View) else Unk("transpose_view")

    def i_reshape(s, f, A, st, e):
        v = s.ev_(A[0], st)
        n = [s.asint(s.ev_(a, st), st) for a in A[1:]]
        if not isinstance(v, View):
            return Rec("pair", {"first": Unk("reshape"), "second": Unk("reshape")})
        size = v.nr if v.rank == 1 else s.capacity(v, st)
        need = n[0] if len(n) == 1 else s.imul(st, n[0], n[1])
        s.mkev("RS", st, root=v.root, view=v, x=(tuple(n), need, size))
        st.ctx = st.ctx & rel(need, "<=", size)
        st.ctx = st.ctx & rel(need, ">=", 0) if not need.const else st.ctx
        s.nsym += 1
        base = v.root
        a = Root("%s.part%d" % (base.name, s.nsym), n[0], n[1] if len(n) > 1 else L(1), base.role, v.et, len(n))
        a.parent = (base, L(0), need)
        rest = Root("%s.rest%d" % (base.name, s.nsym), size - need, L(1), base.role, v.et, 1)
        rest.parent = (base, need, size - need)
        s.roots += [a, rest]
        av = View(a, len(n), a.nr, a.nc, (L(0), 1, 0, L(0), 0, 1 if len(n) > 1 else 0), v.et)
        # keep the rank of the rest as the library does
        if v.rank == 1:
            rv = View(rest, 1, rest.nr, L(1), (L(0), 1, 0, L(0), 0, 0), v.et)
        else:
            rv = View(rest, 2, rest.nr, L(1), (L(0), 1, 0, L(0), 0, 1), v.et)
        return Rec("pair", {"first": av, "second": rv})

    def capacity(s, v, st):
        return s.imul(st, v.nr, v.nc)

    def create(s, e, f, A, st):
        """Create<matrix_t>()(storage, m[, n]) : new array with undefined contents"""
        ns = []
        storage = None
        for a in A:
            v = s.ev_(a, st)
            if isinstance(v, Lin):
                ns.append(v)
            else:
                storage = a
        t = s.P.base(e["t"])
        if not ns:
            # static sizes
            o = s.P.T(f["rec"]) if isinstance(f.get("rec"), int) else None
            ta = f.get("targs") or []
            ns = []
            if o and o.get("args"):
                ns = [L(int(q["v"])) for q in o["args"] if "v" in q]
            if not ns:
                return Unk("create")
        vec = t.get("name", "").endswith("Vector") or len(ns) == 1
        s.nsym += 1
        nm = "new%d@%s:%d" % (s.nsym, s.curfile.split("/")[-1], s.curline)
        if storage is not None and storage["k"] == "ref":
            nm = storage["n"] + nm[3:]
        r = Root(nm, ns[0], ns[1] if len(ns) > 1 else L(1), "alloc", s.etype(t), 1 if vec else 2)
        s.roots.append(r)
        return View(r, r.rank, r.nr, r.nc, (L(0), 1, 0, L(0), 0, 0 if vec else 1), r.et)


def fconj(x):
    if x.k == "conj":
        return x.a[0]
    if isn(x) or x.k in ("re", "im", "abs", "abs1", "i", "sqrt_r"):
        return x
    if x.k in "+-*/" and len(x.a) == 2:
        return F(x.k, fconj(x.a[0]), fconj(x.a[1]))
    if x.k == "neg":
        return F("neg", fconj(x.a[0]))
    if x.k == "cplx":
        return F("cplx", x.a[0], fneg(x.a[1]))
    if x.k == "v" and len(x.a) > 1 and x.a[1] == "real":
        return x
    if x.k == "v" and len(x.a) == 1 and x.a[0] in CONSTFN:
        return x
    return F("conj", x)


def fre(x):
    if isn(x) or x.k in ("re", "im", "abs", "abs1", "i"):
        return x
    if x.k == "cplx":
        return x.a[0]
    if x.k == "v" and len(x.a) > 1 and x.a[1] == "real":
        return x
    if x.k == "conj":
        return fre(x.a[0])
    return F("re", x)


def fim(x):
    if isn(x) or x.k in ("re", "im", "abs", "abs1", "i"):
        return ZERO
    if x.k == "cplx":
        return x.a[1]
    if x.k == "v" and len(x.a) > 1 and x.a[1] == "real":
        return ZERO
    if x.k == "conj":
        return fneg(fim(x.a[0]))
    return F("im", x)
