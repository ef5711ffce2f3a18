"""Symbolic evaluation of the small integer/pointer functions of the array
layer (views, constructors, accessors, wrappers): every value is a polynomial
over the parameters, every undetermined branch forks the path.  Used by the
checks of the array descriptors and of the legacy / C interfaces."""
import itertools


class Undec(Exception):
    """construct outside the evaluator's language: nothing is claimed"""


class Throw(Exception):
    def __init__(s, kind, line):
        s.kind, s.line = kind, line


class Ret(Exception):
    def __init__(s, v):
        s.v = v


# ------------------------------------------------------------------ polynomials
class Poly:
    __slots__ = ("t",)

    def __init__(s, t=None):
        s.t = {k: v for k, v in (t or {}).items() if v}

    @staticmethod
    def c(n):
        return Poly({(): int(n)})

    @staticmethod
    def s(name):
        return Poly({(name,): 1})

    def __add__(a, b):
        r = dict(a.t)
        for k, v in b.t.items():
            r[k] = r.get(k, 0) + v
        return Poly(r)

    def __neg__(a):
        return Poly({k: -v for k, v in a.t.items()})

    def __sub__(a, b):
        return a + (-b)

    def __mul__(a, b):
        r = {}
        for k, v in a.t.items():
            for k2, v2 in b.t.items():
                kk = tuple(sorted(k + k2))
                r[kk] = r.get(kk, 0) + v * v2
        return Poly(r)

    def const(s):
        if not s.t:
            return 0
        if len(s.t) == 1 and () in s.t:
            return s.t[()]
        return None

    def syms(s):
        return {x for k in s.t for x in k}

    def subst(s, m):
        if not any(x in m for x in s.syms()):
            return s
        r = Poly()
        for k, v in s.t.items():
            p = Poly.c(v)
            for x in k:
                p = p * m.get(x, Poly.s(x))
            r = r + p
        return r

    def at(s, env):
        n = 0
        for k, v in s.t.items():
            for x in k:
                v *= env[x]
            n += v
        return n

    def key(s):
        return tuple(sorted(s.t.items()))

    def __eq__(a, b):
        return isinstance(b, Poly) and a.t == b.t

    def __hash__(s):
        return hash(s.key())

    def __repr__(s):
        if not s.t:
            return "0"
        o = []
        for k, v in sorted(s.t.items(), key=lambda z: (len(z[0]), z[0])):
            m = "*".join(k)
            o.append(("%d" % v if not m else m if v == 1 else "-" + m if v == -1 else "%d*%s" % (v, m)))
        return " + ".join(o).replace("+ -", "- ")


ZERO, ONE = Poly(), Poly.c(1)


class Ptr:
    def __init__(s, base, off=ZERO):
        s.base, s.off = base, off

    def __repr__(s):
        return "%s+(%s)" % (s.base, s.off)


class Elem:
    """lvalue: element of an array"""

    def __init__(s, base, off):
        s.base, s.off = base, off

    def __repr__(s):
        return "%s[%s]" % (s.base, s.off)


class Cell:
    def __init__(s, v=None):
        s.v = v


class Obj:
    def __init__(s, rec, f=None):
        s.rec, s.f = rec, f or {}

    def copy(s):
        return Obj(s.rec, {k: Cell(cp(c.v)) for k, c in s.f.items()})

    def __getitem__(s, k):
        return s.f[k].v

    def __repr__(s):
        return "{%s}" % ", ".join("%s=%r" % (k, c.v) for k, c in s.f.items())


class Lam:
    def __init__(s, op, env, this):
        s.op, s.env, s.this = op, env, this


class Sc:
    """scalar (floating point) value: product of factors; factors are
    ('s', name, conj) scalar parameters, ('e', base, off, conj) array elements,
    ('o', name, args) opaque"""

    def __init__(s, c=1, f=()):
        s.c, s.f = c, tuple(sorted(f, key=repr))
        if c == 0:
            s.f = ()

    def key(s):
        return (s.c, tuple(repr(x) for x in s.f))

    def __eq__(a, b):
        return isinstance(b, Sc) and a.key() == b.key()

    def __hash__(s):
        return hash(s.key())

    def __mul__(a, b):
        return Sc(a.c * b.c, a.f + b.f)

    def conj(s):
        return Sc(s.c, [x[:-1] + (not x[-1],) if x[0] in "se" else ("o", "conj", (Sc(1, [x]),)) for x in s.f])

    def __repr__(s):
        o = []
        for x in s.f:
            if x[0] == "s":
                o.append(("conj(%s)" if x[2] else "%s") % x[1])
            elif x[0] == "e":
                o.append(("conj(%s[%s])" if x[3] else "%s[%s]") % (x[1], x[2]))
            else:
                o.append("%s(%s)" % (x[1], ", ".join(repr(a) for a in x[2])))
        if s.c != 1 or not o:
            o.insert(0, repr(s.c))
        return "*".join(o)


def cp(v):
    return v.copy() if isinstance(v, Obj) else v


class Facts:
    def __init__(s, nonneg=()):
        s.l = []           # (Poly, op) op: '<' (p<0), '>=' (p>=0), '=' , '!='
        s.sub = {}
        s.nonneg = set(nonneg)
        s.sc = {}          # scalar atoms

    def norm(s, p):
        for _ in range(20):
            q = p.subst(s.sub)
            if q == p:
                return q
            p = q
        return p

    def _nn(s, p):
        """p >= 0 by signs"""
        return all(v > 0 and all(x in s.nonneg or k.count(x) % 2 == 0 for x in set(k)) for k, v in p.t.items())

    def known(s, p, op):
        r = s.known1(p, op)
        if r is None and op == "<":
            # p < 0  iff  not (-p - 1 < 0)
            r = s.known1(-p - ONE, "<")
            if r is not None:
                r = not r
        if r is None and op == "<":
            # p <= 0 and p != 0; likewise -p <= 0 gives p >= 0
            if s.known1(p - ONE, "<") and s.known1(p, "=") is False:
                return True
        return r

    def known1(s, p, op):
        p = s.norm(p)
        c = p.const()
        if op == "<":
            if c is not None:
                return c < 0
            if s._nn(p):
                return False
            if s._nn(-p - ONE):
                return True
            for q, o in s.l:
                q = s.norm(q)
                if o == "<" and s._nn(q - p):
                    return True
                if o == ">=" and s._nn(p - q):
                    return False
                if o == "=":
                    for d in (q, -q):
                        if s._nn(p + d):
                            return False
                        if s._nn(-p + d - ONE):
                            return True
            return None
        if c is not None:
            return c == 0
        if s._nn(p - ONE) or s._nn(-p - ONE):
            return False
        for q, o in s.l:
            q = s.norm(q)
            if o == "=" and (p == q or p == -q):
                return True
            if o == "!=" and (p == q or p == -q):
                return False
            if o == "<" and (s._nn(q - p) or s._nn(q + p)):
                return False
            if o == ">=" and (s._nn(p - q - ONE) or s._nn(-p - q - ONE)):
                return False
        return None

    def add(s, p, op, val):
        p = s.norm(p)
        if op == "<":
            s.l.append((p, "<" if val else ">="))
            # x >= 0 and x <= 0 : equality
            if not val:
                for q, o in list(s.l):
                    if o == ">=" and s.norm(q) == -p:
                        s.add(p, "=", True)
                        break
        else:
            s.l.append((p, "=" if val else "!="))
            if val:
                for k, v in p.t.items():
                    if len(k) == 1 and abs(v) == 1 and not any(k[0] in kk for kk in p.t if kk != k):
                        # k[0] = -(rest)/v
                        rest = Poly({a: b for a, b in p.t.items() if a != k})
                        s.sub[k[0]] = (-rest) if v == 1 else rest
                        break

    def holds(s, env):
        for p, o in s.l:
            v = p.at(env)
            if not (v < 0 if o == "<" else v >= 0 if o == ">=" else v == 0 if o == "=" else v != 0):
                return False
        return True

    def syms(s):
        r = set()
        for p, o in s.l:
            r |= p.syms()
        return r


class Path:
    def __init__(s, facts):
        s.facts = facts
        s.ev = []
        s.out = None        # ('ret', v) | ('throw', kind, line) | ('undec', why)
        s.notes = []


class SymEval:
    """inline(f): whether a function with a body is expanded; other calls become
    events, result opaque"""

    def __init__(s, P, inline, opaque_ret=None, budget=4000):
        s.P = P
        s.inline = inline
        s.budget = budget
        s.opaque_ret = opaque_ret
        s.fresh = itertools.count()

    # -------------------------------------------------------------- driver
    def paths(s, f, args, nonneg=(), this=None, facts=()):
        """all paths of f on the given argument values (cells are made fresh by
        the callable args())"""
        todo = [[]]
        out = []
        while todo:
            dec = todo.pop()
            s.dec, s.pos = list(dec), 0
            s.path = Path(Facts(nonneg))
            for p, op in facts:
                s.path.facts.add(*{"<": (p, "<", True), ">=": (p, "<", False), "=": (p, "=", True), "!=": (p, "=", False)}[op])
            s.loop = []
            s.depth = 0
            try:
                a = args() if callable(args) else args
                th = this() if callable(this) else this
                v = s.call(f, a, th)
                s.path.out = ("ret", v)
            except Throw as e:
                s.path.out = ("throw", e.kind, e.line)
            except Undec as e:
                s.path.out = ("undec", str(e))
            out.append(s.path)
            for i in range(len(dec), len(s.dec)):
                if s.dec[i]:
                    todo.append(s.dec[:i] + [False])
            if len(out) > s.budget:
                raise Undec("too many paths")
        return out

    def decide(s, p, op):
        k = s.path.facts.known(p, op)
        if k is not None:
            return k
        if s.loop and any(x in s.path.facts.norm(p).syms() for x, lo, hi in s.loop):
            raise Undec("branch on a loop index")
        if s.pos < len(s.dec):
            v = s.dec[s.pos]
        else:
            v = True
            s.dec.append(v)
        s.pos += 1
        s.path.facts.add(p, op, v)
        return v

    def decide_sc(s, key):
        d = s.path.facts.sc
        if key in d:
            return d[key]
        if s.pos < len(s.dec):
            v = s.dec[s.pos]
        else:
            v = True
            s.dec.append(v)
        s.pos += 1
        d[key] = v
        return v

    def cmp(s, op, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.base == b.base:
                a, b = a.off, b.off
            else:
                raise Undec("comparison of pointers")
        if isinstance(a, Sc) or isinstance(b, Sc):
            a, b = s.tosc(a), s.tosc(b)
            if not a.f and not b.f:
                return eval("x %s y" % op, {"x": a.c, "y": b.c})
            if op == "!=":
                return not s.cmp("==", a, b)
            return s.decide_sc((op, strip(a), strip(b)) if op == "==" else (op, a, b))
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            raise Undec("comparison of %r and %r" % (type(a), type(b)))
        if op == "<":
            return s.decide(a - b, "<")
        if op == "<=":
            return s.decide(a - b - ONE, "<")
        if op == ">":
            return s.decide(b - a, "<")
        if op == ">=":
            return s.decide(b - a - ONE, "<")
        if op == "==":
            return s.decide(a - b, "=")
        if op == "!=":
            return not s.decide(a - b, "=")
        raise Undec("comparison " + op)

    def tosc(s, v):
        if isinstance(v, Sc):
            return v
        if isinstance(v, Poly):
            c = v.const()
            if c is not None:
                return Sc(c)
            return Sc(1, [("o", "int", (v,))])
        if isinstance(v, Elem):
            return Sc(1, [("e", v.base, s.path.facts.norm(v.off), False)])
        raise Undec("scalar from %r" % (v,))

    # -------------------------------------------------------------- calls
    def call(s, f, args, this=None):
        """args: list of values or Cell/Elem lvalues for reference parameters"""
        if s.depth > 40:
            raise Undec("recursion")
        s.depth += 1
        env = {}
        for p, a in zip(f["params"], args):
            if s.isref(p["t"]):
                env[p["d"]] = a if isinstance(a, (Cell, Elem)) else Cell(a)
            else:
                env[p["d"]] = Cell(cp(s.rv(a)))
        osave, s.env, s.this = (getattr(s, "env", None), getattr(s, "this", None)), env, this
        s.fstack = getattr(s, "fstack", [])
        s.fstack.append(f)
        try:
            for i in f.get("inits", []):
                if i.get("f"):
                    t = this.f.setdefault(i["f"], Cell())
                    t.v = cp(s.ev(i["e"]))
                elif i.get("deleg"):
                    v = s.ev(i["e"])
                    if isinstance(v, Obj):
                        this.f.update(v.f)
            if f.get("body"):
                s.st(f["body"])
            return None
        except Ret as r:
            return r.v
        finally:
            s.env, s.this = osave
            s.fstack.pop()
            s.depth -= 1

    def isref(s, t):
        return s.P.types[t]["k"] in ("ref", "rref")

    def rv(s, v):
        if isinstance(v, Cell):
            return v.v
        if isinstance(v, Elem):
            return s.tosc(v)
        return v

    # -------------------------------------------------------------- statements
    def st(s, x):
        if x is None:
            return
        k = x["k"]
        s.line = x.get("l", getattr(s, "line", 0))
        if k == "block":
            for b in x["b"]:
                s.st(b)
        elif k == "decl":
            for v in x["v"]:
                if v.get("k") == "decomp":
                    o = s.ev(v["init"])
                    if not isinstance(o, Obj):
                        raise Undec("structured binding")
                    for b, c in zip(v["b"], list(o.f.values())):
                        s.env[b["d"]] = Cell(cp(c.v))
                        if "hd" in b:
                            s.env[b["hd"]] = s.env[b["d"]]
                    continue
                if v.get("init") is None:
                    s.env[v["d"]] = Cell(s.default(v["t"]))
                elif s.isref(v["t"]):
                    s.env[v["d"]] = s.lvx(v["init"])
                else:
                    s.env[v["d"]] = Cell(cp(s.ev(v["init"])))
        elif k == "expr":
            s.ev(x["e"])
        elif k == "ret":
            e = x.get("e")
            if e is None:
                raise Ret(None)
            f = s.fstack[-1]
            raise Ret(s.lvx(e) if s.isref(f["ret"]) else s.ev(e))
        elif k == "if":
            if x.get("init"):
                s.st(x["init"])
            if s.tr(x["c"]):
                s.st(x["t"])
            elif x.get("f"):
                s.st(x["f"])
        elif k == "for":
            s.for_(x)
        elif k == "switch":
            s.switch(x)
        elif k in ("break", "continue"):
            raise Undec(k)
        elif k == "throw":
            raise Throw(s.P.types[x["t"]]["s"] if "t" in x else "?", x.get("l"))
        else:
            raise Undec("statement " + k)

    def switch(s, x):
        v = s.ev(x["c"])
        items = x["b"]["b"] if x["b"] and x["b"]["k"] == "block" else [x["b"]]
        flat = []

        def add(it):
            if it["k"] in ("case", "default"):
                flat.append(it)
                if it.get("b"):
                    add(it["b"])
            else:
                flat.append(it)
        for it in items:
            add(it)
        start = None
        for i, it in enumerate(flat):
            if it["k"] == "case" and s.cmp("==", v, s.ev(it["e"])):
                start = i
                break
        if start is None:
            for i, it in enumerate(flat):
                if it["k"] == "default":
                    start = i
        if start is None:
            return
        for it in flat[start:]:
            if it["k"] in ("case", "default"):
                continue
            if it["k"] == "break":
                return
            if it["k"] == "block" and it["b"] and it["b"][-1]["k"] == "break":
                for b in it["b"][:-1]:
                    s.st(b)
                return
            s.st(it)

    def for_(s, x):
        init = x.get("init")
        saved = dict(s.env)
        s.st(init) if init else None
        c, inc = x.get("c"), x.get("inc")
        # induction variable: the one the increment advances
        e = inc
        if not e or e["k"] != "un" or e["op"] not in ("++", "--") or e["e"]["k"] != "ref":
            raise Undec("loop")
        d = e["e"]["d"]
        lo = s.env[d].v
        up = e["op"] == "++"
        if not (c and c["k"] == "bin" and c["op"] in ("<", "<=", "!=", ">", ">=")):
            raise Undec("loop condition")
        a, b, op = c["a"], c["b"], c["op"]

        def isv(z):
            while z["k"] == "cast":
                z = z["e"]
            return z["k"] == "ref" and z["d"] == d
        if isv(b):
            a, b = b, a
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}[op]
        if not isv(a):
            raise Undec("loop condition")
        hi = s.ev(b)
        if not isinstance(lo, Poly) or not isinstance(hi, Poly):
            raise Undec("loop bounds")
        if up:
            if op == "<=":
                hi = hi + ONE
            elif op not in ("<", "!="):
                raise Undec("loop condition")
        else:
            # from lo down to the bound
            if op == ">":
                lo, hi = hi + ONE, lo + ONE
            elif op == ">=":
                lo, hi = hi, lo + ONE
            else:
                raise Undec("loop condition")
        lc, hc = s.path.facts.norm(lo).const(), s.path.facts.norm(hi).const()
        if lc is not None and hc is not None and hc - lc <= 8:
            for v in (range(lc, hc) if up else range(hc - 1, lc - 1, -1)):
                s.env[d] = Cell(Poly.c(v))
                s.st(x["b"])
        else:
            n = "#%d" % next(s.fresh)
            snap = {k_: (c_, c_.v if isinstance(c_, Cell) else None) for k_, c_ in s.env.items()}
            s.env[d] = Cell(Poly.s(n))
            s.loop.append((n, lo, hi))
            s.path.facts.nonneg.add(n)
            s.st(x["b"])
            s.loop.pop()
            for k_, (c_, v_) in snap.items():
                if k_ != d and isinstance(c_, Cell) and c_.v is not v_ and not (isinstance(v_, Poly) and c_.v == v_):
                    raise Undec("loop-carried value")
        for k_ in list(s.env):
            if k_ not in saved:
                del s.env[k_]

    # -------------------------------------------------------------- expressions
    def tr(s, x):
        v = s.ev(x)
        if isinstance(v, bool):
            return v
        if isinstance(v, Poly):
            c = s.path.facts.norm(v).const()
            if c is not None:
                return c != 0
            return not s.decide(v, "=")
        if isinstance(v, Ptr):
            return True
        if isinstance(v, Sc):
            return not s.cmp("==", v, Sc(0))
        raise Undec("condition %r" % (v,))

    def default(s, t):
        b = s.P.base(t)
        if b["k"] == "rec":
            return Obj(t)
        return None

    def ty(s, t):
        return s.P.base(t)

    def ev(s, x):
        v = s.ev_(x)
        return s.rv(v)

    def lvx(s, x):
        """lvalue if there is one, else a fresh cell"""
        v = s.ev_(x)
        if isinstance(v, (Cell, Elem)):
            return v
        return Cell(v)

    def ev_(s, x):
        k = x["k"]
        m = getattr(s, "x_" + k, None)
        if m is None:
            raise Undec("expression " + k)
        return m(x)

    def x_c(s, x):
        v = x["v"]
        if v in (True, False, "true", "false"):
            return Poly.c(1 if v in (True, "true") else 0)
        return Poly.c(int(v))

    def x_f(s, x):
        v = float(x["v"])
        return Sc(int(v) if v == int(v) else v)

    def x_zero(s, x):
        b = s.ty(x["t"])
        return Poly() if b["k"] in ("int", "bool", "enum") else Sc(0) if b["k"] == "float" or "complex" in b["s"] else Obj(x["t"])

    def x_s(s, x):
        return ("str", x.get("v"))

    def x_ref(s, x):
        if x["d"] in s.env:
            return s.env[x["d"]]
        if x.get("g"):
            g = s.P.d.get("globals", {}).get(str(x["d"]))
            if g:
                return Cell(s.ev(g["init"]))
        raise Undec("variable " + x["n"])

    def x_fn(s, x):
        return ("fn", x["f"])

    def x_this(s, x):
        return s.this

    def x_lambda(s, x):
        env = {}
        for c in x.get("caps", []):
            if "d" in c:
                if c.get("init") is not None:
                    env[c["d"]] = Cell(cp(s.ev(c["init"])))
                elif c.get("byref"):
                    env[c["d"]] = s.env.get(c["d"])
                else:
                    v = s.env.get(c["d"])
                    env[c["d"]] = Cell(cp(s.rv(v)))
        return Lam(x.get("op"), env, s.this)

    def x_mem(s, x):
        o = s.ev_(x["b"])
        if isinstance(o, Cell):
            o = o.v
        if isinstance(o, Obj):
            if x["f"] in o.f:
                return o.f[x["f"]]
            raise Undec("field " + x["f"])
        raise Undec("member of %r" % (o,))

    def x_idx(s, x):
        b, i = s.ev(x["b"]), s.ev(x["i"])
        if isinstance(b, Ptr) and isinstance(i, Poly):
            return Elem(b.base, b.off + i)
        raise Undec("subscript")

    def x_un(s, x):
        op = x["op"]
        if op in ("++", "--"):
            c = s.ev_(x["e"])
            if not isinstance(c, Cell):
                raise Undec("increment")
            old = c.v
            d = ONE if op == "++" else -ONE
            if isinstance(old, Poly):
                c.v = old + d
            elif isinstance(old, Ptr):
                c.v = Ptr(old.base, old.off + d)
            else:
                raise Undec("increment")
            return old if x.get("post") else c
        if op == "&":
            v = s.ev_(x["e"])
            if isinstance(v, Elem):
                return Ptr(v.base, v.off)
            return ("addr", v)
        if op == "*":
            v = s.ev(x["e"])
            if isinstance(v, Ptr):
                return Elem(v.base, v.off)
            if isinstance(v, Obj):
                return v
            if isinstance(v, tuple) and v[0] == "addr":
                return v[1]
            raise Undec("dereference")
        if op == "!":
            return Poly.c(0 if s.tr(x["e"]) else 1)
        v = s.ev(x["e"])
        if op == "-":
            if isinstance(v, Poly):
                return -v
            if isinstance(v, Sc):
                return Sc(-v.c, v.f)
        if op == "+":
            return v
        raise Undec("unary " + op)

    def x_bin(s, x):
        op = x["op"]
        if op == "&&":
            return Poly.c(1 if s.tr(x["a"]) and s.tr(x["b"]) else 0)
        if op == "||":
            return Poly.c(1 if s.tr(x["a"]) or s.tr(x["b"]) else 0)
        if op == ",":
            s.ev_(x["a"])
            return s.ev_(x["b"])
        if op == "=":
            v = s.ev(x["b"])
            return s.assign(s.ev_(x["a"]), v, x)
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            c = s.ev_(x["a"])
            v = s.arith(op[:-1], s.rv(c), s.ev(x["b"]))
            return s.assign(c, v, x)
        a, b = s.ev(x["a"]), s.ev(x["b"])
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return Poly.c(1 if s.cmp(op, a, b) else 0)
        return s.arith(op, a, b)

    def assign(s, c, v, x=None):
        if isinstance(c, Cell):
            c.v = cp(v)
            return c
        if isinstance(c, Elem):
            s.path.ev.append(("write", Elem(c.base, c.off), v, tuple(s.loop), (x or {}).get("l", s.line)))
            return c
        raise Undec("assignment")

    def arith(s, op, a, b):
        if isinstance(a, Poly) and isinstance(b, Poly):
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op in ("/", "%", "<<", ">>"):
                ca, cb = a.const(), b.const()
                if ca is not None and cb:
                    if op == "/":
                        return Poly.c(int(ca / cb))
                    if op == "%":
                        return Poly.c(ca - cb * int(ca / cb))
            raise Undec("integer operator " + op)
        if isinstance(a, Ptr) and isinstance(b, Poly) and op in "+-":
            return Ptr(a.base, a.off + b if op == "+" else a.off - b)
        if isinstance(b, Ptr) and isinstance(a, Poly) and op == "+":
            return Ptr(b.base, b.off + a)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "-" and a.base == b.base:
            return a.off - b.off
        if isinstance(a, (Sc, Poly)) and isinstance(b, (Sc, Poly)):
            a, b = s.tosc(a), s.tosc(b)
            if op == "*":
                return a * b
            if not a.f and not b.f and op in "+-":
                return Sc(a.c + b.c if op == "+" else a.c - b.c)
            return Sc(1, [("o", op, (a, b))])
        raise Undec("operator %s" % op)

    def x_cond(s, x):
        return s.ev_(x["a"] if s.tr(x["c"]) else x["b"])

    def x_cast(s, x):
        ck = x["ck"]
        v = s.ev_(x["e"])
        if ck in ("LValueBitCast", "BitCast", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived"):
            return v
        v = s.rv(v)
        if ck == "IntegralCast" and isinstance(v, Poly):
            b, sb = s.ty(x["t"]), s.ty(x["st"])
            if b.get("bits", 64) < 64 and sb.get("bits", 64) > b.get("bits", 64) and v.const() is None:
                s.path.notes.append(("narrow", sb["s"], b["s"], x.get("l")))
            return v
        if ck in ("IntegralToBoolean",):
            return Poly.c(0 if s.cmp("==", v, ZERO) else 1)
        if ck == "IntegralToFloating":
            return s.tosc(v)
        if ck == "FloatingToIntegral":
            if isinstance(v, Sc) and not v.f:
                return Poly.c(int(v.c))
            n = "int(%r)" % (v,)
            return Poly.s(n)
        if ck == "NullToPointer":
            return Ptr("null")
        if ck == "ToVoid":
            return None
        if ck in ("FloatingCast", "FloatingRealToComplex", "FloatingComplexCast", "PointerToBoolean", "IntegralCast", "BooleanToSignedIntegral"):
            return v
        raise Undec("cast " + ck)

    def x_copy(s, x):
        return cp(s.ev(x["e"]))

    def x_list(s, x):
        if len(x["a"]) == 1 and s.ty(x["t"])["k"] != "rec":
            return s.ev(x["a"][0])
        b = s.ty(x["t"])
        if not x["a"] and b["k"] in ("int", "enum", "bool"):
            return Poly()
        if b["k"] == "rec" and (b.get("fields") or not x["a"]):
            o = Obj(x["t"])
            for i, fl in enumerate(b.get("fields") or []):
                if i < len(x["a"]):
                    o.f[fl["n"]] = Cell(cp(s.ev(x["a"][i])))
                elif fl.get("init"):
                    o.f[fl["n"]] = Cell(s.ev(fl["init"]))
            return o
        raise Undec("list")

    def x_ctor(s, x):
        b = s.ty(x["t"])
        nm = b.get("name", b["s"])
        if nm in ("std::pair", "std::tuple"):
            v = [cp(s.ev(a)) for a in x["a"]]
            if len(v) == 2:
                return Obj(x["t"], {"first": Cell(v[0]), "second": Cell(v[1])})
            raise Undec("pair constructor")
        if nm == "std::complex":
            v = [s.ev(a) for a in x["a"]]
            if not v:
                return Sc(0)
            if len(v) == 1 or (isinstance(v[1], (Sc, Poly)) and s.tosc(v[1]) == Sc(0)):
                return s.tosc(v[0])
            return Sc(1, [("o", "complex", tuple(s.tosc(z) for z in v))])
        if nm == "std::vector":
            o = Obj(x["t"], {"#size": Cell(s.ev(x["a"][0]) if x["a"] else ZERO), "#id": Cell("vec%d" % next(s.fresh))})
            return o
        if nm == "std::span":
            v = [s.ev(a) for a in x["a"]]
            if len(v) == 2 and isinstance(v[0], Ptr) and isinstance(v[1], Poly):
                return Obj(x["t"], {"#ptr": Cell(v[0]), "#size": Cell(v[1])})
            raise Undec("span")
        if nm.startswith("std::") and ("error" in nm or "exception" in nm or "string" in nm):
            return ("exc", nm)
        f = s.P.fns[x["f"]]
        o = Obj(x["t"])
        if f.get("body") is None and not f.get("inits"):
            if not x["a"] and b.get("fields") is not None:
                for fl in b["fields"]:
                    if fl.get("init"):
                        o.f[fl["n"]] = Cell(s.ev(fl["init"]))
                return o
            if f.get("defaulted") and len(x["a"]) == 0:
                return o
            raise Undec("constructor " + f["name"])
        s.call(f, s.argv(f, x["a"]), o)
        return o

    def x_throw(s, x):
        raise Throw(s.P.types[x["t"]]["s"] if "t" in x else "?", x.get("l"))

    def argv(s, f, a):
        r = []
        for i, y in enumerate(a):
            p = f["params"][i] if i < len(f["params"]) else None
            r.append(s.lvx(y) if p is not None and s.isref(p["t"]) else s.ev(y))
        return r

    def x_method(s, x):
        raise Undec("method value")

    def x_call(s, x):
        if "f" not in x:
            raise Undec("indirect call")
        f = s.P.fns[x["f"]]
        n, q = f["n"], f["name"]
        a = x["a"]
        if q.startswith("std::") or q.startswith("__") or n in ("abs", "max", "min", "conj", "real", "imag", "isnan", "isinf") or not f.get("root"):
            r = s.builtin(f, n, q, a, x)
            if r is not NotImplemented:
                return r
        if f.get("m") and not f.get("static"):
            th = s.ev_(a[0])
            if isinstance(th, Cell):
                th = th.v
            if isinstance(th, Lam):
                return s.lam(th, f, s.argv(f, a[1:]))
            if f.get("body") is not None:
                if f.get("conv") and not isinstance(th, Obj):
                    return th
                return s.call(f, s.argv(f, a[1:]), th)
            raise Undec("method " + q)
        if f.get("body") is not None and s.inline(f):
            return s.call(f, s.argv(f, a), None)
        vals = s.argv(f, a)
        return s.event(f, vals, x)

    def lam(s, l, f, args):
        sv = s.env
        # lambda bodies see their captures and parameters
        env = dict(l.env)
        for p, v in zip(f["params"], args):
            env[p["d"]] = (v if isinstance(v, (Cell, Elem)) else Cell(v)) if s.isref(p["t"]) else Cell(cp(s.rv(v)))
        th, s.this, s.env = s.this, l.this, env
        s.fstack.append(f)
        try:
            s.st(f["body"])
            return None
        except Ret as r:
            return r.v
        finally:
            s.env, s.this = sv, th
            s.fstack.pop()

    def event(s, f, vals, x):
        s.path.ev.append(("call", f, vals, tuple(s.loop), x.get("l", s.line)))
        rt = s.P.base(f["ret"])
        key = "%s#%d" % (f["n"], sum(1 for e in s.path.ev if e[0] == "call"))
        if rt["k"] in ("int", "bool", "enum"):
            return Poly.s("ret:" + key)
        if rt["k"] == "void":
            return None
        return Sc(1, [("s", "ret:" + key, False)])

    def builtin(s, f, n, q, a, x):
        ev = s.ev
        if n in ("move", "forward", "as_const"):
            return s.ev_(a[0])
        if n == "swap" and len(a) == 2 and q.startswith("std::"):
            u, v = s.ev_(a[0]), s.ev_(a[1])
            if isinstance(u, Cell) and isinstance(v, Cell):
                u.v, v.v = v.v, u.v
                return None
            raise Undec("swap")
        if n in ("max", "min") and len(a) == 2:
            u, v = ev(a[0]), ev(a[1])
            if isinstance(u, Poly) and isinstance(v, Poly):
                lt = s.decide(u - v, "<")
                return (v if lt else u) if n == "max" else (u if lt else v)
            return Sc(1, [("o", n, (u, v))])
        if n in ("abs", "labs", "llabs") and len(a) == 1:
            u = ev(a[0])
            if isinstance(u, Poly):
                return -u if s.decide(u, "<") else u
            return Sc(1, [("o", n, (u,))])
        if n == "conj" and len(a) == 1:
            u = s.tosc(ev(a[0]))
            if s.is_complex(a[0]):
                return u.conj()
            return u
        if n in ("real", "imag", "isnan", "isinf", "sqrt", "abs1", "norm") and f.get("root") is None or n in ("real", "imag", "isnan", "isinf"):
            u = s.tosc(ev(a[0]))
            if n == "real" and not s.is_complex(a[0]):
                return u
            if n in ("isnan", "isinf"):
                return Poly.c(1 if s.decide_sc((n, u)) else 0)
            return Sc(1, [("o", n, (u,))])
        if n == "make_pair" or (q == "std::pair" and len(a) == 2):
            return Obj(x.get("t"), {"first": Cell(cp(ev(a[0]))), "second": Cell(cp(ev(a[1])))})
        if n == "get" and len(a) == 1:
            o = ev(a[0])
            if isinstance(o, Obj):
                ta = f.get("targs", [{}])[0].get("v")
                return list(o.f.values())[int(ta)]
        o = None
        if f.get("m") and a:
            o = s.ev_(a[0])
            o = o.v if isinstance(o, Cell) else o
        if isinstance(o, Obj):
            if n == "resize":
                o.f["#size"] = Cell(ev(a[1]))
                o.f.setdefault("#id", Cell("vec"))
                return None
            if n == "data":
                if "#ptr" in o.f:
                    return o["#ptr"]
                return Ptr(o["#id"])
            if n == "size":
                return o["#size"]
            if n == "operator[]":
                i = ev(a[1])
                return Elem(o["#ptr"].base, o["#ptr"].off + i) if "#ptr" in o.f else Elem(o["#id"], i)
            if f.get("conv"):
                return o
        if n.startswith("operator") and a:
            op = n[8:]
            if op == "=" and len(a) == 2:
                v = ev(a[1])
                return s.assign(s.ev_(a[0]), v, x)
            if op in ("*=", "+=", "-=", "/="):
                c = s.ev_(a[0])
                return s.assign(c, s.arith(op[:-1], s.rv(c), ev(a[1])), x)
            if op in ("==", "!="):
                return Poly.c(1 if s.cmp(op, ev(a[0]), ev(a[1])) else 0)
            if op in ("*", "+", "-", "/") and len(a) == 2:
                return s.arith(op, ev(a[0]), ev(a[1]))
            if op == "-" and len(a) == 1:
                u = s.tosc(ev(a[0]))
                return Sc(-u.c, u.f)
        return NotImplemented

    def is_complex(s, x):
        t = x.get("t")
        if t is None:
            f = x.get("f")
            return True
        return "complex" in s.P.base(t)["s"]


def strip(a):
    """conj does not matter in comparisons with constants"""
    return Sc(a.c, [x[:-1] + (False,) if x[0] in "se" else x for x in a.f])


# ------------------------------------------------------------------ witnesses
def witness(facts, ranges, bad, limit=400000, fixed=None):
    """search a small integer point satisfying the facts (and ranges: name ->
    iterable, in order; later ranges may be callables of the point) at which
    bad(env) holds"""
    names = list(ranges)
    cnt = [0]

    # facts grouped by when they become evaluable
    order = {n: i for i, n in enumerate(names)}
    by = [[] for _ in range(len(names) + 1)]
    for p, o in facts.l:
        ss = p.syms()
        if any(z not in order for z in ss):
            continue
        by[max([order[z] for z in ss], default=-1) + 1].append((p, o))

    def ok(i, env):
        for p, o in by[i]:
            v = p.at(env)
            if not (v < 0 if o == "<" else v >= 0 if o == ">=" else v == 0 if o == "=" else v != 0):
                return False
        return True

    def rec(i, env):
        if i == len(names):
            cnt[0] += 1
            if cnt[0] > limit:
                return "limit"
            return dict(env) if bad(env) else None
        r = ranges[names[i]]
        for v in (r(env) if callable(r) else r):
            env[names[i]] = v
            if ok(i + 1, env):
                w = rec(i + 1, env)
                if w is not None:
                    return w
        env.pop(names[i], None)
        return None
    if not ok(0, {}):
        return None
    w = rec(0, {})
    return None if w == "limit" else w
